// C13: editing polylines
#include "model.h"
#include "polymodel.h"

struct Line { poly* p; Pts m; };

static bool integral(const Pts& v)
{
    for (auto& p : v)
        if (p.x != rint(p.x) || p.y != rint(p.y) || fabs(p.x) > 1e6 || fabs(p.y) > 1e6)
            return false;
    return true;
}

static void compare(Src& s, Line& L, const char* op)
{
    poly* p = L.p;
    CHECK(p->n == (int) L.m.size(), "after %s: %d points instead of %zu: %s", op, p->n, L.m.size(), show(L.m).c_str());
    CHECK(p->nallocated >= p->n, "after %s: %d points in storage for %d", op, p->n, p->nallocated);
    double x0 = DBL_MAX, x1 = -DBL_MAX, y0 = DBL_MAX, y1 = -DBL_MAX;
    for (int k = 0; k < p->n; ++k) {
        const Pt& a = L.m[k];
        CHECK(same(p->x[k], a.x) && same(p->y[k], a.y), "after %s: point %d is (%.17g, %.17g) instead of (%.17g, %.17g)", op, k, p->x[k], p->y[k], a.x, a.y);
        x0 = std::min(x0, a.x); x1 = std::max(x1, a.x);
        y0 = std::min(y0, a.y); y1 = std::max(y1, a.y);
    }
    if (p->n > 0)
        CHECK(p->e.xmin == x0 && p->e.xmax == x1 && p->e.ymin == y0 && p->e.ymax == y1, "after %s: the bounding rectangle is [%.17g, %.17g]x[%.17g, %.17g] instead of [%.17g, %.17g]x[%.17g, %.17g]", op, p->e.xmin, p->e.xmax, p->e.ymin, p->e.ymax, x0, x1, y0, y1);
    // observers
    long double sc = 1;
    for (auto& a : L.m)
        sc = std::max({sc, fabsl(a.x), fabsl(a.y)});
    double a = poly_area(p);
    long double want = L.m.empty() ? 0 : modelArea(L.m);
    bool ex = integral(L.m);
    CHECK(ex ? a == (double) want : fabsl(a - want) <= 1e-13L * sc * sc * (p->n + 1), "after %s: the area is %.17g instead of %.17Lg", op, a, want);
    if (L.m.empty()) {
        CHECK(poly_containspoint(p, 0, 0) == 0, "after %s: an empty polyline contains a point", op);
        CHECK(poly_findindex(p, 0, 0) == -1, "after %s: a point is found in an empty polyline", op);
        CHECK(!poly_isclosed(p, 0), "after %s: an empty polyline is closed", op);
        return;
    }
    Pt t = L.m[s.draw(L.m.size())];
    if (s.chance(1, 3)) { t.x += s.range(-1, 1); t.y += s.range(-1, 1); }
    int idx = -1;
    for (size_t k = 0; k < L.m.size() && idx < 0; ++k)
        if (L.m[k] == t) idx = k;
    int got = poly_findindex(p, t.x, t.y);
    CHECK(got == idx, "after %s: point (%.17g, %.17g) is found at %d instead of %d", op, t.x, t.y, got, idx);
    if (ex)
        CHECK((poly_containspoint(p, t.x, t.y) != 0) == modelContains(L.m, t), "after %s: point (%.17g, %.17g) in polygon: %d; the polygon: %s", op, t.x, t.y, poly_containspoint(p, t.x, t.y), show(L.m).c_str());
    double eps = s.range(0, 2);
    bool cl = L.m.size() > 1 && fabs(L.m[0].x - L.m.back().x) <= eps && fabs(L.m[0].y - L.m.back().y) <= eps;
    CHECK((poly_isclosed(p, eps) != 0) == cl, "after %s: poly_isclosed(%g) is %d", op, eps, poly_isclosed(p, eps));
}

static double R15(double v) { return atof(strf("%.15g", v).c_str()); }

static void editCase(Src& s, Ctx& c)
{
    int np = s.range(1, 3), nops = s.weighted({3, 3, 1}), R = s.range(1, 6);
    nops = nops == 0 ? s.range(1, 12) : nops == 1 ? s.range(10, 40) : s.range(40, 120);
    bool real = s.chance(1, 4) && !HUGE_MODE;
    if (HUGE_MODE) nops = std::min(nops, 25);
    std::vector<Line> P;
    size_t kinds = 0, maxn = 0;
    unsigned seen = 0;
    auto coord = [&]() { return real && s.chance(1, 2) ? s.real(-R, R) * pow(10.0, s.range(-3, 3)) : (double) s.range(-R, R); };
    for (int k = 0; k < np; ++k)
        P.push_back({poly_create(), {}});
    auto log = [&](const std::string& t) { c.desc << t << "\n"; };
    for (int o = 0; o < nops; ++o) {
        int k = s.draw(P.size());
        Line& L = P[k];
        int op = s.weighted({10, 6, 5, 3, 1, 2, 3, 2, 3, 3, 3, 2, 2, 2});
        std::string name;
        switch (op) {
        case 0: {                               // add, possibly many
            int m = s.chance(1, 4) ? s.range(1, 20) : 1;
            name = "add";
            if (HUGE_MODE && L.m.size() < 100000) {
                m = hugeLength(s, 70000);
                uint64_t seed = s.draw(1u << 30);
                log(strf("%d: add %d points, seed %llu", k, m, (unsigned long long) seed));
                for (int q = 0; q < m; ++q) {
                    Pt t{rint(R * noise(seed, 2 * q)), rint(R * noise(seed, 2 * q + 1))};
                    if (noise(seed, (1ull << 33) + q) > 0.6 && !L.m.empty()) t = L.m.back();
                    poly_addpoint(L.p, t.x, t.y);
                    L.m.push_back(t);
                }
                break;
            }
            for (; m > 0; --m) {
                Pt t{coord(), coord()};
                if (!L.m.empty() && s.chance(1, 4)) t = L.m.back();
                log(strf("%d: add (%.17g, %.17g)", k, t.x, t.y));
                poly_addpoint(L.p, t.x, t.y);
                L.m.push_back(t);
            }
            break;
        }
        case 1: {
            Pt t{coord(), coord()};
            int at = s.range(-2, (int) L.m.size() + 3);
            log(name = strf("%d: insert (%.17g, %.17g) at %d", k, t.x, t.y, at));
            poly_addpointat(L.p, at, t.x, t.y);
            if (at >= 0) L.m.insert(L.m.begin() + std::min((size_t) at, L.m.size()), t);
            break;
        }
        case 2: {
            if (L.m.empty()) continue;
            int at = s.draw(L.m.size());
            log(name = strf("%d: delete %d", k, at));
            poly_deletepoint(L.p, at);
            L.m.erase(L.m.begin() + at);
            break;
        }
        case 3: {
            int q = s.draw(P.size());
            if (L.m.size() + P[q].m.size() > (HUGE_MODE ? 200000 : 3000)) continue;
            log(name = strf("%d: append %d", k, q));
            poly_append(L.p, P[q].p);
            Pts add = P[q].m;
            L.m.insert(L.m.end(), add.begin(), add.end());
            break;
        }
        case 4:
            log(name = strf("%d: clear", k));
            poly_clear(L.p);
            L.m.clear();
            break;
        case 5: {                               // the copy replaces another or is a new one
            log(name = strf("%d: copy", k));
            poly* q = poly_copy(L.p);
            Pts m = L.m;
            if (P.size() < 4) P.push_back({q, m});
            else {
                int d = s.draw(P.size());
                log(strf("    over %d", d));
                poly_destroy(P[d].p);
                P[d] = {q, m};
            }
            break;
        }
        case 6:
            log(name = strf("%d: close", k));
            poly_close(L.p);
            if (!L.m.empty() && !(L.m.size() > 1 && L.m.front() == L.m.back())) L.m.push_back(Pt(L.m.front()));
            break;
        case 7:
            log(name = strf("%d: reverse", k));
            poly_reverse(L.p);
            std::reverse(L.m.begin(), L.m.end());
            break;
        case 8: {
            double eps = s.range(0, 4) / 2.0;
            log(name = strf("%d: resample %g", k, eps));
            poly_resample(L.p, eps);
            Pts r;
            for (auto& t : L.m)
                if (r.empty() || fabs(r.back().x - t.x) > eps || fabs(r.back().y - t.y) > eps) r.push_back(t);
            L.m = r;
            break;
        }
        case 9: {
            double d = s.range(1, 3 * R) + (s.chance(1, 2) ? 0.3 : 0);
            log(name = strf("%d: despike %g", k, d));
            poly_despike(L.p, d);
            Pts r;
            for (auto& t : L.m)
                if (r.empty() || hypot(r.back().x - t.x, r.back().y - t.y) < d) r.push_back(t);
            L.m = r;
            break;
        }
        case 10: {
            Pts w;
            if (HUGE_MODE && !integral(L.m)) continue;
            bool known = L.m.size() <= 4 || (integral(L.m) && corners(L.m, w));
            log(name = strf("%d: compact", k));
            poly_compact(L.p, 1e-10);
            if (L.m.size() > 4) {
                Pts g = fromPoly(L.p);
                if (known)
                    CHECK(sameCycle(w, g), "compaction of %s gives %s", show(L.m).c_str(), show(g).c_str());
                else {                          // turns back on itself, or involves rounding: some of the points in the same order
                    bool sub = g.empty();
                    for (size_t r = 0; r < L.m.size() && !sub; ++r) {
                        size_t q = 0;
                        for (size_t e = 0; e < L.m.size() && q < g.size(); ++e) q += L.m[(r + e) % L.m.size()] == g[q];
                        sub = q == g.size();
                    }
                    CHECK(sub, "compaction of %s gives %s", show(L.m).c_str(), show(g).c_str());
                    c.label(g.empty(), "compacted-to-nothing");
                }
                L.m = g;
            }
            break;
        }
        case 11: {                              // write
            log(name = strf("%d: write", k));
            std::string want = strf("## %zu\n", L.m.size());
            for (auto& t : L.m) want += strf("%.15g %.15g\n", t.x, t.y);
            char* b = nullptr;
            size_t bn = 0;
            FILE* f = open_memstream(&b, &bn);
            poly_write(L.p, f);
            fclose(f);
            std::string got(b, bn);
            free(b);
            CHECK(got == want, "written:\n%s\nexpected:\n%s", got.c_str(), want.c_str());
            break;
        }
        case 12: {                              // read
            std::string txt;
            for (int q = s.range(0, 3); q > 0; --q) txt += s.chance(1, 20) ? "# " + longTail(s, 2, 2048) + "\n" : s.chance(1, 2) ? "# comment 1 2\n" : s.chance(1, 2) ? "\n" : "  \t \n";
            Pts add;
            int m = s.range(0, 8);
            static const char* F[] = {"%.17g %.17g", "  %.17g\t%.17g 5 6", "%.17e %.17e abc", "%.17g     %.17g"};
            bool last = false;
            for (int q = 0; q < m; ++q) {
                Pt t{coord(), coord()};
                int fi = s.draw(4);
                txt += strf(fi == 0 ? "%.17g %.17g" : fi == 1 ? "  %.17g\t%.17g 5 6" : fi == 2 ? "%.17e %.17e abc" : "%.17g     %.17g", t.x, t.y);
                (void) F;
                if (s.chance(1, 60)) txt += longTail(s, txt.size() - (txt.rfind('\n') + 1), 2048);
                last = q == m - 1 && s.chance(1, 3);
                if (!last) txt += "\n";
                add.push_back(t);
            }
            std::string rest;
            if (!last && s.chance(1, 2)) {
                static const char* E[] = {"\n", "# end\n", "x 1 2\n", "5\n", "7 abc\n"};
                rest = E[s.draw(m ? 5 : 2)];
                if (m) {
                    txt += rest;
                    if (s.chance(1, 2)) txt += "100 200\n300 400\n";    // another polyline
                }
            }
            log(name = strf("%d: read \"%s\"", k, txt.c_str()));
            if (txt.empty()) continue;
            FILE* f = fmemopen((void*) txt.data(), txt.size(), "r");
            int got = poly_read(L.p, f);
            fclose(f);
            L.m.insert(L.m.end(), add.begin(), add.end());
            if (m) CHECK(got == (int) L.m.size(), "poly_read() returned %d instead of %zu", got, L.m.size());
            break;
        }
        default: {                              // NaN, or write and read
            if (s.chance(1, 3)) {
                Pt t{coord(), coord()};
                (s.chance(1, 2) ? t.x : t.y) = NAN;
                log(name = strf("%d: add (%g, %g)", k, t.x, t.y));
                bool q = false;
                try { poly_addpoint(L.p, t.x, t.y); } catch (Quit&) { q = true; }
                CHECK(q, "a point with NaN coordinate was added");
                break;
            }
            log(name = strf("%d: write and read", k));
            std::string fn = scratch() + "/p";
            FILE* f = fopen(fn.c_str(), "w");
            poly_write(L.p, f);
            fclose(f);
            poly* p2 = poly_create();
            f = fopen(fn.c_str(), "r");
            int got = poly_read(p2, f);
            fclose(f);
            CHECK(got == (int) L.m.size(), "%d points read back instead of %zu", got, L.m.size());
            poly_destroy(L.p);
            L.p = p2;
            for (auto& t : L.m) { t.x = R15(t.x); t.y = R15(t.y); }
        }
        }
        if (!(seen & (1u << op))) { seen |= 1u << op; kinds++; }
        for (auto& q : P) {
            maxn = std::max(maxn, q.m.size());
            compare(s, q, name.c_str());
        }
    }
    for (auto& q : P)
        poly_destroy(q.p);
    c.nontrivial = kinds >= 4 && maxn > 4;
    c.label(maxn > 4, "storage-grows");
    c.label(maxn > 64, "long");
    static const char* N[] = {"add", "insert", "delete", "append", "clear", "copy", "close", "reverse", "resample", "despike", "compact", "write", "read", "nan-or-round-trip"};
    for (int k = 0; k < 14; ++k)
        c.label(seen >> k & 1, N[k]);
}

Property THE_PROPERTY = {"C13", "at least four kinds of operations and more than four points in some polyline",
    {{"edit", editCase, 60000, 1500000}, {"huge", editCase, 10, 500, -1}},
    {"poly_deletepoint() is given a valid index", "the result of poly_compact() is taken up to the choice of the first vertex"}};
