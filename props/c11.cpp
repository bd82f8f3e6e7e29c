// C11: compaction of polygons
#include "polymodel.h"
#include "model.h"

static void judgeExact(const Pts& v, const Pts& got)
{
    if (v.size() <= 4) {
        CHECK(got == v, "a polygon of %zu points was changed: %s", v.size(), show(got).c_str());
        return;
    }
    Pts want;
    corners(v, want);
    CHECK(sameCycle(want, got), "the result is %s\nthe corners are %s", show(got).c_str(), show(want).c_str());
}

static void exactCase(Src& s, Ctx& c)
{
    Pts base = genPolygon(s, c), w;
    Pts v = decorate(s, c, base, s.chance(1, 2) ? 4 : 0, s.chance(1, 2) ? 2 : 0, s.chance(1, 2));
    if (!corners(v, w))
        discard();
    // exact transformations
    double sc = s.chance(1, 2) ? ldexp(1, s.range(-20, 40)) : 1, ox = s.chance(1, 3) ? s.range(-100000, 100000) : 0, oy = s.chance(1, 3) ? s.range(-100000, 100000) : 0;
    for (auto& p : v) {
        p.x = (p.x + ox) * sc;
        p.y = (p.y + oy) * sc;
    }
    corners(v, w);
    static const double E[] = {1e-10, 1e-10, 1e-10, 0, 1e-12, 1e-9};
    double eps = E[s.draw(6)];
    c.desc << strf("compact with %g: ", eps) << show(v);
    c.nontrivial = v.size() > 4 && w.size() < v.size();
    c.label(w.size() == v.size(), "nothing-to-remove");
    c.label(sc != 1 || ox || oy, "scaled-or-shifted");
    poly* p = toPoly(v);
    poly_compact(p, eps);
    Pts got = fromPoly(p);
    judgeExact(v, got);
    long double a0 = modelArea(v), a1 = modelArea(got);
    CHECK(a0 == a1, "the area changed from %.17Lg to %.17Lg", a0, a1);
    // the polygon is still a polygon: its extent, and it can be edited
    for (int q = s.range(0, 6); q > 0; --q) {
        Pt t = base[s.draw(base.size())];
        t.x = (t.x + s.range(-2, 2) + ox) * sc;
        t.y = (t.y + s.range(-2, 2) + oy) * sc;
        CHECK(poly_containspoint(p, t.x, t.y) == (int) modelContains(v, t), "point (%.17g, %.17g) %s after compaction", t.x, t.y, modelContains(v, t) ? "is no longer in the polygon" : "is in the polygon");
    }
    poly_compact(p, eps);
    CHECK(fromPoly(p) == got, "another compaction changes the polygon to %s", show(fromPoly(p)).c_str());
    poly_close(p);
    CHECK(p->n == (int) got.size() + (v.size() > 4 || got.front() != got.back()), "the polygon can not be closed");
    poly_destroy(p);
}

// real coordinates: corners are clear, other vertices are on the sides to within rounding
static void realCase(Src& s, Ctx& c)
{
    Pts base = genPolygon(s, c), w;
    Pts v = decorate(s, c, base, s.chance(1, 2) ? 4 : 0, s.chance(1, 2) ? 2 : 0, s.chance(1, 2));
    if (v.size() <= 4 || !corners(v, w))
        discard();
    // small angles would not be told from rounding
    for (size_t k = 0; k < w.size(); ++k) {
        const Pt &a = w[k], &b = w[(k + 1) % w.size()], &d = w[(k + 2) % w.size()];
        if (fabsl(cross(a, b, d)) < 1e-8 * hypot(b.x - a.x, b.y - a.y) * hypot(d.x - b.x, d.y - b.y))
            discard();
    }
    double sc = pow(10.0, s.real(-5, 7)), phi = s.real(0, 6.28), ox = sc * (s.chance(1, 2) ? s.real(-1e3, 1e3) : 0), oy = sc * (s.chance(1, 2) ? s.real(-1e3, 1e3) : 0);
    auto T = [&](const Pt& p) { return Pt{sc * (p.x * cos(phi) - p.y * sin(phi)) + ox, sc * (p.x * sin(phi) + p.y * cos(phi)) + oy}; };
    Pts tv, tw;
    for (auto& p : v) tv.push_back(T(p));
    for (auto& p : w) tw.push_back(T(p));
    c.desc << "compact: " << show(tv);
    c.nontrivial = w.size() < v.size();
    c.label(strf("scale-1e%d", (int) floor(log10(sc))));
    poly* p = toPoly(tv);
    double pa0 = poly_area(p);
    poly_compact(p, 1e-10);
    Pts got = fromPoly(p);
    CHECK(sameCycle(tw, got), "the result is %s\nthe corners are %s", show(got).c_str(), show(tw).c_str());
    long double a0 = modelArea(tv), a1 = modelArea(got);
    double R = 2000 * sc;
    CHECK(fabsl(a0 - a1) <= 1e-9 * R * R, "the area changed from %.17Lg to %.17Lg", a0, a1);
    CHECK(fabs(pa0 - poly_area(p)) <= 1e-9 * R * R, "poly_area() changed from %.17g to %.17g", pa0, poly_area(p));
    for (int q = s.range(0, 6); q > 0; --q) {
        Pt t = base[s.draw(base.size())];
        t.x += s.range(-2, 2) + 0.37;
        t.y += s.range(-2, 2) + 0.21;
        long double d = 1e300L;
        for (size_t k = 0; k < w.size(); ++k) {
            const Pt &a = w[k], &b = w[(k + 1) % w.size()];
            long double ex = b.x - a.x, ey = b.y - a.y, u = ((t.x - a.x) * ex + (t.y - a.y) * ey) / (ex * ex + ey * ey);
            u = std::min(1.0L, std::max(0.0L, u));
            d = std::min(d, hypotl(t.x - a.x - u * ex, t.y - a.y - u * ey));
        }
        if (d < 1e-6)
            continue;
        Pt tt = T(t);
        CHECK(poly_containspoint(p, tt.x, tt.y) == (int) modelContains(v, t), "the result of the point in polygon test changed for (%.17g, %.17g)", tt.x, tt.y);
    }
    poly_destroy(p);
}

static bool parsePts(const std::string& t, Pts& v)
{
    std::vector<std::string> L = lines(t);
    int n, off;
    if (L.empty() || sscanf(L[0].c_str(), "## %d", &n) != 1 || (int) L.size() != n + 1)
        return false;
    for (int k = 1; k <= n; ++k) {
        Pt p;
        if (sscanf(L[k].c_str(), "%lf %lf%n", &p.x, &p.y, &off) != 2 || off != (int) L[k].size())
            return false;
        v.push_back(p);
    }
    return true;
}

static void cliCase(Src& s, Ctx& c)
{
    GeomOpts o;
    o.exact = true;
    Grid G = genGrid(s, c, o, 0);
    std::string f = writeFile("g.txt", gridText(G.n));
    bool ij = s.chance(1, 2), san = s.chance(1, 8);
    c.desc << "getbound -c" << (ij ? " -r" : "") << "\n" << brief(G.n, 400);
    std::vector<std::string> av = {tool("getbound", san), f, "-i", "co"};
    if (ij) av.push_back("-r");
    std::vector<std::string> av2 = av;
    av2.insert(av2.begin() + 1, "-c");
    RunResult a = runSafe(av), b = runSafe(av2);
    CHECK(a.ok() && b.ok(), "exit codes %d, %d", a.code, b.code);
    Pts v, w;
    CHECK(parsePts(a.out, v) && parsePts(b.out, w), "the output is not in the polygon format");
    judgeExact(v, w);
    c.nontrivial = w.size() < v.size() - 1 && v.size() > 5;
}

Property THE_PROPERTY = {"C11", "there are more than four vertices and some of them have to be removed",
    {{"integer", exactCase, 60000, 1500000}, {"real", realCase, 30000, 700000}, {"program", cliCase, 2500, 40000}, {"huge-integer", exactCase, 12, 600, -1}, {"huge-real", realCase, 12, 600, -1}, {"huge-program", cliCase, 8, 400, 1}},
    {"the polygon does not turn back on itself (no zero-width spikes)", "distinct vertices are further apart than the tolerance", "polygons of up to four points are left alone"}};
