// C05: index to physical mapping
#include "model.h"

struct Subject { Nodes n; bool disk; double M; };
static Subject subject(Src& s, Ctx& c, int big)
{
    Subject S;
    GeomOpts o;
    o.exact = s.chance(1, 4);
    int n1, n2;
    genSize(s, n1, n2, big);
    Geom g;
    S.n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
    if (s.chance(1, 2))
        applyMask(S.n, genDiskMask(s, c, n1 + 1, n2 + 1, true));
    else
        killPattern(s, c, S.n);
    S.n = modelValidateCO(S.n);
    S.disk = topology(maskOf(S.n), n1 + 1, n2 + 1).disk();
    S.M = maxAbs(S.n);
    return S;
}

static double genIndex(Src& s, int nce, const char** kind)
{
    *kind = "inside";
    switch (s.weighted({5, 5, 3, 2, 2, 2, 1, 1})) {
    case 0: return s.draw(16 * nce + 1) / 16.0;
    case 1: return s.unit() * nce;
    case 2: *kind = "integer"; return s.range(0, nce);
    case 3: {                                    // next to an integer
        double v = s.range(0, nce), d = pow(10.0, -s.range(1, 16)) * (s.chance(1, 2) ? 1 : -1);
        *kind = v + d < 0 || v + d > nce ? "just-outside" : "next-to-integer";
        return v + d;
    }
    case 4: *kind = "last"; return nce;
    case 5: {
        double d = s.chance(1, 2) ? s.real(0, 3) : pow(10.0, s.range(-17, 9));
        bool neg = s.chance(1, 2);
        double v = neg ? -d : nce + d;
        *kind = v < 0 || v > nce ? "outside" : "inside";
        return v;
    }
    case 6: *kind = "outside"; {
        static const double f[] = {1e18, -1e18, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.5, 1.7e308, INFINITY, -INFINITY};
        return f[s.draw(9)];
    }
    default: *kind = "NaN"; return QNAN;
    }
}

static void judge(const Nodes& n, double M, double fi, double fj, int st, double x, double y, double extra)
{
    int n1 = n.nx - 1, n2 = n.ny - 1;
    if (std::isnan(fi) || std::isnan(fj)) {
        CHECK(st == 0 && std::isnan(x) && std::isnan(y), "index (%g, %g) gives status %d, (%g, %g)", fi, fj, st, x, y);
        return;
    }
    bool inside = fi >= 0 && fi <= n1 && fj >= 0 && fj <= n2;
    CHECK((st != 0) == inside, "index (%.17g, %.17g) %s %d x %d gives status %d", fi, fj, inside ? "within" : "outside", n1, n2, st);
    double ci = std::min(std::max(fi, 0.0), (double) n1), cj = std::min(std::max(fj, 0.0), (double) n2);
    long double wx, wy;
    bool valid = forward(n, ci, cj, wx, wy);
    double tol = 32 * DBL_EPSILON * M + extra;
    bool gotnan = std::isnan(x) && std::isnan(y);
    if (inside) {
        if (!valid)
            CHECK(gotnan, "index (%.17g, %.17g) gives (%.17g, %.17g), but it depends on an invalid node", fi, fj, x, y);
        else
            CHECK(fabsl(x - wx) <= tol && fabsl(y - wy) <= tol, "index (%.17g, %.17g) gives (%.17g, %.17g) instead of (%.17Lg, %.17Lg)", fi, fj, x, y, wx, wy);
        if (valid && ci == floor(ci) && cj == floor(cj) && extra == 0)
            CHECK(x == n.X((int) ci, (int) cj) && y == n.Y((int) ci, (int) cj), "index (%g, %g) gives (%.17g, %.17g), which is not exactly the node (%.17g, %.17g)", fi, fj, x, y, n.X((int) ci, (int) cj), n.Y((int) ci, (int) cj));
    } else {
        // the nearest point may be taken a little inside (1e-8 of a cell)
        int a = std::min((int) ci, n1 - 1), b = std::min((int) cj, n2 - 1);
        bool cell = n.cell(a, b);
        if (valid && gotnan && !cell)
            return;
        if (!valid) {
            CHECK(gotnan, "index (%.17g, %.17g) gives (%.17g, %.17g), but it depends on an invalid node", fi, fj, x, y);
            return;
        }
        if (cell)
            tol += 4e-8 * maxSide(cellOf(n, a, b));
        else
            for (int d = -1; d <= 1; ++d)
                for (int e = -1; e <= 1; ++e)
                    for (int k = 0; k < 2; ++k)
                        if (n.v(a + d, b + e) && n.v(a + d + k, b + e + !k))
                            tol = std::max(tol, 4e-8 * hypot(n.X(a + d, b + e) - n.X(a + d + k, b + e + !k), n.Y(a + d, b + e) - n.Y(a + d + k, b + e + !k)));
        CHECK(fabsl(x - wx) <= tol && fabsl(y - wy) <= tol, "index (%.17g, %.17g) gives (%.17g, %.17g) instead of the value at (%.17g, %.17g), (%.17Lg, %.17Lg)", fi, fj, x, y, ci, cj, wx, wy);
    }
}

static void libCase(Src& s, Ctx& c)
{
    Subject S = subject(s, c, 40);
    const Nodes& n = S.n;
    int n1 = n.nx - 1, n2 = n.ny - 1;
    c.desc << "forward map of\n" << brief(n);
    CNodes A(n);
    gridmap* gm[2] = {gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_KDTREE), nullptr};
    gridnodes* gn = nullptr;
    if (S.disk) {
        if (s.chance(1, 3)) {
            gn = toGridnodes(n, NT_COR);
            gm[1] = gridmap_build2(gn);
        } else
            gm[1] = gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_BINARY);
    }
    c.label(S.disk ? "both-maps" : "kd-tree only");
    int nin = 0;
    for (int q = s.range(1, 24); q > 0; --q) {
        const char *ki, *kj;
        double fi = genIndex(s, n1, &ki), fj = genIndex(s, n2, &kj);
        c.desc << strf("index (%.17g, %.17g)\n", fi, fj);
        c.label(ki);
        c.label(kj);
        double x[2] = {-777, -777}, y[2] = {-777, -777};
        int st[2];
        for (int t = 0; t < (gm[1] ? 2 : 1); ++t) {
            st[t] = gridmap_fij2xy(gm[t], fi, fj, &x[t], &y[t]);
            judge(n, S.M, fi, fj, st[t], x[t], y[t], 0);
        }
        if (gm[1])
            CHECK(st[0] == st[1] && same(x[0], x[1]) && same(y[0], y[1]), "index (%.17g, %.17g): the kd-tree map gives %d (%.17g, %.17g), the binary tree map %d (%.17g, %.17g)", fi, fj, st[0], x[0], y[0], st[1], x[1], y[1]);
        if (st[0] && !std::isnan(x[0])) nin++;
        c.label(st[0] ? (std::isnan(x[0]) ? "invalid-node" : "valid") : "failed");
    }
    c.nontrivial = nin > 0 && n1 * n2 > 1;
    gridmap_destroy(gm[0]);
    if (gm[1]) gridmap_destroy(gm[1]);
    if (gn) gridnodes_destroy(gn);
}

static void cliCase(Src& s, Ctx& c)
{
    Subject S = subject(s, c, 0);
    Nodes n = S.n = rounded15(S.n);
    int n1 = n.nx - 1, n2 = n.ny - 1;
    bool kd = !S.disk || s.chance(1, 2);
    std::vector<std::pair<double, double>> q;
    std::string in;
    for (int k = s.range(1, 12); k > 0; --k) {
        const char *ki, *kj;
        double fi = genIndex(s, n1, &ki), fj = genIndex(s, n2, &kj);
        q.push_back({fi, fj});
        in += strf("%.17g %.17g\n", fi, fj);
    }
    std::string f = writeFile("g.txt", gridText(n));
    c.desc << "xy2ij -r -f -i co " << (kd ? "-k" : "") << "\n" << brief(n) << "index:\n" << in;
    std::vector<std::string> av = {tool("xy2ij", s.chance(1, 8)), "-g", f, "-r", "-f", "-i", "co", "-o", "-"};
    if (kd) av.push_back("-k");
    RunResult r = runSafe(av, in);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::vector<std::string> L = lines(r.out);
    CHECK(L.size() == q.size(), "%zu lines of output for %zu lines of input", L.size(), q.size());
    int nin = 0;
    for (size_t k = 0; k < q.size(); ++k) {
        double x, y;
        CHECK(sscanf(L[k].c_str(), "%lf %lf", &x, &y) == 2, "line \"%s\"", L[k].c_str());
        bool inside = q[k].first >= 0 && q[k].first <= n1 && q[k].second >= 0 && q[k].second <= n2;
        if (!inside) {
            CHECK(std::isnan(x) && std::isnan(y), "index outside the grid gives \"%s\"", L[k].c_str());
            continue;
        }
        judge(n, S.M, q[k].first, q[k].second, 1, x, y, 1e-14 * S.M);
        nin += !std::isnan(x);
    }
    c.nontrivial = nin > 0;
}

Property THE_PROPERTY = {"C05", "at least one index is inside the grid and does not depend on an invalid node",
    {{"library", libCase, 45000, 1200000}, {"program", cliCase, 2500, 50000}, {"huge-library", libCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}},
    {"the nodes are validated", "beyond the range the map may take the nearest point 1e-8 of a cell inside"}};
