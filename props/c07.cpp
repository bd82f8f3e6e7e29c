// C07: fractional index mapping is the inverse of the forward mapping
#include "huge.h"

// cells with parallel sides in one index direction, in integers: any direction, thickness and slope
static Nodes trapezia(Src& s, int n1, int n2)
{
    Nodes n(n1 + 1, n2 + 1);
    int p = s.range(-3, 3), q = s.range(-3, 3);
    if (p == 0 && q == 0)
        q = 1;
    // columns advance along (r,t), which is to the right of (p,q)
    int r = s.range(-3, 3), t = s.range(-3, 3);
    if (r * q - t * p <= 0) {
        r = q;
        t = -p;
    }
    int ox = s.range(-5, 5), oy = s.range(-5, 5), along = 0, sh = 0;
    for (int i = 0; i <= n1; ++i) {
        int th = sh;
        for (int j = 0; j <= n2; ++j) {
            n.X(i, j) = ox + r * along + p * th;
            n.Y(i, j) = oy + t * along + q * th;
            th += 1 + (int) s.draw(4);
        }
        along += 1 + (int) s.draw(3);
        sh += (int) s.draw(7) - 3;
    }
    if (s.chance(1, 2)) {       // left-handed
        for (auto& v : n.x) v = -v;
    }
    if (s.chance(1, 2)) {       // parallel sides in the other index direction
        Nodes m(n2 + 1, n1 + 1);
        for (int j = 0; j <= n2; ++j)
            for (int i = 0; i <= n1; ++i) {
                m.X(j, i) = n.X(i, j);
                m.Y(j, i) = n.Y(i, j);
            }
        return m;
    }
    return n;
}

struct Subject { Nodes n; bool disk; double M; std::vector<std::pair<int, int>> cells; };

static void finish(Subject& S)
{
    S.disk = topology(maskOf(S.n), S.n.nx, S.n.ny).disk();
    S.M = maxAbs(S.n);
    for (int j = 0; j + 1 < S.n.ny; ++j)
        for (int i = 0; i + 1 < S.n.nx; ++i)
            if (S.n.cell(i, j))
                S.cells.push_back({i, j});
}

static void check(Src& s, Ctx& c, Subject& S)
{
    const Nodes& n = S.n;
    if (S.cells.empty())
        discard();
    CNodes A(n);
    int n1 = n.nx - 1, n2 = n.ny - 1;
    c.desc << (S.disk ? "both maps of\n" : "kd-tree map of\n") << brief(n);
    gridmap* gm[2] = {gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_KDTREE), S.disk ? gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_BINARY) : nullptr};
    int ngen = 0;
    for (int q = s.range(1, 16); q > 0; --q) {
        auto ij = S.cells[s.draw(S.cells.size())];
        Cell cl = cellOf(n, ij.first, ij.second);
        double u, v;
        int kind = s.weighted({4, 4, 2, 2});
        if (kind == 0) {
            u = s.draw(17) / 16.0;
            v = s.draw(17) / 16.0;
        } else if (kind == 1) {
            u = s.unit();
            v = s.unit();
        } else if (kind == 2) { // near or on the sides
            u = pow(10.0, -s.range(1, 12));
            v = s.chance(1, 2) ? s.unit() : pow(10.0, -s.range(1, 12));
            if (s.chance(1, 2)) u = 1 - u;
            if (s.chance(1, 2)) v = 1 - v;
            if (s.chance(1, 2)) std::swap(u, v);
        } else {
            u = s.draw(2);
            v = s.draw(3) / 2.0;
            if (s.chance(1, 2)) std::swap(u, v);
        }
        double tij, txy = tolXY(cl, S.M, tij);
        if (txy > 1e-3 * minSide(cl)) {
            c.label("ill-conditioned");
            continue;
        }
        c.desc << strf("index (%d + %.17g, %d + %.17g)\n", ij.first, u, ij.second, v);
        {
            double a = cl.x[0] - cl.x[1] - cl.x[3] + cl.x[2], e = cl.y[0] - cl.y[1] - cl.y[3] + cl.y[2];
            c.label(fabs(a) + fabs(e) > 1e-3 * maxSide(cl) ? "general" : fabs(a) + fabs(e) > 1e-12 * maxSide(cl) ? "near-parallelogram" : "parallelogram");
            ngen += fabs(a) + fabs(e) > 1e-3 * maxSide(cl);
        }
        double fi = ij.first + u, fj = ij.second + v;
        for (int t = 0; t < 2; ++t) {
            if (!gm[t])
                continue;
            const char* nm = t ? "binary tree map" : "kd-tree map";
            double x, y, gi = -777, gj = -777, x2, y2;
            CHECK(gridmap_fij2xy(gm[t], fi, fj, &x, &y), "%s: forward mapping of (%.17g, %.17g) failed", nm, fi, fj);
            int ci, cj, r = gridmap_xy2ij(gm[t], x, y, &ci, &cj);
            if (!r) {           // a point on the outline, moved outside by rounding
                bool edge = std::min(std::min(u, 1 - u), std::min(v, 1 - v)) <= tij;
                CHECK(edge, "%s: point (%.17g, %.17g) at index (%.17g, %.17g) is not in the grid", nm, x, y, fi, fj);
                CHECK(!gridmap_xy2fij(gm[t], x, y, &gi, &gj) && std::isnan(gi) && std::isnan(gj), "%s: point (%.17g, %.17g) has no cell but has index (%.17g, %.17g)", nm, x, y, gi, gj);
                c.label("rejected-at-outline");
                continue;
            }
            CHECK(gridmap_xy2fij(gm[t], x, y, &gi, &gj), "%s: point (%.17g, %.17g) is in cell (%d,%d) but has no index", nm, x, y, ci, cj);
            CHECK(std::isfinite(gi) && std::isfinite(gj), "%s: point (%.17g, %.17g) has index (%g, %g)", nm, x, y, gi, gj);
            CHECK(gi >= ci && gi <= ci + 1 && gj >= cj && gj <= cj + 1, "%s: point (%.17g, %.17g) is in cell (%d,%d) but has index (%.17g, %.17g)", nm, x, y, ci, cj, gi, gj);
            Cell c2 = cellOf(n, ci, cj);
            double tij2, txy2 = tolXY(c2, S.M, tij2);
            CHECK(fabs(gi - fi) <= tij + tij2 && fabs(gj - fj) <= tij + tij2, "%s: index (%.17g, %.17g) -> point (%.17g, %.17g) -> index (%.17g, %.17g) (tolerance %g)", nm, fi, fj, x, y, gi, gj, tij + tij2);
            CHECK(gridmap_fij2xy(gm[t], gi, gj, &x2, &y2), "%s: forward mapping of (%.17g, %.17g) failed", nm, gi, gj);
            CHECK(fabs(x2 - x) <= txy + txy2 && fabs(y2 - y) <= txy + txy2, "%s: point (%.17g, %.17g) -> index (%.17g, %.17g) -> point (%.17g, %.17g) (tolerance %g)", nm, x, y, gi, gj, x2, y2, txy + txy2);
        }
    }
    gridmap_destroy(gm[0]);
    if (gm[1]) gridmap_destroy(gm[1]);
    c.nontrivial = ngen > 0;
}

static void anyCase(Src& s, Ctx& c)
{
    Subject S;
    GeomOpts o;
    o.minscale = 1e-5;
    int n1, n2;
    genSize(s, n1, n2, 30);
    Geom g;
    S.n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
    if (s.chance(1, 2))
        applyMask(S.n, genDiskMask(s, c, n1 + 1, n2 + 1, true));
    else {
        killPattern(s, c, S.n);
        S.n = modelValidateCO(S.n);
    }
    finish(S);
    check(s, c, S);
}
static void trapeziumCase(Src& s, Ctx& c)
{
    Subject S;
    int n1, n2;
    genSize(s, n1, n2, 0);
    S.n = trapezia(s, n1, n2);
    finish(S);
    check(s, c, S);
}
// a single cell: any convex quadrilateral in small integers
static void cellCase(Src& s, Ctx& c)
{
    Subject S;
    S.n = Nodes(2, 2);
    const int di[] = {0, 1, 1, 0}, dj[] = {0, 0, 1, 1};
    int R = s.chance(1, 2) ? 4 : 40;
    for (int k = 0; k < 4; ++k) {
        S.n.X(di[k], dj[k]) = s.range(-R, R);
        S.n.Y(di[k], dj[k]) = s.range(-R, R);
    }
    Cell q = cellOf(S.n, 0, 0);
    int pos = 0, neg = 0;
    for (int k = 0; k < 4; ++k) {
        int l = (k + 1) % 4, m = (k + 2) % 4;
        double cr = (q.x[l] - q.x[k]) * (q.y[m] - q.y[l]) - (q.y[l] - q.y[k]) * (q.x[m] - q.x[l]);
        pos += cr > 0;
        neg += cr < 0;
    }
    if (pos != 4 && neg != 4)
        discard();
    c.label(pos ? "right-handed" : "left-handed");
    finish(S);
    check(s, c, S);
}

// cells with a corner of 180 degrees, or almost so: the two solutions for the index merge there
static void triangleCase(Src& s, Ctx& c)
{
    int n1, n2;
    if (s.chance(1, 2)) n1 = n2 = 1; else genSize(s, n1, n2, 0);
    Nodes n(n1 + 1, n2 + 1);
    double m[4] = {1, 0, 0, 1}, ox = 0, oy = 0, sc = 1;
    bool exact = s.chance(1, 3);
    if (exact) {
        do
            for (double& v : m) v = 8 * s.range(-3, 3);
        while (m[0] * m[3] == m[1] * m[2] && (m[0] = m[3] = 8, m[1] = m[2] = 0, 0));
        ox = s.range(-20, 20);
        oy = s.range(-20, 20);
    } else {
        double a = s.real(0, 6.2831853), b = a + s.real(0.5, 2.6) * (s.chance(1, 2) ? 1 : -1), r = s.real(0.5, 2);
        m[0] = cos(a); m[2] = sin(a); m[1] = r * cos(b); m[3] = r * sin(b);
        sc = pow(10, s.range(-4, 4));
        for (double& v : m) v *= sc;
        ox = sc * s.real(-1000, 1000) * s.draw(2);
        oy = sc * s.real(-1000, 1000) * s.draw(2);
    }
    int oi = s.draw(2), oj = s.draw(2);
    struct Moved { int i, j; };
    std::vector<Moved> moved;
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i) {
            double x = i, y = j;
            if (i % 2 == oi && j % 2 == oj && (moved.empty() || s.chance(2, 3))) {
                // onto the diagonal of one of the cells, or almost so
                int di = i == 0 ? 1 : i == n1 ? -1 : s.chance(1, 2) ? 1 : -1, dj = j == 0 ? 1 : j == n2 ? -1 : s.chance(1, 2) ? 1 : -1;
                double t = exact ? s.range(1, 3) / 4.0 : s.real(0.1, 0.9), d = s.chance(1, 2) ? 0 : exact ? s.range(0, 1) / 8.0 : pow(10, -s.range(2, 16));
                if (exact && d > 0 && t != 0.5) d = 0.125;
                x += di * (t - d);
                y += dj * (1 - t - d);
                moved.push_back({i, j});
            }
            n.X(i, j) = m[0] * x + m[1] * y + ox;
            n.Y(i, j) = m[2] * x + m[3] * y + oy;
        }
    if (moved.empty()) discard();
    Subject S;
    if (n1 + n2 > 2 && s.chance(1, 3)) applyMask(n, genDiskMask(s, c, n1 + 1, n2 + 1, false));
    S.n = modelValidateCO(n);
    finish(S);
    if (S.cells.empty()) discard();
    CNodes A(S.n);
    c.desc << (S.disk ? "both maps of\n" : "kd-tree map of\n") << brief(S.n);
    gridmap* gm[2] = {gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_KDTREE), S.disk ? gridmap_build(n1, n2, A.gx, A.gy, GRIDMAP_TYPE_BINARY) : nullptr};
    for (int q = s.range(1, 8); q > 0; --q) {
        double x, y;
        long double lx, ly;
        int kind = s.weighted({3, 3, 4});
        auto ij = S.cells[s.draw(S.cells.size())];
        Cell cl = cellOf(S.n, ij.first, ij.second);
        if (kind == 0) {        // at the corner
            auto& w = moved[s.draw(moved.size())];
            x = S.n.X(w.i, w.j); y = S.n.Y(w.i, w.j);
            if (std::isnan(x)) continue;
        } else {
            double u = s.draw(17) / 16.0, v = s.unit();
            if (kind == 1) {    // close to a corner
                u = fabs((double) s.draw(2) - pow(10, -s.range(1, 15)));
                v = fabs((double) s.draw(2) - pow(10, -s.range(1, 15)));
            }
            bilin(cl, u, v, lx, ly);
            x = lx; y = ly;
        }
        c.desc << strf("point (%.17g, %.17g)\n", x, y);
        for (int t = 0; t < 2; ++t) {
            if (!gm[t]) continue;
            const char* nm = t ? "binary tree map" : "kd-tree map";
            int ci, cj;
            double gi, gj, x2, y2;
            if (!gridmap_xy2ij(gm[t], x, y, &ci, &cj)) continue;       // (rounding at the outline: see C06, C08)
            CHECK(gridmap_xy2fij(gm[t], x, y, &gi, &gj), "%s: point (%.17g, %.17g) is in cell (%d,%d) but has no index", nm, x, y, ci, cj);
            CHECK(gi >= ci && gi <= ci + 1 && gj >= cj && gj <= cj + 1, "%s: point (%.17g, %.17g) is in cell (%d,%d) but has index (%.17g, %.17g)", nm, x, y, ci, cj, gi, gj);
            CHECK(gridmap_fij2xy(gm[t], gi, gj, &x2, &y2), "%s: forward mapping of (%.17g, %.17g) failed", nm, gi, gj);
            // an error of the index near the corner is the square root of that of the coordinates
            double h = maxSide(cellOf(S.n, ci, cj)), tol = h * (4e-8 + 32 * sqrt(DBL_EPSILON * (1 + S.M / h)));
            CHECK(hypot(x2 - x, y2 - y) <= tol, "%s: point (%.17g, %.17g) -> index (%.17g, %.17g) -> point (%.17g, %.17g) (tolerance %g)", nm, x, y, gi, gj, x2, y2, tol);
            c.nontrivial = true;
            c.label(kind == 0 ? "at-flat-corner" : kind == 1 ? "near-corner" : "in-cell");
        }
    }
    gridmap_destroy(gm[0]);
    if (gm[1]) gridmap_destroy(gm[1]);
}

static void cliCase(Src& s, Ctx& c)
{
    Subject S;
    GeomOpts o;
    int n1, n2;
    genSize(s, n1, n2, 0);
    Geom g;
    S.n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
    applyMask(S.n, genDiskMask(s, c, n1 + 1, n2 + 1, true));
    S.n = rounded15(S.n);
    finish(S);
    std::string f = writeFile("g.txt", gridText(S.n)), in;
    std::vector<std::pair<double, double>> want;
    std::vector<double> tol;
    for (int k = s.range(1, 10); k > 0; --k) {
        auto ij = S.cells[s.draw(S.cells.size())];
        double u = s.real(0.01, 0.99), v = s.real(0.01, 0.99), t;
        if (tolXY(cellOf(S.n, ij.first, ij.second), S.M, t) > 1e-3 * minSide(cellOf(S.n, ij.first, ij.second)))
            continue;
        want.push_back({ij.first + u, ij.second + v});
        tol.push_back(t + 1e-14 * S.M / minStretch(cellOf(S.n, ij.first, ij.second)) * 10);
        in += strf("%.17g %.17g\n", ij.first + u, ij.second + v);
    }
    bool kd = s.chance(1, 2);
    c.desc << "xy2ij -r | xy2ij " << (kd ? "-k" : "") << "\n" << brief(S.n) << "index:\n" << in;
    c.nontrivial = !want.empty() && S.cells.size() > 1;
    std::vector<std::string> av = {tool("xy2ij", s.chance(1, 8)), "-g", f, "-i", "co", "-o", "-"};
    if (kd) av.push_back("-k");
    std::vector<std::string> av2 = av;
    av2.push_back("-r");
    RunResult r1 = runSafe(av2, in);
    CHECK(r1.ok(), "xy2ij -r: exit code %d: %s", r1.code, r1.err.c_str());
    RunResult r2 = runSafe(av, r1.out);
    CHECK(r2.ok(), "xy2ij: exit code %d: %s", r2.code, r2.err.c_str());
    std::vector<std::string> L = lines(r2.out);
    CHECK(L.size() == want.size(), "%zu lines of output for %zu lines of input", L.size(), want.size());
    for (size_t k = 0; k < want.size(); ++k) {
        double a, b;
        CHECK(sscanf(L[k].c_str(), "%lf %lf", &a, &b) == 2, "line \"%s\"", L[k].c_str());
        CHECK(fabs(a - want[k].first) <= tol[k] && fabs(b - want[k].second) <= tol[k], "index (%.17g, %.17g) converted there and back is (%.17g, %.17g) (tolerance %g)", want[k].first, want[k].second, a, b, tol[k]);
    }
}
static void hugeCase(Src& s, Ctx& c) { hugeQueries(s, c, s.range(0, 1), 1); }

Property THE_PROPERTY = {"C07", "at least one of the points is in a cell that is clearly not a parallelogram (program: several cells)",
    {{"any-grid", anyCase, 30000, 900000}, {"trapezia", trapeziumCase, 20000, 500000}, {"one-cell", cellCase, 40000, 900000}, {"flat-corners", triangleCase, 10000, 300000}, {"program", cliCase, 2000, 40000}, {"huge-known-indices", hugeCase, 14, 700, 1}, {"huge-any-grid", anyCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}},
    {"cells are convex", "the tolerance is 4e-8 of a cell (indices are kept 1e-8 below the next integer) plus rounding amplified by the conditioning of the cell; cells conditioned so badly that this exceeds 0.001 of their side are skipped"}};
