// C06: physical to index mapping by the binary tree
#include "huge.h"
#include "seams.h"

static void mapCase(Src& s, Ctx& c, bool exact, int big, int nq)
{
    GeomOpts o;
    o.exact = exact;
    o.minscale = 1e-5;
    Grid G = genGrid(s, c, o, big);
    Locator L(G.n);
    CNodes A(G.n);
    double eps = 64 * DBL_EPSILON * G.g.M;
    // compaction of the outline: each removed vertex is within 1e-10 of the direction
    double tol = eps + 1e-10 * L.outer.size() * L.extent();
    c.desc << "binary tree map of\n" << brief(G.n);
    AnyMap gm(G.n, A, GRIDMAP_TYPE_BINARY, s.chance(1, 4));
    gm.checkExtent(L);
    int nin = 0, nout = 0;
    bool ex = exactCoords(G.n);
    for (int q = 0; q < nq; ++q) {
        double x, y;
        const char* kind;
        int i = -777, j = -777;
        genPoint(s, L, G.g.h, x, y, &kind);
        c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
        int r = gm.xy2ij(x, y, &i, &j);
        int k = judgeCell(L, x, y, r, i, j, eps, tol, ex);
        nin += k > 0;
        nout += k < 0;
        c.label(kind);
        c.label(k > 0 ? "inside" : k < 0 ? "outside" : "at-outline");
    }
    c.nontrivial = G.cells.size() > 1 && nin > 0;
    c.label(G.cells.size() == 1, "one-cell");
}
// folded grids: some nodes of the outline coincide, but the grid is simply
// connected both in physical and in index space
static void foldedCase(Src& s, Ctx& c)
{
    SeamGrid S = genSeams(s);
    Grid G;
    G.n = S.n;
    int nx = G.n.nx, ny = G.n.ny;
    if (s.chance(2, 3)) {
        std::vector<char> m = genDiskMask(s, c, nx, ny, s.chance(1, 2));
        applyMask(G.n, m);
    }
    G.n = modelValidateCO(G.n);
    // the physical topology: nodes with the same coordinates are one
    std::set<std::pair<double, double>> V;
    std::set<std::array<double, 4>> E;
    int F = 0;
    for (int j = 0; j + 1 < ny; ++j)
        for (int i = 0; i + 1 < nx; ++i)
            if (G.n.cell(i, j)) {
                Cell k = cellOf(G.n, i, j);
                F++;
                for (int a = 0; a < 4; ++a) {
                    int b = (a + 1) % 4;
                    std::pair<double, double> p(k.x[a], k.y[a]), q(k.x[b], k.y[b]);
                    if (q < p) std::swap(p, q);
                    V.insert(p);
                    V.insert(q);
                    E.insert({p.first, p.second, q.first, q.second});
                }
            }
    if (!topology(maskOf(G.n), nx, ny).disk() || (int) V.size() - (int) E.size() + F != 1) discard();
    Locator L(G.n), M(G.n);             // M: seams are a part of the outline (rounding)
    auto seams = L.join();
    // (parts of the outline touching in a node are not looked for)
    std::map<std::pair<double, double>, int> deg;
    for (auto& e : L.outer) deg[{e.ax, e.ay}]++, deg[{e.bx, e.by}]++;
    for (auto& d : deg) if (d.second > 2) discard();
    CNodes A(G.n);
    G.g.M = maxAbs(G.n);
    double eps = 64 * DBL_EPSILON * G.g.M, tol = eps + 1e-10 * M.outer.size() * L.extent();
    c.desc << "binary tree map of\n" << brief(G.n);
    AnyMap gm(G.n, A, GRIDMAP_TYPE_BINARY, s.chance(1, 4));
    gm.checkExtent(L);
    int nin = 0;
    bool ex = exactCoords(G.n);
    for (int q = s.range(1, 24); q > 0; --q) {
        double x, y;
        const char* kind = "seam";
        int i = -777, j = -777;
        if (s.chance(1, 4) && !seams.empty()) {
            auto& e = seams[s.draw(seams.size())];
            double t = s.draw(17) / 16.0;
            x = e.ax + t * (e.bx - e.ax);
            y = e.ay + t * (e.by - e.ay);
        } else genPoint(s, L, S.sc, x, y, &kind);
        c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
        int r = gm.xy2ij(x, y, &i, &j);
        int k = judgeCell(M, x, y, r, i, j, eps, tol, ex);
        nin += k > 0;
        c.label(kind);
    }
    c.label(!seams.empty(), "seams");
    c.nontrivial = F > 1 && nin > 0 && !seams.empty();
}
static void emptyCase(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    Nodes n(n1 + 1, n2 + 1);
    CNodes A(n);
    c.desc << strf("binary tree map of %d x %d cells, none valid\n", n1, n2);
    AnyMap gm(n, A, GRIDMAP_TYPE_BINARY, s.chance(1, 2));
    for (int k = s.range(1, 4); k > 0; --k) {
        int i, j;
        double x = s.chance(1, 2) ? s.range(-1, 1) : s.real(-1e9, 1e9), y = s.chance(1, 2) ? s.range(-1, 1) : s.real(-1e9, 1e9);
        CHECK(!gm.xy2ij(x, y, &i, &j), "point (%.17g, %.17g) is found in a grid with no cells", x, y);
    }
    c.nontrivial = true;
}
static void exactCase(Src& s, Ctx& c) { mapCase(s, c, true, 12, s.range(1, 24)); }
static void realCase(Src& s, Ctx& c) { mapCase(s, c, false, 30, s.range(1, 24)); }
static void bigCase(Src& s, Ctx& c) { mapCase(s, c, s.chance(1, 4), thorough() ? 150 : 70, 60); }
static void hugeCase(Src& s, Ctx& c) { hugeQueries(s, c, GRIDMAP_TYPE_BINARY, 0); }

Property THE_PROPERTY = {"C06", "the grid has two valid cells or more and at least one of the points is inside the grid, away from its outline",
    {{"integer", exactCase, 14000, 400000}, {"real", realCase, 20000, 600000}, {"big", bigCase, 500, 12000}, {"no-cells", emptyCase, 200, 2000}, {"folded", foldedCase, 4000, 100000}, {"huge-integer", exactCase, 8, 400, 1}, {"huge-real", realCase, 8, 400, 1}, {"huge-known-cells", hugeCase, 12, 600, 1}},
    {"cells are convex and do not overlap; the union of valid cells is simply connected without pinch points (the documented domain)",
     "points within rounding of the outline (1e-10 of the extent per outline edge, the tolerance of compaction) may be accepted or rejected"}};
