// C08: physical to index mapping by the kd-tree
#include "huge.h"
#include "seams.h"

static Grid anyGrid(Src& s, Ctx& c, int big)
{
    GeomOpts o;
    o.exact = s.chance(1, 3);
    o.minscale = 1e-5;
    Grid G;
    int n1, n2, mode = s.weighted({2, 4, 3, 4});
    if (mode == 3) {
        G.n = genPatchwork(s, c, G.g, big > 20 ? 60 : 16);
        n1 = G.n.nx - 1;
        n2 = G.n.ny - 1;
        if (s.chance(1, 4))
            for (int k = s.range(1, 3); k > 0; --k) G.n.kill(s.range(0, n1), s.range(0, n2));
    } else {
        genSize(s, n1, n2, big);
        G.n = genGeometry(s, c, n1 + 1, n2 + 1, o, G.g);
    }
    if (mode == 1) {
        int p = s.range(1, 8);
        for (size_t k = 0; k < G.n.n(); ++k)
            if (s.draw(24) < (uint64_t) p)
                G.n.x[k] = G.n.y[k] = QNAN;
    } else if (mode == 2)
        for (int k = s.range(1, 6); k > 0; --k) {
            int i0 = s.range(0, n1), j0 = s.range(0, n2), w = s.range(1, 1 + n1 / 3), h = s.range(1, 1 + n2 / 3);
            for (int j = j0; j < std::min(n2 + 1, j0 + h); ++j)
                for (int i = i0; i < std::min(n1 + 1, i0 + w); ++i)
                    G.n.kill(i, j);
        }
    G.n = modelValidateCO(G.n);
    G.t = topology(maskOf(G.n), n1 + 1, n2 + 1);
    G.g.M = maxAbs(G.n);
    double sum = 0;
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            if (G.n.cell(i, j)) {
                G.cells.push_back({i, j});
                sum += minSide(cellOf(G.n, i, j));
            }
    G.g.h = G.cells.empty() ? 1 : sum / G.cells.size();
    c.label(G.t.ncomp > 1, "several-parts");
    c.label(G.t.pinch > 0, "pinch");
    c.label(G.t.ncomp - G.t.euler > 0, "holes");
    c.label(G.n.n() > 1024, "more-than-1024-nodes");
    return G;
}

static void mapCase(Src& s, Ctx& c, int big, int nq)
{
    Grid G = anyGrid(s, c, big);
    CNodes A(G.n);
    c.desc << "kd-tree map of\n" << brief(G.n);
    AnyMap gm(G.n, A, GRIDMAP_TYPE_KDTREE, s.chance(1, 4));
    Locator L(G.n);
    double eps = 64 * DBL_EPSILON * G.g.M;
    int nin = 0;
    bool ex = exactCoords(G.n);
    if (G.cells.empty()) {
        int i, j;
        double x = s.real(-2, 2), y = s.real(-2, 2);
        CHECK(!gm.xy2ij(x, y, &i, &j), "a point is found in a grid with no cells");
        c.label("no-cells");
    } else
        for (int q = 0; q < nq; ++q) {
            double x, y;
            const char* kind;
            int i = -777, j = -777;
            genPoint(s, L, G.g.h, x, y, &kind);
            c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
            int r = gm.xy2ij(x, y, &i, &j);
            int k = judgeCell(L, x, y, r, i, j, eps, eps, ex);
            if (!strcmp(kind, "node"))
                CHECK(r, "node (%.17g, %.17g) of a valid cell is not found", x, y);
            nin += k > 0;
            c.label(kind);
            c.label(k > 0 ? "inside" : k < 0 ? "outside" : "at-outline");
        }
    c.nontrivial = G.cells.size() > 1 && nin > 0;
}
static void smallCase(Src& s, Ctx& c) { mapCase(s, c, 20, s.range(1, 24)); }
static void bigCase(Src& s, Ctx& c) { mapCase(s, c, thorough() ? 150 : 60, 60); }

// a large cell (a general quadrilateral, often almost a triangle) with strips of
// small cells along its sides: the nearest nodes are not those of the cell
static void largeCase(Src& s, Ctx& c)
{
    double px[4], py[4], t = s.chance(1, 2) ? s.real(0.9, 0.999) : s.real(0, 0.9);
    int shape = s.range(0, 2);
    for (int k = 0; k < 3; ++k) {
        double a = 2.0943951 * k + (shape ? s.real(-0.4, 0.4) : s.real(-0.05, 0.05));
        px[k] = cos(a);
        py[k] = sin(a);
    }
    // the fourth corner is next to the second: on the side from the third
    px[3] = px[2] + t * (px[0] - px[2]) * 1.0;
    py[3] = py[2] + t * (py[0] - py[2]) * 1.0;
    double push = (shape == 2 ? 0.2 : 0.01) * t * (1 - t), wx = 0.5 * (px[2] + px[0]), wy = 0.5 * (py[2] + py[0]);
    px[3] += push * wx;
    py[3] += push * wy;
    double sc = pow(10, s.range(-3, 4)), ox = sc * s.range(-20, 20), oy = sc * s.range(-20, 20);
    int nf = s.range(2, 12), nx = std::max(2, nf), nparts = 0;
    std::vector<int> sides;
    for (int k = 0; k < 3; ++k)
        if (s.chance(2, 3)) sides.push_back(k);
    nparts = 1 + sides.size();
    Grid G;
    G.n = Nodes(nx, 3 * nparts - 1);
    size_t bigAt = s.draw(nparts);
    for (int p = 0, k = 0; p < nparts; ++p) {
        int j0 = 3 * p;
        if ((size_t) p == bigAt) {
            int i0 = s.range(0, nx - 2), r = s.range(0, 3);
            const int di[] = {0, 1, 1, 0}, dj[] = {0, 0, 1, 1};
            for (int q = 0; q < 4; ++q) {
                G.n.X(i0 + di[q], j0 + dj[q]) = ox + sc * px[(q + r) % 4];
                G.n.Y(i0 + di[q], j0 + dj[q]) = oy + sc * py[(q + r) % 4];
            }
            continue;
        }
        int a = sides[k++], b = (a + 1) % 3;
        double th = 1 + 0.4 / nf, d = 1 + 1e-3;  // (a narrow gap)
        for (int i = 0; i < nf; ++i) {
            double f = i / (nf - 1.0), x = px[a] + f * (px[b] - px[a]), y = py[a] + f * (py[b] - py[a]);
            double mx = 0.5 * (px[a] + px[b]), my = 0.5 * (py[a] + py[b]);
            if (a == 2) { x += mx * 0.06; y += my * 0.06; }
            G.n.X(i, j0) = ox + sc * (x + mx * (d - 1)); G.n.Y(i, j0) = oy + sc * (y + my * (d - 1));
            G.n.X(i, j0 + 1) = ox + sc * (x + mx * (th - 1)); G.n.Y(i, j0 + 1) = oy + sc * (y + my * (th - 1));
        }
    }
    CNodes A(G.n);
    c.desc << "kd-tree map of\n" << brief(G.n);
    gridmap* gm = gridmap_build(G.nce1(), G.nce2(), A.gx, A.gy, GRIDMAP_TYPE_KDTREE);
    Locator L(G.n);
    double eps = 64 * DBL_EPSILON * maxAbs(G.n);
    for (int q = s.range(1, 12); q > 0; --q) {
        double x, y;
        const char* kind = "central";
        int i, j;
        if (s.chance(1, 2)) { x = ox + sc * s.real(-0.15, 0.15); y = oy + sc * s.real(-0.15, 0.15); }
        else genPoint(s, L, sc / nf, x, y, &kind);
        c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
        int r = gridmap_xy2ij(gm, x, y, &i, &j);
        if (judgeCell(L, x, y, r, i, j, eps, eps) > 0) c.nontrivial = true;
        c.label(kind);
    }
    gridmap_destroy(gm);
}

// where both maps apply
static void bothCase(Src& s, Ctx& c)
{
    GeomOpts o;
    Grid G = genGrid(s, c, o, 30);
    Locator L(G.n);
    CNodes A(G.n);
    double eps = 64 * DBL_EPSILON * G.g.M, tol = eps + 1e-10 * L.outer.size() * L.extent();
    c.desc << "both maps of\n" << brief(G.n);
    gridmap* gm[2];
    for (int t = 0; t < 2; ++t)
        gm[t] = gridmap_build(G.nce1(), G.nce2(), A.gx, A.gy, t ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    for (int q = s.range(1, 20); q > 0; --q) {
        double x, y;
        const char* kind;
        int i[2], j[2], r[2];
        genPoint(s, L, G.g.h, x, y, &kind);
        c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
        for (int t = 0; t < 2; ++t)
            r[t] = gridmap_xy2ij(gm[t], x, y, &i[t], &j[t]);
        c.label(kind);
        if (r[0] != r[1]) {
            CHECK(L.outerDist(x, y) <= tol, "binary tree map: %s; kd-tree map: %s, for a point away from the outline", r[0] ? "found" : "not found", r[1] ? "found" : "not found");
            continue;
        }
        if (r[0] && (i[0] != i[1] || j[0] != j[1])) {
            c.label("different-cells");
            for (int t = 0; t < 2; ++t)
                CHECK(depth(cellOf(G.n, i[1 - t], j[1 - t]), x, y) >= -eps, "the maps give cells (%d,%d) and (%d,%d), but the point is not at their shared edge", i[0], j[0], i[1], j[1]);
        }
        if (r[0])
            c.nontrivial = G.cells.size() > 1;
    }
    gridmap_destroy(gm[0]);
    gridmap_destroy(gm[1]);
}
static void seamCase(Src& s, Ctx& c)
{
    SeamGrid S = genSeams(s);
    Nodes g = S.n;
    double sc = S.sc;
    bool hole = s.chance(1, 3);
    if (hole)
        for (int h = s.range(1, 4); h > 0; --h) g.kill(s.range(0, g.nx - 1), s.range(0, g.ny - 1));
    Grid G;
    G.n = modelValidateCO(g);
    CNodes A(G.n);
    c.desc << "kd-tree map of a grid with seams:\n" << brief(G.n);
    AnyMap gm(G.n, A, GRIDMAP_TYPE_KDTREE, s.chance(1, 4));
    Locator L(G.n);
    auto seams = L.join();
    double eps = 64 * DBL_EPSILON * maxAbs(G.n);
    int nin = 0, ncell = (int) L.cells.size();
    bool ex = exactCoords(G.n);
    if (!ncell) discard();
    for (int q = s.range(1, 24); q > 0; --q) {
        double x, y;
        const char* kind = "seam";
        int i = -777, j = -777;
        if (s.chance(1, 3) && !seams.empty()) {
            auto& e = seams[s.draw(seams.size())];
            double t = s.draw(17) / 16.0;
            x = e.ax + t * (e.bx - e.ax);
            y = e.ay + t * (e.by - e.ay);
            if (s.chance(1, 2)) (s.chance(1, 2) ? x : y) += sc * pow(10, -s.range(1, 14)) * (s.chance(1, 2) ? 1 : -1);
        } else genPoint(s, L, sc, x, y, &kind);
        c.desc << strf("point (%.17g, %.17g) [%s]\n", x, y, kind);
        int r = gm.xy2ij(x, y, &i, &j);
        int w = judgeCell(L, x, y, r, i, j, eps, eps, ex);
        if (!strcmp(kind, "node")) CHECK(r, "node (%.17g, %.17g) of a valid cell is not found", x, y);
        nin += w > 0;
        c.label(kind);
    }
    c.nontrivial = ncell > 1 && nin > 0 && !seams.empty();
    c.label(S.folded, "folded");
    c.label(ex, "exact");
}
static void hugeCase(Src& s, Ctx& c) { hugeQueries(s, c, GRIDMAP_TYPE_KDTREE, 0); }

Property THE_PROPERTY = {"C08", "the grid has two valid cells or more and at least one of the points is inside the grid",
    {{"any-topology", smallCase, 22000, 700000}, {"large-cell", largeCase, 6000, 200000}, {"big", bigCase, 500, 10000}, {"seams", seamCase, 4000, 150000}, {"both-maps", bothCase, 10000, 300000}, {"huge-any-topology", smallCase, 8, 400, 1}, {"huge-known-cells", hugeCase, 12, 600, 1}, {"huge-both-maps", bothCase, 8, 400, 1}},
    {"cells are convex and do not overlap", "points within rounding of the outline may be accepted or rejected"}};
