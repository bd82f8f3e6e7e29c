// C29: results do not depend on how a grid is numbered, mirrored, turned or scaled
#include "locate.h"
#include "model.h"

// renumbers the nodes (reverse i, reverse j, transpose) and moves them in the plane (mirror, swap x and y, scale by a power of 2, shift);
// no rounding is involved
struct Sym {
    bool ri, rj, tr, mx, my, sw;
    int k, nx, ny;
    double sx, sy;
    Sym(Src& s, const Nodes& n, bool exact)
    {
        do {
            ri = s.chance(1, 2); rj = s.chance(1, 2); tr = s.chance(1, 2);
            mx = s.chance(1, 2); my = s.chance(1, 2); sw = s.chance(1, 2);
            k = s.chance(1, 2) ? s.range(-4, 6) : 0;
            sx = sy = 0;
            if (exact && s.chance(1, 2)) { sx = s.range(-999, 999); sy = s.range(-999, 999); if (k < 0) k = 0; }
        } while (0);
        if (!(ri || rj || tr || mx || my || sw || k)) tr = true;
        nx = n.nx; ny = n.ny;
    }
    // indices of an object for which the last valid index is (m1,m2)
    template <class T> void index(T& i, T& j, T m1, T m2) const
    {
        if (ri) i = m1 - i;
        if (rj) j = m2 - j;
        if (tr) std::swap(i, j);
    }
    void point(double& x, double& y) const
    {
        if (mx) x = -x;
        if (my) y = -y;
        if (sw) std::swap(x, y);
        x = ldexp(x, k) + sx; y = ldexp(y, k) + sy;
    }
    Nodes grid(const Nodes& n) const
    {
        Nodes r(tr ? n.ny : n.nx, tr ? n.nx : n.ny);
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i) {
                int a = i, b = j;
                index(a, b, n.nx - 1, n.ny - 1);
                double x = n.X(i, j), y = n.Y(i, j);
                point(x, y);
                r.X(a, b) = x;
                r.Y(a, b) = y;
            }
        return r;
    }
    std::string text() const
    {
        std::string t;
        if (ri) t += "reverse i; ";
        if (rj) t += "reverse j; ";
        if (tr) t += "transpose; ";
        if (mx) t += "x -> -x; ";
        if (my) t += "y -> -y; ";
        if (sw) t += "swap x and y; ";
        return t + strf("scale by 2^%d, shift by (%g, %g)\n", k, sx, sy);
    }
    double scale(double v) const { return ldexp(v, k); }
};

static void mapCase(Src& s, Ctx& c)
{
    GeomOpts o;
    o.exact = s.chance(1, 3);
    Nodes n;
    bool disk;
    if (s.chance(2, 3)) { n = genGrid(s, c, o, 20).n; disk = true; }
    else {
        int n1, n2;
        Geom g;
        genSize(s, n1, n2, 20);
        n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
        killPattern(s, c, n);
        n = modelValidateCO(n);
        disk = topology(maskOf(n), n.nx, n.ny).disk();
    }
    Locator L(n);
    if (L.cells.empty()) discard();
    bool exact = exactCoords(n);
    Sym S(s, n, exact);
    Nodes m = S.grid(n);
    double M = std::max(maxAbs(n), ldexp(maxAbs(m), -S.k));
    c.desc << S.text() << (disk ? "both maps of\n" : "kd-tree map of\n") << brief(n);
    CNodes A(n), B(m);
    gridmap* g[2][2] = {};
    for (int t = 0; t < 1 + disk; ++t) {
        int type = t ? GRIDMAP_TYPE_BINARY : GRIDMAP_TYPE_KDTREE;
        g[t][0] = gridmap_build(n.nx - 1, n.ny - 1, A.gx, A.gy, type);
        g[t][1] = gridmap_build(m.nx - 1, m.ny - 1, B.gx, B.gy, type);
    }
    double h = 0;
    for (auto& b : L.cells) h += minSide(b.c) / L.cells.size();
    int nin = 0;
    for (int q = s.range(1, 14); q > 0; --q) {
        double x, y, X, Y;
        const char* kind = "in-cell";
        bool inner = s.chance(1, 2);
        double side = 0;
        Cell cl;
        if (inner) {
            auto& b = L.cells[s.draw(L.cells.size())];
            long double lx, ly;
            auto inside = [&]() {
                double v = s.real(0.001, 0.999);
                if (s.chance(1, 3)) { v = ldexp(1 + v, -s.range(3, 20)); if (s.chance(1, 2)) v = 1 - v; }       // near a side
                return v;
            };
            double u = inside(), v = inside();
            bilin(cl = b.c, u, v, lx, ly);
            side = std::min(std::min(u, v), std::min(1 - u, 1 - v));
            x = lx; y = ly;
        } else genPoint(s, L, h, x, y, &kind);
        X = x; Y = y;
        S.point(X, Y);
        bool same_ = exact && isdyadic(x) && isdyadic(y) && isdyadic(X) && isdyadic(Y);      // nothing is rounded: on the sides, too
        c.desc << strf("(%.17g, %.17g)\n", x, y);
        for (int t = 0; t < 1 + disk; ++t) {
            const char* nm = t ? "binary tree map" : "kd-tree map";
            int i, j, I, J, r = gridmap_xy2ij(g[t][0], x, y, &i, &j), R = gridmap_xy2ij(g[t][1], X, Y, &I, &J);
            if (!same_ && !inner) {
                if (std::isfinite(x + y) && L.outerDist(x, y) < 1e-7 * h + 1e-13 * M) continue;      // either answer is right
                CHECK(!r == !R, "%s: point (%.17g, %.17g) is %s, but its image is %s", nm, x, y, r ? "found" : "not found", R ? "found" : "not found");
                continue;
            }
            CHECK(!r == !R, "%s: point (%.17g, %.17g) is %s, but its image is %s", nm, x, y, r ? "found" : "not found", R ? "found" : "not found");
            if (!inner) continue;
            double tij, txy = tolXY(cl, M, tij);
            if (txy > 1e-4 * minSide(cl) || tij > 1e-4 || tij > 0.3 * side) { c.label("ill-conditioned"); continue; }
            CHECK(r, "%s: point (%.17g, %.17g) is not found", nm, x, y);
            int a = i, b = j;
            S.index(a, b, n.nx - 2, n.ny - 2);
            CHECK(I == a && J == b, "%s: point (%.17g, %.17g) is in cell (%d,%d), its image is in cell (%d,%d) rather than (%d,%d)", nm, x, y, i, j, I, J, a, b);
            double fi, fj, FI, FJ;
            CHECK(gridmap_xy2fij(g[t][0], x, y, &fi, &fj) && gridmap_xy2fij(g[t][1], X, Y, &FI, &FJ), "%s: point (%.17g, %.17g) is in a cell but has no indices", nm, x, y);
            double wi = fi, wj = fj;
            S.index(wi, wj, (double) n.nx - 1, (double) n.ny - 1);
            CHECK(fabs(FI - wi) <= 2 * tij && fabs(FJ - wj) <= 2 * tij, "%s: point (%.17g, %.17g) has index (%.17g, %.17g), its image has (%.17g, %.17g) rather than (%.17g, %.17g) (tolerance %g)", nm, x, y, fi, fj, FI, FJ, wi, wj, 2 * tij);
            nin++;
        }
        // forward: any index, in the range or not
        double fi = s.chance(1, 3) ? s.range(-1, n.nx) : s.real(-0.5, n.nx - 0.5), fj = s.chance(1, 3) ? s.range(-1, n.ny) : s.real(-0.5, n.ny - 0.5), FI = fi, FJ = fj, x1, y1, x2, y2;
        S.index(FI, FJ, (double) n.nx - 1, (double) n.ny - 1);
        // reversing the direction rounds the index: keep to those that are not moved across a node
        double bi = FI, bj = FJ;
        if (S.tr) std::swap(bi, bj);
        if (S.ri) bi = n.nx - 1 - bi;
        if (S.rj) bj = n.ny - 1 - bj;
        if (bi != fi || bj != fj) continue;
        int t = s.draw(1 + disk);
        int r = gridmap_fij2xy(g[t][0], fi, fj, &x1, &y1), R = gridmap_fij2xy(g[t][1], FI, FJ, &x2, &y2);
        S.point(x1, y1);
        double tol = 64 * DBL_EPSILON * ldexp(M, S.k);
        CHECK(!r == !R, "index (%.17g, %.17g) gives status %d, its image gives %d", fi, fj, r, R);
        if (!r) {               // the value may be taken a little inside the range
            if (std::isnan(x1) || std::isnan(x2)) continue;
            double ms = 0;
            for (auto& b : L.cells) ms = std::max(ms, maxSide(b.c));
            tol += 4e-8 * ldexp(ms, S.k);
        }
        CHECK(!r == !R && std::isnan(x1) == std::isnan(x2) && std::isnan(y1) == std::isnan(y2) && !(fabs(x1 - x2) > tol) && !(fabs(y1 - y2) > tol), "index (%.17g, %.17g) is mapped (status %d) to a point with image (%.17g, %.17g), its image is mapped (status %d) to (%.17g, %.17g)", fi, fj, r, x1, y1, R, x2, y2);
    }
    for (int t = 0; t < 1 + disk; ++t)
        for (int q = 0; q < 2; ++q) gridmap_destroy(g[t][q]);
    c.nontrivial = nin > 0 && L.cells.size() > 1;
    c.label(disk, "simply-connected");
    c.label(S.tr, "transposed");
    c.label(exact, "exact");
}

static long double area(poly* p)
{
    long double a = 0;
    for (int k = 0; k + 1 < p->n; ++k)
        a += ((long double) p->x[k] - p->x[0]) * ((long double) p->y[k + 1] - p->y[0]) - ((long double) p->x[k + 1] - p->x[0]) * ((long double) p->y[k] - p->y[0]);
    return fabsl(a / 2);
}
// the set of sides
static std::set<std::array<double, 4>> sides(poly* p)
{
    std::set<std::array<double, 4>> r;
    for (int k = 0; k + 1 < p->n; ++k) {
        double a = p->x[k], b = p->y[k], d = p->x[k + 1], e = p->y[k + 1];
        if (a > d || (a == d && b > e)) { std::swap(a, d); std::swap(b, e); }
        r.insert({a, b, d, e});
    }
    return r;
}

static void boundCase(Src& s, Ctx& c)
{
    GeomOpts o;
    o.exact = s.chance(1, 3);
    Grid G = genGrid(s, c, o, 20);
    Nodes& n = G.n;
    Sym S(s, n, exactCoords(n));
    Nodes m = S.grid(n);
    c.desc << S.text() << "boundary of\n" << brief(n, 300);
    CNodes A(n), B(m);
    poly *p = poly_formbound(n.nx - 1, n.ny - 1, A.gx, A.gy), *q = poly_formbound(m.nx - 1, m.ny - 1, B.gx, B.gy);
    CHECK(p->n == q->n, "the boundary has %d points, the image %d", p->n, q->n);
    CHECK(poly_isclosed(p, 0) && poly_isclosed(q, 0), "a boundary is not closed");
    std::set<std::array<double, 4>> a, b = sides(q);
    {
        poly* t = poly_copy(p);
        for (int k = 0; k < t->n; ++k) S.point(t->x[k], t->y[k]);
        a = sides(t);
        long double d = fabsl(area(t) - area(q));
        CHECK(d <= 1e-12L * area(q) + 1e-13L * ldexp(G.g.M, S.k) * (fabs(q->e.xmax - q->e.xmin) + fabs(q->e.ymax - q->e.ymin)), "the areas differ by %Lg", d);
        poly_destroy(t);
    }
    for (auto& e : a) CHECK(b.count(e), "side (%.17g, %.17g)-(%.17g, %.17g) is not in the boundary of the image", e[0], e[1], e[2], e[3]);
    CHECK(a.size() == b.size(), "%zu sides and %zu sides", a.size(), b.size());
    // compacting keeps the corners
    poly *P = poly_copy(p), *Q = poly_copy(q);
    poly_compact(P, 1e-10);
    poly_compact(Q, ldexp(1e-10, S.k));
    if (exactCoords(n) && p->n > 6) {
        std::set<std::pair<double, double>> u, v;
        for (int k = 0; k < P->n; ++k) { double x = P->x[k], y = P->y[k]; S.point(x, y); u.insert({x, y}); }
        for (int k = 0; k < Q->n; ++k) v.insert({Q->x[k], Q->y[k]});
        // the first point stays whether it is a corner or not
        double fx = P->x[0], fy = P->y[0];
        S.point(fx, fy);
        std::pair<double, double> f1(fx, fy), f2(Q->x[0], Q->y[0]);
        for (auto& e : u) CHECK(v.count(e) || e == f1, "corner (%.17g, %.17g) is missing from the compacted boundary of the image", e.first, e.second);
        for (auto& e : v) CHECK(u.count(e) || e == f2, "corner (%.17g, %.17g) is in the compacted boundary of the image only", e.first, e.second);
    }
    // points in the polygon
    Locator L(n);
    for (int k = s.range(1, 10); k > 0; --k) {
        double x, y, X, Y;
        const char* kind;
        genPoint(s, L, G.g.h, x, y, &kind);
        if (!std::isfinite(x + y)) continue;
        X = x; Y = y;
        S.point(X, Y);
        bool ex = exactCoords(n) && exactCoords(m) && isdyadic(x) && isdyadic(y) && isdyadic(X) && isdyadic(Y);
        if (!ex && L.outerDist(x, y) < 1e-7 * G.g.h + 1e-13 * G.g.M) continue;
        int r = poly_containspoint(p, x, y), R = poly_containspoint(q, X, Y);
        CHECK(!r == !R, "point (%.17g, %.17g) is %s the boundary, but its image is %s", x, y, r ? "within" : "outside", R ? "within" : "outside");
    }
    for (poly* t : {p, q, P, Q}) poly_destroy(t);
    c.nontrivial = G.cells.size() > 1 && G.cells.size() < (size_t) G.nce1() * G.nce2();
}

// centre nodes: which of several equally near blocks is used is not specified, but it makes no difference for an affine grid
static void centerCase(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, s.chance(1, 20) ? 30 : 0);
    double a = s.range(-9, 9), b = s.range(-9, 9), p = s.range(-9, 9), q = s.range(-9, 9), x0 = s.range(-100, 100), y0 = s.range(-100, 100);
    if (a * q - b * p == 0) discard();
    Nodes n(n1, n2);
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i) {
            n.X(i, j) = x0 + a * (2 * i + 1) + b * (2 * j + 1);
            n.Y(i, j) = y0 + p * (2 * i + 1) + q * (2 * j + 1);
        }
    killPattern(s, c, n);
    Sym S(s, n, true);
    Nodes m = S.grid(n);
    c.desc << S.text() << "center\n" << brief(n, 300);
    gridnodes *g = toGridnodes(n, NT_CEN), *h = toGridnodes(m, NT_CEN);
    bool any = false;
    for (NODETYPE to : {NT_COR, NT_DD}) {
        gridnodes *u = gridnodes_transform(g, to), *v = gridnodes_transform(h, to);
        Nodes r = fromGridnodes(u);
        std::string w = diffNodes(fromGridnodes(v), S.grid(r), 64 * DBL_EPSILON * maxAbs(m) + 1e-12 * ldexp(1, S.k));
        CHECK(w == "", "conversion to %s nodes: in the image %s", nodetype2str[to], w.c_str());
        for (double x : r.x) any = any || !std::isnan(x);
        gridnodes_destroy(u);
        gridnodes_destroy(v);
    }
    gridnodes_destroy(g);
    gridnodes_destroy(h);
    c.nontrivial = any;
    c.label("center");
}

static void nodesCase(Src& s, Ctx& c)
{
    if (s.chance(1, 4)) { centerCase(s, c); return; }
    NODETYPE t = s.chance(1, 2) ? NT_DD : NT_COR;
    int n1, n2;
    genSize(s, n1, n2, 0);
    Geom g;
    GeomOpts o;
    o.exact = s.chance(1, 2);
    Nodes n = genGeometry(s, c, t == NT_DD ? 2 * n1 + 1 : n1 + 1, t == NT_DD ? 2 * n2 + 1 : n2 + 1, o, g);
    killPattern(s, c, n);
    Sym S(s, n, exactCoords(n));
    Nodes m = S.grid(n);
    c.desc << S.text() << nodetype2str[t] << "\n" << brief(n, 300);
    gridnodes *a = toGridnodes(n, t), *b = toGridnodes(m, t);
    gridnodes_setmaptype(a, GRIDMAP_TYPE_KDTREE);
    gridnodes_setmaptype(b, GRIDMAP_TYPE_KDTREE);
    auto compare = [&](gridnodes* p, gridnodes* q, double tol, const char* what) {
        std::string w = diffNodes(fromGridnodes(q), S.grid(fromGridnodes(p)), tol);
        CHECK(w == "", "%s: in the image %s", what, w.c_str());
    };
    // a mask
    if (s.chance(1, 3)) {
        int **u = (int**) gu_alloc2d(n2, n1, sizeof(int)), **v = (int**) gu_alloc2d(S.tr ? n1 : n2, S.tr ? n2 : n1, sizeof(int));
        for (int j = 0; j < n2; ++j)
            for (int i = 0; i < n1; ++i) {
                int p = i, q = j;
                S.index(p, q, n1 - 1, n2 - 1);
                u[j][i] = v[q][p] = s.draw(4) > 0;
            }
        if (t == NT_COR) {
            gu_free2d(u);
            gu_free2d(v);
        } else {
            gridnodes_applymask(a, u);
            gridnodes_applymask(b, v);
            gu_free2d(u);
            gu_free2d(v);
            compare(a, b, 0, "masked nodes");
            c.label("mask");
        }
    }
    gridnodes_validate(a);
    gridnodes_validate(b);
    compare(a, b, 0, "validated nodes");
    double tol = 8 * DBL_EPSILON * maxAbs(m);
    bool any = false;
    Nodes v = fromGridnodes(a);
    for (double x : v.x) any = any || !std::isnan(x);
    for (NODETYPE to : {NT_DD, NT_CEN, NT_COR}) {
        gridnodes *p = gridnodes_transform(a, to), *q = gridnodes_transform(b, to);
        compare(p, q, t == NT_COR && to != NT_COR ? tol : 0, strf("conversion to %s nodes", nodetype2str[to]).c_str());
        gridnodes_destroy(p);
        gridnodes_destroy(q);
    }
    gridnodes_destroy(a);
    gridnodes_destroy(b);
    c.nontrivial = any && n1 * n2 > 1;
    c.label(nodetype2str[t]);
}

Property THE_PROPERTY = {"C29", "points in cells of a grid of several cells are mapped (boundary: part of the cells is valid; nodes: some node of several cells is valid)",
    {{"maps", mapCase, 15000, 500000}, {"boundary", boundCase, 15000, 500000}, {"nodes", nodesCase, 25000, 800000}, {"huge-maps", mapCase, 8, 400, 1}, {"huge-boundary", boundCase, 8, 400, 1}, {"huge-nodes", nodesCase, 8, 400, 1}},
    {"cells are convex; cells too ill-conditioned for the fractional indices to be compared are skipped", "except for coordinates that involve no rounding, points closer than 1e-7 of a cell side to the outline may get either answer"}};
