// Exhaustive location of points in a grid: the oracle for the inverse mappings.
#pragma once
#include <array>
#include "gen.h"

static inline long double segdist(long double px, long double py, long double ax, long double ay, long double bx, long double by)
{
    long double ex = bx - ax, ey = by - ay, l2 = ex * ex + ey * ey;
    long double t = l2 > 0 ? ((px - ax) * ex + (py - ay) * ey) / l2 : 0;
    t = std::min(1.0L, std::max(0.0L, t));
    return hypotl(px - ax - t * ex, py - ay - t * ey);
}

struct Locator {
    struct Box { int i, j; Cell c; double x0, x1, y0, y1; };
    struct Seg { double ax, ay, bx, by; };
    std::vector<Box> cells;
    std::vector<Seg> outer;     // sides of exactly one valid cell
    const Nodes& n;
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    Locator(const Nodes& nn) : n(nn)
    {
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i) {
                if (n.cell(i, j)) {
                    Box b;
                    b.i = i; b.j = j;
                    b.c = cellOf(n, i, j);
                    b.x0 = *std::min_element(b.c.x, b.c.x + 4); b.x1 = *std::max_element(b.c.x, b.c.x + 4);
                    b.y0 = *std::min_element(b.c.y, b.c.y + 4); b.y1 = *std::max_element(b.c.y, b.c.y + 4);
                    cells.push_back(b);
                    x0 = std::min(x0, b.x0); x1 = std::max(x1, b.x1);
                    y0 = std::min(y0, b.y0); y1 = std::max(y1, b.y1);
                }
                bool d = n.cell(i, j);
                if (i + 1 < n.nx && d != n.cell(i, j - 1))
                    outer.push_back({n.X(i, j), n.Y(i, j), n.X(i + 1, j), n.Y(i + 1, j)});
                if (j + 1 < n.ny && d != n.cell(i - 1, j))
                    outer.push_back({n.X(i, j), n.Y(i, j), n.X(i, j + 1), n.Y(i, j + 1)});
            }
    }
    // takes sides that coincide with another one (seams) off the outline
    std::vector<Seg> join()
    {
        typedef std::array<double, 4> Key;
        std::map<Key, int> k;
        auto key = [](const Seg& e) {
            return std::make_pair(e.ax, e.ay) < std::make_pair(e.bx, e.by) ? Key{e.ax, e.ay, e.bx, e.by} : Key{e.bx, e.by, e.ax, e.ay};
        };
        for (auto& e : outer) k[key(e)]++;
        std::vector<Seg> out, seams;
        for (auto& e : outer) (k[key(e)] > 1 ? seams : out).push_back(e);
        outer = out;
        return seams;
    }
    // cells that contain the point to within eps
    std::vector<std::pair<int, int>> containing(double x, double y, double eps) const
    {
        std::vector<std::pair<int, int>> r;
        for (auto& b : cells)
            if (x >= b.x0 - eps && x <= b.x1 + eps && y >= b.y0 - eps && y <= b.y1 + eps && depth(b.c, x, y) >= -eps)
                r.push_back({b.i, b.j});
        return r;
    }
    long double outerDist(double x, double y) const
    {
        long double d = 1e300L;
        for (auto& s : outer)
            d = std::min(d, segdist(x, y, s.ax, s.ay, s.bx, s.by));
        return d;
    }
    double extent() const { return std::max(x1 - x0, y1 - y0); }
};

// a query point of one of several kinds
static inline void genPoint(Src& s, const Locator& L, double h, double& x, double& y, const char** kind)
{
    const Nodes& n = L.n;
    auto& b = L.cells[s.draw(L.cells.size())];
    long double lx, ly;
    switch (s.weighted({6, 3, 2, 3, 2, 2, 1})) {
    case 0:
        bilin(b.c, s.draw(1001) / 1000.0, s.draw(1001) / 1000.0, lx, ly);
        x = lx; y = ly;
        *kind = "in-cell";
        break;
    case 1: {
        double u = s.draw(33) / 32.0, v = s.draw(2);
        if (s.chance(1, 2))
            std::swap(u, v);
        bilin(b.c, u, v, lx, ly);
        x = lx; y = ly;
        *kind = "on-edge";
        break;
    }
    case 2: {
        int k = s.range(0, 3);
        x = b.c.x[k]; y = b.c.y[k];
        *kind = "node";
        break;
    }
    case 3: {                   // next to an outer edge
        if (L.outer.empty())
            discard();
        auto& e = L.outer[s.draw(L.outer.size())];
        double t = s.real(-0.1, 1.1), d = h * pow(10.0, -s.range(0, 6)) * (s.chance(1, 2) ? 1 : -1);
        double len = hypot(e.bx - e.ax, e.by - e.ay);
        x = e.ax + t * (e.bx - e.ax) - d * (e.by - e.ay) / len;
        y = e.ay + t * (e.by - e.ay) + d * (e.bx - e.ax) / len;
        *kind = "next-to-outline";
        break;
    }
    case 4: {                   // level with nodes
        int k = s.range(0, 3);
        double r = s.real(-0.2, 1.2);
        if (s.chance(1, 2)) {
            y = b.c.y[k];
            x = L.x0 + r * (L.x1 - L.x0);
        } else {
            x = b.c.x[k];
            y = L.y0 + r * (L.y1 - L.y0);
        }
        *kind = "level-with-node";
        break;
    }
    case 5:
        x = L.x0 + s.real(-0.3, 1.3) * (L.x1 - L.x0);
        y = L.y0 + s.real(-0.3, 1.3) * (L.y1 - L.y0);
        *kind = "bounding-box";
        break;
    default: {
        static const double far[] = {10, 1e3, 1e6, 1e12};
        int k = s.range(0, 5);
        if (k == 4) {
            x = s.chance(1, 2) ? INFINITY : -INFINITY;
            y = b.c.y[0];
            if (s.chance(1, 2))
                std::swap(x, y);
        } else if (k == 5) {
            x = s.chance(1, 2) ? QNAN : b.c.x[0];
            y = QNAN;
        } else {
            double a = s.real(0, 6.283);
            x = b.c.x[0] + cos(a) * far[k] * L.extent();
            y = b.c.y[0] + sin(a) * far[k] * L.extent();
        }
        *kind = "far";
    }
    }
    (void) n;
}

// coordinates with which the tests on a point being in a polygon involve no rounding
static inline bool isdyadic(double v) { return fabs(v) < 65536.0 && v * 1024.0 == rint(v * 1024.0); }
static inline bool exactCoords(const Nodes& n)
{
    for (size_t k = 0; k < n.n(); ++k)
        if (!std::isnan(n.x[k]) && (!(fabs(n.x[k]) < 65536.0 && n.x[k] == rint(n.x[k])) || !(fabs(n.y[k]) < 65536.0 && n.y[k] == rint(n.y[k]))))
            return false;
    return true;
}

// judges the answer of a cell query; returns the class of the point: 1 inside, -1 outside, 0 at the outline
// (exact: the nodes have integer coordinates; then points with dyadic coordinates are judged without tolerance)
static inline int judgeCell(const Locator& L, double x, double y, int r, int i, int j, double eps, double tolOuter, bool exact = false)
{
    if (exact && isdyadic(x) && isdyadic(y)) {
        auto v = L.containing(x, y, 0);
        if (r) {
            CHECK(L.n.cell(i, j), "point (%.17g, %.17g) is mapped to (%d,%d), which is not a valid cell", x, y, i, j);
            CHECK(depth(cellOf(L.n, i, j), x, y) >= 0, "point (%.17g, %.17g) is mapped to cell (%d,%d), which does not contain it", x, y, i, j);
        } else
            CHECK(v.empty(), "point (%.17g, %.17g) in (or on the side of) cell (%d,%d) is not found", x, y, v[0].first, v[0].second);
        return v.empty() ? -1 : L.outerDist(x, y) > 0 ? 1 : 0;
    }
    if (!std::isfinite(x) || !std::isfinite(y)) {
        CHECK(!r, "point (%g, %g) is mapped to cell (%d,%d)", x, y, i, j);
        return -1;
    }
    eps = std::max(eps, 64 * DBL_EPSILON * std::max(fabs(x), fabs(y)));
    if (r) {
        CHECK(L.n.cell(i, j), "point (%.17g, %.17g) is mapped to (%d,%d), which is not a valid cell", x, y, i, j);
        long double d = depth(cellOf(L.n, i, j), x, y);
        CHECK(d >= -eps, "point (%.17g, %.17g) is mapped to cell (%d,%d), which does not contain it (it is outside by %Lg)", x, y, i, j, -d);
    }
    if (L.outerDist(x, y) <= tolOuter)
        return 0;
    auto v = L.containing(x, y, eps);
    if (v.empty())
        CHECK(!r, "point (%.17g, %.17g) outside the grid is mapped to cell (%d,%d)", x, y, i, j);
    else
        CHECK(r, "point (%.17g, %.17g) in cell (%d,%d) is not found", x, y, v[0].first, v[0].second);
    return v.empty() ? -1 : 1;
}

// tolerances for the mapping to fractional indices of a point in a cell: of the point; of the index
static inline double tolXY(const Cell& q, double M, double& tolIJ)
{
    double k = maxSide(q) / minStretch(q);
    double t = 4e-8 * maxSide(q) + 64 * DBL_EPSILON * M * k * k;
    tolIJ = 4e-8 + 64 * DBL_EPSILON * M * k * k / minStretch(q);
    return t;
}

// a map of either kind, used through gridmap or directly
struct AnyMap {
    int type;
    gridmap* g = nullptr;
    gridbmap* b = nullptr;
    gridkmap* k = nullptr;
    AnyMap(const Nodes& n, CNodes& a, int type_, bool direct) : type(type_)
    {
        int n1 = n.nx - 1, n2 = n.ny - 1, m1, m2;
        bool ptr = true;
        if (!direct) {
            g = gridmap_build(n1, n2, a.gx, a.gy, type);
            m1 = gridmap_getnce1(g);
            m2 = gridmap_getnce2(g);
        } else if (type == GRIDMAP_TYPE_BINARY) {
            b = gridbmap_build(n1, n2, a.gx, a.gy);
            m1 = gridbmap_getnce1(b);
            m2 = gridbmap_getnce2(b);
            ptr = gridbmap_getxnodes(b) == a.gx && gridbmap_getynodes(b) == a.gy;
        } else {
            k = gridkmap_build(n1, n2, a.gx, a.gy);
            m1 = gridkmap_getnce1(k);
            m2 = gridkmap_getnce2(k);
            ptr = gridkmap_getxnodes(k) == a.gx && gridkmap_getynodes(k) == a.gy;
        }
        CHECK(m1 == n1 && m2 == n2, "the size of the map is %d x %d instead of %d x %d", m1, m2, n1, n2);
        CHECK(ptr, "the map does not refer to the nodes given");
    }
    int xy2ij(double x, double y, int* i, int* j)
    {
        if (g || !std::isfinite(x + y)) return g ? gridmap_xy2ij(g, x, y, i, j) : 0;
        return b ? gridbmap_xy2ij(b, x, y, i, j) : gridkmap_xy2ij(k, x, y, i, j);
    }
    // the rectangle around the valid cells
    void checkExtent(const Locator& L)
    {
        if (!b || L.cells.empty()) return;
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300, e[4];
        for (auto& q : L.cells) { x0 = std::min(x0, q.x0); x1 = std::max(x1, q.x1); y0 = std::min(y0, q.y0); y1 = std::max(y1, q.y1); }
        gridbmap_getextent(b, e, e + 1, e + 2, e + 3);
        double d = 0;
        CHECK(fabs(e[0] - x0) <= d && fabs(e[1] - x1) <= d && fabs(e[2] - y0) <= d && fabs(e[3] - y1) <= d, "the extent of the grid is given as (%.17g, %.17g, %.17g, %.17g) instead of (%.17g, %.17g, %.17g, %.17g)", e[0], e[1], e[2], e[3], x0, x1, y0, y1);
    }
    ~AnyMap()
    {
        if (g) gridmap_destroy(g);
        if (b) gridbmap_destroy(b);
        if (k) gridkmap_destroy(k);
    }
    AnyMap(const AnyMap&) = delete;
};
