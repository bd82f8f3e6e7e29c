// Generators of grids, and the reference notions used by the oracles. Nothing
// here calls the code under test except for allocation (gu_alloc2d) when an
// array has to be handed over to it.
#pragma once
#include "engine.h"
#include <algorithm>
#include <limits>
#include <set>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cfloat>

extern "C" {
#include <stdio.h>
#include "gucommon.h"
#include "gridnodes.h"
#include "gridmap.h"
#include "gridbmap.h"
#include "gridkmap.h"
#include "kdtree.h"
#include "poly.h"
}

static const double QNAN = std::numeric_limits<double>::quiet_NaN();

// identical as values (NaN equals NaN; zeroes of both signs are equal)
static inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// ------------------------------------------------------------- node arrays
struct Nodes {
    int nx = 0, ny = 0;
    std::vector<double> x, y;
    Nodes() {}
    Nodes(int a, int b) : nx(a), ny(b), x((size_t) a * b, QNAN), y((size_t) a * b, QNAN) {}
    double& X(int i, int j) { return x[(size_t) j * nx + i]; }
    double& Y(int i, int j) { return y[(size_t) j * nx + i]; }
    double X(int i, int j) const { return x[(size_t) j * nx + i]; }
    double Y(int i, int j) const { return y[(size_t) j * nx + i]; }
    bool v(int i, int j) const { return i >= 0 && j >= 0 && i < nx && j < ny && !std::isnan(x[(size_t) j * nx + i]); }
    void kill(int i, int j) { X(i, j) = Y(i, j) = QNAN; }
    // corner nodes: cell (i,j) is valid if its four corners are
    bool cell(int i, int j) const { return v(i, j) && v(i + 1, j) && v(i, j + 1) && v(i + 1, j + 1); }
    size_t n() const { return x.size(); }
};

static inline double** toC(const std::vector<double>& a, int nx, int ny)
{
    double** p = (double**) gu_alloc2d(ny, nx, sizeof(double));
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i)
            p[j][i] = a[(size_t) j * nx + i];
    return p;
}

// node arrays as the library wants them; freed with the object
struct CNodes {
    double **gx, **gy;
    int nx, ny;
    CNodes(const Nodes& n) : gx(toC(n.x, n.nx, n.ny)), gy(toC(n.y, n.nx, n.ny)), nx(n.nx), ny(n.ny) {}
    ~CNodes() { gu_free2d(gx); gu_free2d(gy); }
    CNodes(const CNodes&) = delete;
};

static inline gridnodes* toGridnodes(const Nodes& n, NODETYPE t) { return gridnodes_create2(n.nx, n.ny, t, toC(n.x, n.nx, n.ny), toC(n.y, n.nx, n.ny)); }

static inline Nodes fromGridnodes(gridnodes* gn)
{
    Nodes n(gridnodes_getnx(gn), gridnodes_getny(gn));
    double **gx = gridnodes_getx(gn), **gy = gridnodes_gety(gn);
    for (int j = 0; j < n.ny; ++j)
        for (int i = 0; i < n.nx; ++i) {
            n.X(i, j) = gx[j][i];
            n.Y(i, j) = gy[j][i];
        }
    return n;
}

static inline std::string num(double v)
{
    if (std::isnan(v))
        return "NaN";
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

// text in the format of a grid file, with enough digits to be exact
static inline std::string gridText(const Nodes& n, const char* fmt = "%.17g %.17g\n")
{
    std::string s = strf("## %d x %d\n", n.nx, n.ny);
    char b[100];
    for (size_t k = 0; k < n.n(); ++k)
        if (std::isnan(n.x[k]) || std::isnan(n.y[k]))
            s += "NaN NaN\n";
        else {
            snprintf(b, sizeof b, fmt, n.x[k], n.y[k]);
            s += b;
        }
    return s;
}
static inline std::string brief(const Nodes& n, size_t maxnodes = 150)
{
    if (n.n() <= maxnodes)
        return gridText(n);
    size_t v = 0;
    for (double a : n.x)
        v += !std::isnan(a);
    return strf("## %d x %d (%zu valid nodes)\n", n.nx, n.ny, v);
}

// parses the text of a grid file, strictly: header, nx*ny lines "X Y" (or "NaN NaN"), nothing else
static inline bool parseGrid(const std::string& s, Nodes& n, std::string* why = nullptr)
{
    const char* p = s.c_str();
    int nx, ny, off = 0;
    if (sscanf(p, "## %d x %d%n", &nx, &ny, &off) != 2 || p[off] != '\n') {
        if (why) *why = "bad header: " + s.substr(0, 60);
        return false;
    }
    p += off + 1;
    n = Nodes(nx, ny);
    for (size_t k = 0; k < n.n(); ++k) {
        char* e;
        n.x[k] = strtod(p, &e);
        if (e == p || *e != ' ') { if (why) *why = strf("bad line for node %zu: ", k) + std::string(p).substr(0, 60); return false; }
        p = e + 1;
        n.y[k] = strtod(p, &e);
        if (e == p || *e != '\n') { if (why) *why = strf("bad line for node %zu: ", k) + std::string(p).substr(0, 60); return false; }
        p = e + 1;
    }
    if (*p) { if (why) *why = "trailing text: " + std::string(p).substr(0, 60); return false; }
    return true;
}

static inline std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v;
    size_t a = 0;
    while (a < s.size()) {
        size_t b = s.find('\n', a);
        if (b == std::string::npos)
            b = s.size();
        v.push_back(s.substr(a, b - a));
        a = b + 1;
    }
    return v;
}

// a - b with the format "%.15g" in between
static inline double r15(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.15g", v);
    return strtod(b, nullptr);
}

// ------------------------------------------------------------- topology
// keeps nodes that belong to a valid cell only
static inline void dropLoose(std::vector<char>& m, int nx, int ny)
{
    auto V = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny && m[(size_t) j * nx + i]; };
    std::vector<char> o((size_t) nx * ny, 0);
    for (int j = 0; j + 1 < ny; ++j)
        for (int i = 0; i + 1 < nx; ++i)
            if (V(i, j) && V(i + 1, j) && V(i, j + 1) && V(i + 1, j + 1))
                o[(size_t) j * nx + i] = o[(size_t) j * nx + i + 1] = o[(size_t) (j + 1) * nx + i] = o[(size_t) (j + 1) * nx + i + 1] = 1;
    m.swap(o);
}

struct Topo {
    int ncell = 0, ncomp = 0, pinch = 0, dangling = 0, euler = 0;
    bool disk() const { return ncell > 0 && ncomp == 1 && pinch == 0 && euler == 1; }
};
static inline Topo topology(const std::vector<char>& m, int nx, int ny)
{
    Topo t;
    auto V = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny && m[(size_t) j * nx + i]; };
    auto C = [&](int i, int j) { return V(i, j) && V(i + 1, j) && V(i, j + 1) && V(i + 1, j + 1); };
    int nodes = 0, edges = 0;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            bool a = C(i - 1, j - 1), b = C(i, j - 1), c = C(i - 1, j), d = C(i, j);
            if (a || b || c || d)
                nodes++;
            if (a && d && !b && !c) t.pinch++;
            if (b && c && !a && !d) t.pinch++;
            if (b || d) edges++;        // edge (i,j)-(i+1,j)
            else if (V(i, j) && V(i + 1, j)) t.dangling++;
            if (c || d) edges++;        // edge (i,j)-(i,j+1)
            else if (V(i, j) && V(i, j + 1)) t.dangling++;
            if (d) t.ncell++;
        }
    t.euler = nodes - edges + t.ncell;
    if (t.ncell) {
        std::vector<char> seen((size_t) nx * ny, 0);
        std::vector<std::pair<int, int>> st;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                if (C(i, j) && !seen[(size_t) j * nx + i]) {
                    t.ncomp++;
                    st.push_back({i, j});
                    seen[(size_t) j * nx + i] = 1;
                    while (!st.empty()) {
                        auto q = st.back();
                        st.pop_back();
                        const int di[] = {1, -1, 0, 0}, dj[] = {0, 0, 1, -1};
                        for (int k = 0; k < 4; ++k) {
                            int a = q.first + di[k], b = q.second + dj[k];
                            if (C(a, b) && !seen[(size_t) b * nx + a]) {
                                seen[(size_t) b * nx + a] = 1;
                                st.push_back({a, b});
                            }
                        }
                    }
                }
    }
    return t;
}
static inline std::vector<char> maskOf(const Nodes& n)
{
    std::vector<char> m(n.n());
    for (size_t k = 0; k < n.n(); ++k)
        m[k] = !std::isnan(n.x[k]);
    return m;
}

// a node mask such that the union of valid cells is a topological disk and
// every valid node belongs to a valid cell
static inline std::vector<char> genDiskMask(Src& s, Ctx& c, int nx, int ny, bool dangling)
{
    std::vector<char> m((size_t) nx * ny, 1);
    int mode = s.weighted({3, 5, 3, 2, dangling ? 3 : 0});
    if (nx * ny <= 6 || (mode == 4 && nx * ny < 20))
        mode = 0;
    auto ok = [&](const std::vector<char>& t) {
        Topo tt = topology(t, nx, ny);
        return tt.disk() && (dangling || tt.dangling == 0);
    };
    auto carve = [&](int attempts) {
        for (int a = 0; a < attempts; ++a) {
            int w = s.range(1, std::max(1, s.chance(1, 3) ? nx / 2 : std::min(3, nx / 2))), h = s.range(1, std::max(1, s.chance(1, 3) ? ny / 2 : std::min(3, ny / 2)));
            int i0 = s.range(0, nx - 1), j0 = s.range(0, ny - 1);
            int side = s.range(0, 7);
            if (side == 1) i0 = 0;
            if (side == 2) j0 = 0;
            if (side == 3) i0 = nx - w;
            if (side == 4) j0 = ny - h;
            std::vector<char> t = m;
            for (int j = std::max(0, j0); j < std::min(ny, j0 + h); ++j)
                for (int i = std::max(0, i0); i < std::min(nx, i0 + w); ++i)
                    t[(size_t) j * nx + i] = 0;
            dropLoose(t, nx, ny);
            if (ok(t))
                m.swap(t);
        }
    };
    if (mode == 1)
        carve(s.range(1, 12));
    else if (mode == 2) {       // grow from a cell
        std::fill(m.begin(), m.end(), 0);
        int ci = s.range(0, nx - 2), cj = s.range(0, ny - 2);
        auto put = [&](std::vector<char>& t, int i, int j) { t[(size_t) j * nx + i] = t[(size_t) j * nx + i + 1] = t[(size_t) (j + 1) * nx + i] = t[(size_t) (j + 1) * nx + i + 1] = 1; };
        put(m, ci, cj);
        int steps = s.range(1, std::min(60, nx * ny));
        int dir = 0;
        for (int a = 0; a < steps; ++a) {
            if (s.chance(1, 3))
                dir = s.range(0, 3);
            const int di[] = {1, 0, -1, 0}, dj[] = {0, 1, 0, -1};
            int ni = ci + di[dir], nj = cj + dj[dir];
            if (ni < 0 || nj < 0 || ni > nx - 2 || nj > ny - 2)
                continue;
            std::vector<char> t = m;
            put(t, ni, nj);
            if (ok(t)) {
                m.swap(t);
                ci = ni;
                cj = nj;
            } else
                dir = s.range(0, 3);
        }
    } else if (mode == 3 && nx >= 6 && ny >= 6) {    // comb or spiral of corridors
        std::vector<char> t = m;
        if (s.chance(1, 2)) {   // comb with slots two cells (one node) wide or wider
            int period = s.range(3, std::max(3, nx / 2));
            int depth = s.range(1, ny - 2);
            for (int i = period - 1; i + 1 < nx; i += period)
                for (int j = 0; j < depth; ++j)
                    t[(size_t) j * nx + i] = 0;
        } else {                // serpentine slots from alternating sides
            int period = s.range(3, std::max(3, nx / 2)), k = 0;
            for (int i = period - 1; i + 2 < nx; i += period, ++k)
                for (int j = 0; j < ny - 2; ++j)
                    t[(size_t) (k % 2 ? ny - 1 - j : j) * nx + i] = 0;
        }
        dropLoose(t, nx, ny);
        if (ok(t))
            m.swap(t);
        carve(s.range(0, 6));
    }
    if (mode == 4) {            // slots with gates one edge wide: edges between valid nodes with no valid cell on either side
        bool tr = s.chance(1, 2);
        int a = tr ? ny : nx, b = tr ? nx : ny;
        if (a >= 4 && b >= 5) {
            int nslot = s.range(1, std::max(1, a / 6));
            for (int k = 0; k < nslot; ++k) {
                std::vector<char> t = m;
                bool down = s.chance(1, 2);
                int i = s.range(1, a - 2), j = 0, end = s.range(3, std::max(3, b - 2));
                auto kill = [&](int i, int j) {
                    if (i < 0 || i >= a || j < 0 || j >= b)
                        return;
                    if (down)
                        j = b - 1 - j;
                    t[tr ? (size_t) i * nx + j : (size_t) j * nx + i] = 0;
                };
                while (j < end) {
                    int len = s.range(1, 4);
                    for (int l = 0; l < len && j < end; ++l, ++j)
                        kill(i, j);
                    if (s.chance(3, 4)) {
                        i += s.chance(1, 2) ? 1 : -1;
                        j++;
                    }
                }
                dropLoose(t, nx, ny);
                if (ok(t))
                    m.swap(t);
            }
        }
        carve(s.range(0, 3));
    }
    c.label(strf("mask-mode-%d", mode));
    return m;
}

// ------------------------------------------------------------- geometry
static inline double noise(uint64_t seed, uint64_t k)
{
    uint64_t z = seed * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 0x1234567;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    return (double) (z >> 11) / (double) (1ull << 53) * 2.0 - 1.0;
}

struct GeomOpts {
    bool exact = false;         // small integer coordinates only
    bool scales = true;         // rotate, scale and shift the grid
    double minscale = 1e-3, maxscale = 1e5;
};
struct Geom {
    int kind = 0;
    bool exact = false;
    bool left = false;          // left-handed
    double h = 1;               // typical cell size
    double M = 1;               // maximum absolute coordinate
};

// Coordinates for nx x ny nodes such that every cell is convex and not
// degenerate, all cells have the same orientation and do not overlap.
static inline Nodes genGeometry(Src& s, Ctx& c, int nx, int ny, const GeomOpts& o, Geom& g)
{
    Nodes n(nx, ny);
    int kind = o.exact ? s.weighted({3, 2, 3}) : s.weighted({1, 1, 1, 5, 3, 2, 2});
    g.kind = kind;
    g.exact = kind <= 2;
    std::vector<double> f(nx);
    uint64_t ns = 0;
    bool small = nx * ny <= 64;
    if (kind >= 1)
        ns = s.draw(1u << 30);
    auto nz = [&](int k) { return small ? (double) ((int) s.draw(17) - 8) / 8.0 : noise(ns, k); };
    switch (kind) {
    case 0: {
        int sx = s.range(1, 4), sy = s.range(1, 4), ox = s.range(-3, 3), oy = s.range(-3, 3);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                n.X(i, j) = i * sx + ox;
                n.Y(i, j) = j * sy + oy;
            }
        break;
    }
    case 1: {                   // unevenly spaced, columns shifted along
        double xx = s.range(-3, 3);
        for (int i = 0; i < nx; ++i) {
            f[i] = (i ? f[i - 1] : 0) + (int) s.draw(5) - 2;
            xx += 1 + (int) s.draw(3);
            for (int j = 0; j < ny; ++j) {
                n.X(i, j) = xx;
                n.Y(i, j) = 2 * j + f[i];
            }
        }
        break;
    }
    case 2: {                   // integer lattice with integer perturbation (convex quadrilaterals)
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                n.X(i, j) = 10 * i + rint(2 * nz(2 * (j * nx + i)));
                n.Y(i, j) = 10 * j + rint(2 * nz(2 * (j * nx + i) + 1));
            }
        break;
    }
    case 3: {                   // perturbed lattice, possibly stretched
        double sx = s.chance(1, 4) ? s.real(1, 20) : 1, sy = s.chance(1, 4) ? s.real(1, 20) : 1;
        double amp = s.chance(1, 3) ? pow(10.0, -s.range(1, 10)) : 0.22;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                n.X(i, j) = sx * (i + amp * nz(2 * (j * nx + i)));
                n.Y(i, j) = sy * (j + amp * nz(2 * (j * nx + i) + 1));
            }
        break;
    }
    case 4: {                   // sector of an annulus
        double r0 = s.real(0.3, 5), dr = s.real(0.2, 2), th = s.real(0.2, 6.0);
        double dth = th / std::max(1, nx - 1);
        if (dth > 1.5)
            dth = 1.5;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                n.X(i, j) = (r0 + dr * j) * cos(dth * i);
                n.Y(i, j) = (r0 + dr * j) * sin(dth * i);
            }
        break;
    }
    case 5: {                   // vertical sides, arbitrary thickness and slope: trapezia
        double xx = 0, yy = 0;
        for (int i = 0; i < nx; ++i) {
            xx += 0.3 + 0.7 * fabs(nz(1000003 + i));
            yy += 1.5 * nz(2000003 + i);
            double y = yy;
            for (int j = 0; j < ny; ++j) {
                n.X(i, j) = xx;
                n.Y(i, j) = y;
                y += 0.15 + 0.85 * fabs(nz(j * nx + i));
            }
        }
        break;
    }
    case 6: {                   // smooth curvilinear
        double a = s.real(0, 0.9), k1 = s.real(0.1, 1.0), b = s.real(0, 0.9), k2 = s.real(0.1, 1.0);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                n.X(i, j) = i + a / k1 / 2 * sin(k1 * j);
                n.Y(i, j) = j + b / k2 / 2 * sin(k2 * i);
            }
        break;
    }
    }
    // (a transposed or reflected grid is left-handed)
    if (s.chance(1, 3)) {
        g.left = !g.left;
        for (auto& v : n.x)
            v = -v;
    }
    if (s.chance(1, 4)) {
        g.left = !g.left;
        n.x.swap(n.y);
    }
    double scale = 1;
    if (!g.exact && o.scales) {
        int sc = s.weighted({4, 3, 2});
        if (sc == 1)
            scale = pow(10.0, s.real(log10(o.minscale), log10(o.maxscale)));
        else if (sc == 2)
            scale = pow(10.0, s.range((int) log10(o.minscale), (int) log10(o.maxscale)));
        double phi = s.chance(1, 2) ? s.real(0, 6.28) : 0;
        double ox = 0, oy = 0;
        int off = s.weighted({3, 2, 2});
        if (off == 1) {
            ox = scale * s.real(-100, 100);
            oy = scale * s.real(-100, 100);
        } else if (off == 2) {  // map projection-like offsets
            double m = std::min(5e6, scale * 1e7);
            ox = m * s.real(-0.2, 0.2);
            oy = m * s.real(-1, 1);
        }
        if (s.chance(1, 5)) {   // shear and stretch
            double sh = s.real(-4, 4), st = pow(10.0, s.real(-1.5, 1.5));
            for (size_t k = 0; k < n.n(); ++k) {
                n.x[k] += sh * n.y[k];
                n.y[k] *= st;
            }
            c.label("sheared");
        }
        double cp = cos(phi), sp = sin(phi);
        for (size_t k = 0; k < n.n(); ++k) {
            double x = n.x[k], y = n.y[k];
            n.x[k] = scale * (cp * x - sp * y) + ox;
            n.y[k] = scale * (sp * x + cp * y) + oy;
        }
    }
    c.label(strf("geometry-%d", kind));
    g.M = 0;
    for (size_t k = 0; k < n.n(); ++k)
        g.M = std::max(g.M, std::max(fabs(n.x[k]), fabs(n.y[k])));
    g.h = scale;
    return n;
}

// A rectangle cut in pieces, each with its own lines and orientation, laid out
// next to each other in index space with gaps in between: parts of the grid that
// adjoin in space but not in index space, cells of quite different size,
// nodes on the sides of other cells. Coordinates are integers unless transformed.
static inline Nodes genPatchwork(Src& s, Ctx& c, Geom& g, int size)
{
    struct Rect { int x0, x1, y0, y1; };
    std::vector<Rect> r = {{0, s.range(2, size), 0, s.range(2, size)}};
    for (int k = s.range(1, 5); k > 0; --k) {
        size_t q = s.draw(r.size());
        Rect a = r[q], b = a;
        if (s.chance(1, 2)) {
            if (a.x1 - a.x0 < 2) continue;
            a.x1 = b.x0 = s.range(a.x0 + 1, a.x1 - 1);
        } else {
            if (a.y1 - a.y0 < 2) continue;
            a.y1 = b.y0 = s.range(a.y0 + 1, a.y1 - 1);
        }
        r[q] = a;
        r.push_back(b);
    }
    struct Piece { std::vector<int> lx, ly; int flip, tri; int ni() const { return flip & 4 ? ly.size() : lx.size(); } int nj() const { return flip & 4 ? lx.size() : ly.size(); } };
    std::vector<Piece> P;
    auto cut = [&](int a, int b) {
        std::vector<int> v = {a};
        int den = s.range(0, 4);                // how dense the lines are
        for (int k = a + 1; k < b; ++k)
            if (v.size() < 30 && (int) s.draw(4) < den) v.push_back(k);
        v.push_back(b);
        return v;
    };
    for (size_t k = 0; k < r.size(); ++k) {
        if (r.size() > 1 && s.chance(1, 7)) continue;
        Piece p;
        p.lx = cut(r[k].x0, r[k].x1);
        p.ly = cut(r[k].y0, r[k].y1);
        p.flip = s.draw(8);
        p.tri = s.chance(1, 2) ? s.range(1, 3) : 0;
        P.insert(P.begin() + s.draw(P.size() + 1), p);
    }
    if (P.empty()) P.push_back({{r[0].x0, r[0].x1}, {r[0].y0, r[0].y1}, 0, 0});
    int nx = -1, ny = 1;
    for (auto& p : P) {
        nx += p.ni() + 1;
        ny = std::max(ny, p.nj());
    }
    ny += s.range(0, 2);
    Nodes n(nx, ny);
    int i0 = 0, m[4] = {1, 0, 0, 1};
    if (s.chance(1, 4)) {       // half of a square becomes an (almost) equilateral triangle
        m[0] = 8; m[1] = 4; m[3] = 7;
    } else if (s.chance(1, 2))
        do
            for (int& v : m) v = s.range(-2, 2);
        while (m[0] * m[3] == m[1] * m[2] && (m[0] = m[3] = 1, m[1] = m[2] = 0, 0));
    for (auto& p : P) {
        int j0 = s.range(0, ny - p.nj());
        for (int j = 0; j < p.nj(); ++j)
            for (int i = 0; i < p.ni(); ++i) {
                int a = p.flip & 4 ? j : i, b = p.flip & 4 ? i : j;
                if (p.flip & 1) a = p.lx.size() - 1 - a;
                if (p.flip & 2) b = p.ly.size() - 1 - b;
                int X = 16 * p.lx[a], Y = 16 * p.ly[b];
                // a single cell may be almost triangular
                if (p.tri && p.ni() == 2 && p.nj() == 2 && a == 1 && b == 1)
                    (p.tri & 1 ? X : Y) -= (p.tri & 1 ? p.lx[1] - p.lx[0] : p.ly[1] - p.ly[0]) * (p.tri & 2 ? 15 : 12);
                n.X(i0 + i, j0 + j) = m[0] * X + m[1] * Y;
                n.Y(i0 + i, j0 + j) = m[2] * X + m[3] * Y;
            }
        i0 += p.ni() + 1;
    }
    if (s.chance(1, 2)) {       // transposed layout
        Nodes t(ny, nx);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) { t.X(j, i) = n.X(i, j); t.Y(j, i) = n.Y(i, j); }
        n = t;
    }
    g.exact = s.chance(1, 2);
    g.kind = 7;
    if (!g.exact) {
        double phi = s.real(0, 6.28), sc = pow(10.0, s.real(-3, 4)), ox = s.real(-100, 100) * sc, oy = s.real(-100, 100) * sc;
        for (size_t k = 0; k < n.n(); ++k) {
            double x = n.x[k], y = n.y[k];
            n.x[k] = sc * (cos(phi) * x - sin(phi) * y) + ox;
            n.y[k] = sc * (sin(phi) * x + cos(phi) * y) + oy;
        }
    }
    c.label("patchwork");
    return n;
}

static inline void applyMask(Nodes& n, const std::vector<char>& m)
{
    for (size_t k = 0; k < n.n(); ++k)
        if (!m[k])
            n.x[k] = n.y[k] = QNAN;
}

// HUGE_MODE: 0 ordinary sizes; 1 large grids; more: the same, of limited length; -1 grids of
// ordinary size, but long lists of points or lines
// a length well above the usual ones, often at a power of two
static inline int hugeLength(Src& s, int max)
{
    switch (s.weighted({3, 3, 2, 2, 2})) {
    case 0: return std::min(max, s.range(200, 5000));
    case 4: return std::min(max, s.range(65536, 70000));
    case 1: { int p = s.range(10, 16); return std::min(max, (1 << p) - 8 + s.range(0, 15)); }
    case 2: return std::min(max, s.range(5000, 40000));
    default: return std::min(max, s.range(40000, 70000));
    }
}
// number of cells in each direction: many; no more than about 70000 in either
static inline void hugeSize(Src& s, int& n1, int& n2)
{
    if (s.chance(2, 5)) {
        n1 = s.range(60, 260);
        n2 = s.range(60, 260);
        return;
    }
    n1 = s.range(1, 3);
    n2 = hugeLength(s, HUGE_MODE > 1 ? HUGE_MODE : 70000);
    if (s.chance(1, 2))
        std::swap(n1, n2);
}
// number of cells in each direction
static inline void genSize(Src& s, int& n1, int& n2, int big = 0)
{
    if (HUGE_MODE > 0) {
        hugeSize(s, n1, n2);
        return;
    }
    int k = s.weighted({280, 400, 120, big >= 60 ? 400 : big ? 80 : 0, 6, 3});
    if (k == 0) {
        n1 = s.range(1, 4);
        n2 = s.range(1, 4);
    } else if (k == 1) {
        n1 = s.range(1, 12);
        n2 = s.range(1, 12);
    } else if (k == 2) {
        n1 = s.range(1, 2);
        n2 = s.range(1, 60);
        if (s.chance(1, 2))
            std::swap(n1, n2);
    } else if (k == 3) {
        n1 = s.range(1, big);
        n2 = s.range(1, big);
    } else if (k == 4) {                // long
        n1 = s.range(1, 3);
        n2 = s.range(60, 300);
        if (s.chance(1, 2))
            std::swap(n1, n2);
    } else {
        n1 = s.range(15, 45);
        n2 = s.range(15, 45);
    }
}

// ------------------------------------------------------------- geometry of a cell
struct Cell {
    double x[4], y[4];          // (0,0), (1,0), (1,1), (0,1)
};
static inline Cell cellOf(const Nodes& n, int i, int j)
{
    Cell c;
    const int di[] = {0, 1, 1, 0}, dj[] = {0, 0, 1, 1};
    for (int k = 0; k < 4; ++k) {
        c.x[k] = n.X(i + di[k], j + dj[k]);
        c.y[k] = n.Y(i + di[k], j + dj[k]);
    }
    return c;
}
static inline void bilin(const Cell& c, long double u, long double v, long double& x, long double& y)
{
    long double w0 = (1 - u) * (1 - v), w1 = u * (1 - v), w2 = u * v, w3 = (1 - u) * v;
    x = w0 * c.x[0] + w1 * c.x[1] + w2 * c.x[2] + w3 * c.x[3];
    y = w0 * c.y[0] + w1 * c.y[1] + w2 * c.y[2] + w3 * c.y[3];
}
// signed distance from (x,y) to the nearest side of a convex cell: positive inside
static inline long double depth(const Cell& c, double x, double y)
{
    long double area = 0;
    for (int k = 0; k < 4; ++k) {
        int l = (k + 1) % 4;
        area += ((long double) c.x[k] - x) * ((long double) c.y[l] - y) - ((long double) c.x[l] - x) * ((long double) c.y[k] - y);
    }
    long double sg = area > 0 ? 1 : -1, d = 1e300L;
    for (int k = 0; k < 4; ++k) {
        int l = (k + 1) % 4;
        long double ex = (long double) c.x[l] - c.x[k], ey = (long double) c.y[l] - c.y[k];
        long double cr = ex * ((long double) y - c.y[k]) - ey * ((long double) x - c.x[k]);
        d = std::min(d, sg * cr / hypotl(ex, ey));
    }
    return d;
}
static inline double minSide(const Cell& c)
{
    double d = 1e300;
    for (int k = 0; k < 4; ++k)
        d = std::min(d, hypot(c.x[(k + 1) % 4] - c.x[k], c.y[(k + 1) % 4] - c.y[k]));
    return d;
}
// bounds on the Jacobian of the cell's mapping: smallest singular value over the corners
static inline double minStretch(const Cell& c)
{
    double m = 1e300;
    for (int k = 0; k < 4; ++k) {
        int a = k, b = (k + 1) % 4, d = (k + 3) % 4;
        double ux = c.x[b] - c.x[a], uy = c.y[b] - c.y[a], vx = c.x[d] - c.x[a], vy = c.y[d] - c.y[a];
        double det = fabs(ux * vy - uy * vx), fr = ux * ux + uy * uy + vx * vx + vy * vy;
        double s2 = (fr + sqrt(std::max(0.0, fr * fr - 4 * det * det))) / 2;
        m = std::min(m, det / sqrt(s2));
    }
    return m;
}
static inline double maxSide(const Cell& c)
{
    double d = 0;
    for (int k = 0; k < 4; ++k)
        d = std::max(d, hypot(c.x[(k + 1) % 4] - c.x[k], c.y[(k + 1) % 4] - c.y[k]));
    return d;
}

// a complete grid of corner nodes: a topological disk of convex cells
struct Grid {
    Nodes n;
    Geom g;
    Topo t;
    std::vector<std::pair<int, int>> cells;
    int nce1() const { return n.nx - 1; }
    int nce2() const { return n.ny - 1; }
};
static inline Grid genGrid(Src& s, Ctx& c, const GeomOpts& o, int big, bool masked = true, bool dangling = true)
{
    Grid G;
    int n1, n2;
    genSize(s, n1, n2, big);
    std::vector<char> m((size_t) (n1 + 1) * (n2 + 1), 1);
    if (masked)
        m = genDiskMask(s, c, n1 + 1, n2 + 1, dangling);
    G.n = genGeometry(s, c, n1 + 1, n2 + 1, o, G.g);
    applyMask(G.n, m);
    G.t = topology(m, n1 + 1, n2 + 1);
    double sum = 0;
    G.g.M = 0;
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            if (G.n.cell(i, j)) {
                G.cells.push_back({i, j});
                sum += minSide(cellOf(G.n, i, j));
            }
    for (size_t k = 0; k < G.n.n(); ++k)
        if (!std::isnan(G.n.x[k]))
            G.g.M = std::max(G.g.M, std::max(fabs(G.n.x[k]), fabs(G.n.y[k])));
    G.g.h = sum / std::max<size_t>(1, G.cells.size());
    c.label(G.t.dangling > 0, "dangling-edge");
    c.label(G.g.left, "left-handed");
    c.label(G.n.n() > 1024, "more-than-1024-nodes");
    c.label(G.cells.size() < (size_t) n1 * n2, "masked");
    return G;
}
