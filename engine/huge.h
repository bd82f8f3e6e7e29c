// Large grids of parallelograms with integer coordinates (or bent along an arc), in which the cell and
// the indices of a point are known from the way the point was made, so that
// queries can be judged exactly without a search through the cells.
#pragma once
#include "locate.h"
#include "model.h"

struct HugeGrid {
    int n1, n2;
    std::vector<double> X, Y;           // of node -1 .. n + 1
    int a, b;
    bool swapped, flipped;
    double R = 0;                       // radius: the grid is bent along i (j, if negative), and no longer exact
    Nodes n;
    Topo t;
    void at(double fi, double fj, double& x, double& y) const   // fi in [-1, n1 + 1]
    {
        int i = std::min((int) floor(fi), n1), j = std::min((int) floor(fj), n2);
        double u = fi - i, v = fj - j;
        if (R != 0) {
            double px[4], py[4];
            for (int k = 0; k < 4; ++k) bent(i + k % 2, j + k / 2, px[k], py[k]);
            x = (px[0] * (1 - u) + px[1] * u) * (1 - v) + (px[2] * (1 - u) + px[3] * u) * v;
            y = (py[0] * (1 - u) + py[1] * u) * (1 - v) + (py[2] * (1 - u) + py[3] * u) * v;
        } else {
            x = X[i + 1] + u * (X[i + 2] - X[i + 1]) + a * fj;
            y = Y[j + 1] + v * (Y[j + 2] - Y[j + 1]) + b * fi;
        }
        if (swapped) std::swap(x, y);
        if (flipped) x = -x;
    }
    void bent(int i, int j, double& x, double& y) const
    {
        double l = R > 0 ? X[i + 1] : Y[j + 1], w = R > 0 ? Y[j + 1] : X[i + 1], r = fabs(R), h = sin(l / r / 2);
        x = (r + w) * sin(l / r);
        y = w - 2 * (r + w) * h * h;
    }
};
static inline HugeGrid genHuge(Src& s, Ctx& c, bool disk, int maxlen = 70000)
{
    HugeGrid H;
    int save = HUGE_MODE;
    HUGE_MODE = maxlen;
    hugeSize(s, H.n1, H.n2);
    HUGE_MODE = save;
    int n1 = H.n1, n2 = H.n2;
    uint64_t seed = s.draw(1u << 30);
    bool even = s.chance(1, 3);
    auto steps = [&](int n, uint64_t sd) {
        std::vector<double> v(1, -8);
        for (int k = 0; k <= n + 1; ++k) v.push_back(v.back() + 8 * (even ? 1 : 1 + (int) ((noise(sd, k) + 1) * 1.4999)));
        return v;
    };
    H.X = steps(n1, seed);
    H.Y = steps(n2, seed + 1);
    H.a = s.range(-2, 2);
    H.b = s.range(-2, 2);
    H.swapped = s.chance(1, 2);
    H.flipped = s.chance(1, 2);
    if (s.chance(1, 3)) {               // an arc, sometimes hardly different from a straight line
        double l = std::max(H.X.back(), H.Y.back());
        H.R = l * pow(10, s.real(0.3, s.chance(1, 2) ? 3 : 13));
        if (H.Y.back() > H.X.back()) H.R = -H.R;
    }
    H.n = Nodes(n1 + 1, n2 + 1);
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i) H.at(i, j, H.n.X(i, j), H.n.Y(i, j));
    int mode = s.weighted({2, 4, 2, disk ? 0 : 4});
    std::vector<char> m((size_t) (n1 + 1) * (n2 + 1), mode == 0);
    auto put = [&](int i, int j) { for (int e = 0; e < 2; ++e) for (int d = 0; d < 2; ++d) m[(size_t) (j + e) * (n1 + 1) + i + d] = 1; };
    bool tr = n1 > n2 ? s.chance(2, 3) : s.chance(1, 3);        // intervals of columns rather than of rows
    int R = tr ? n1 : n2, C = tr ? n2 : n1;
    if (mode == 1 || mode == 2) {       // an interval of cells in each row, those of neighbour rows overlap
        int lo = 0, hi = C - 1;
        int amp = mode == 1 ? 3 : C;
        for (int r = 0; r < R; ++r) {
            auto rnd = [&](int k) { return (int) (noise(seed + 7, 4 * (uint64_t) r + k) * (amp + 0.5)); };
            int l2 = std::min(C - 1, std::max(0, lo + rnd(0))), h2 = std::min(C - 1, std::max(0, hi + rnd(1)));
            if (l2 > h2) std::swap(l2, h2);
            if (h2 < lo || l2 > hi) { l2 = lo; h2 = hi; }
            lo = l2;
            hi = h2;
            if (r < R / 50 && noise(seed + 8, r) > 0.9) continue;               // (starts later)
            for (int q = lo; q <= hi; ++q) if (tr) put(r, q); else put(q, r);
        }
        dropLoose(m, n1 + 1, n2 + 1);
    } else if (mode == 3) {             // anything
        double p = s.real(-0.99, -0.3);
        for (size_t k = 0; k < m.size(); ++k) m[k] = noise(seed + 9, k) > p;
        dropLoose(m, n1 + 1, n2 + 1);
    }
    applyMask(H.n, m);
    H.t = topology(m, n1 + 1, n2 + 1);
    if (disk && !H.t.disk()) discard();
    c.desc << strf("%d x %d cells%s, seed %llu, %s, %s%smask %d%s: %d valid cells\n", n1, n2, even ? ", even" : "", (unsigned long long) seed, (H.R != 0 ? strf("bent, radius %.17g", H.R) : strf("shear (%d, %d)", H.a, H.b)).c_str(), H.swapped ? "swapped, " : "", H.flipped ? "flipped, " : "", mode, tr ? ", by columns" : "", H.t.ncell);
    c.label(n1 > 40 && n2 > 40 ? "square" : std::max(n1, n2) > 65000 ? "over-65000" : std::max(n1, n2) > 32000 ? "over-32000" : std::max(n1, n2) > 1000 ? "over-1000" : "up-to-1000");
    c.label(strf("mask-%d", mode));
    c.label(H.R != 0, fabs(H.R) > 1e4 * std::max(H.X.back(), H.Y.back()) ? "almost-straight" : "bent");
    return H;
}
// a cell, valid or not, or a place next to the grid; a point strictly inside it
static inline void genPlace(Src& s, const HugeGrid& H, int& i, int& j, double& u, double& v)
{
    auto one = [&](int n) { return s.chance(1, 12) ? (s.chance(1, 2) ? -1 : n) : s.chance(1, 6) ? (s.chance(1, 2) ? 0 : n - 1) : (int) s.draw(n); };
    i = one(H.n1);
    j = one(H.n2);
    // (the tolerance of compaction is below 1e-10 of the length of the outline)
    auto part = [&]() { return s.chance(1, 4) ? (s.chance(1, 2) ? 1 / 1024.0 : 1023 / 1024.0) : (1 + s.draw(7)) / 8.0; };
    u = part();
    v = part();
}
// queries of a map for cells and for indices, and of the forward mapping
static inline void hugeQueries(Src& s, Ctx& c, int type, int what)
{
    HugeGrid H = genHuge(s, c, type == GRIDMAP_TYPE_BINARY);
    CNodes A(H.n);
    AnyMap gm(H.n, A, type, what == 0 && s.chance(1, 4));
    int nin = 0;
    for (int q = s.range(10, 60); q > 0; --q) {
        int i, j, r, gi = -777, gj = -777;
        double u, v, x, y;
        genPlace(s, H, i, j, u, v);
        H.at(i + u, j + v, x, y);
        bool want = H.n.cell(i, j);
        nin += want;
        if (what == 0) {
            r = gm.xy2ij(x, y, &gi, &gj);
            CHECK((r != 0) == want, "point (%.17g, %.17g) in %s cell (%d,%d): status %d", x, y, want ? "valid" : "invalid", i, j, r);
            if (want) CHECK(gi == i && gj == j, "point (%.17g, %.17g) in cell (%d,%d) is mapped to cell (%d,%d)", x, y, i, j, gi, gj);
        } else {
            double fi = -777, fj = -777;
            r = gridmap_xy2fij(gm.g, x, y, &fi, &fj);
            CHECK((r != 0) == want, "point (%.17g, %.17g) in %s cell (%d,%d): status %d", x, y, want ? "valid" : "invalid", i, j, r);
            if (want) {
                double tol = 4e-8 + 1e-9;
                CHECK(fabs(fi - i - u) <= tol && fabs(fj - j - v) <= tol, "point (%.17g, %.17g) is mapped to (%.17g, %.17g) instead of (%.17g, %.17g)", x, y, fi, fj, i + u, j + v);
                r = gridmap_fij2xy(gm.g, fi, fj, &u, &v);
                CHECK(r && fabs(u - x) <= 1e-5 && fabs(v - y) <= 1e-5, "index (%.17g, %.17g) is mapped to (%.17g, %.17g) instead of (%.17g, %.17g)", fi, fj, u, v, x, y);
            }
        }
    }
    c.nontrivial = nin > 1 && H.t.ncell > 1;
}
