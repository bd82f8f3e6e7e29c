// Declarative models shared by the properties on node arrays.
#pragma once
#include "gen.h"

// ---------------------------------------------------------------- validation
static inline bool okNode(const Nodes& n, int i, int j) { return n.v(i, j); }

static inline Nodes modelValidateCO(const Nodes& n)
{
    Nodes r = n;
    for (int j = 0; j < n.ny; ++j)
        for (int i = 0; i < n.nx; ++i) {
            bool keep = false;
            for (int a = i - 1; a <= i; ++a)
                for (int b = j - 1; b <= j; ++b)
                    keep = keep || (n.v(a, b) && n.v(a + 1, b) && n.v(a, b + 1) && n.v(a + 1, b + 1));
            if (!keep)
                r.kill(i, j);
        }
    return r;
}
static inline Nodes modelValidateDD(const Nodes& n)
{
    Nodes r = n;
    // corners
    for (int j = 0; j < n.ny; j += 2)
        for (int i = 0; i < n.nx; i += 2) {
            bool keep = false;
            for (int a = i - 2; a <= i; a += 2)
                for (int b = j - 2; b <= j; b += 2)
                    keep = keep || (n.v(a, b) && n.v(a + 2, b) && n.v(a, b + 2) && n.v(a + 2, b + 2));
            if (!keep)
                r.kill(i, j);
        }
    for (int j = 0; j < n.ny; ++j)
        for (int i = 0; i < n.nx; ++i) {
            bool keep = true;
            if (i % 2 && j % 2)
                keep = r.v(i - 1, j - 1) && r.v(i + 1, j - 1) && r.v(i - 1, j + 1) && r.v(i + 1, j + 1);
            else if (i % 2)
                keep = r.v(i - 1, j) && r.v(i + 1, j);
            else if (j % 2)
                keep = r.v(i, j - 1) && r.v(i, j + 1);
            if (!keep)
                r.kill(i, j);
        }
    return r;
}
static inline Nodes modelValidate(const Nodes& n, NODETYPE t) { return t == NT_DD ? modelValidateDD(n) : t == NT_COR ? modelValidateCO(n) : n; }

// ---------------------------------------------------------------- comparison
// value equality with tolerance; NaN pattern must be the same. Returns "" or what differs.
static inline std::string diffNodes(const Nodes& got, const Nodes& want, double tol)
{
    if (got.nx != want.nx || got.ny != want.ny)
        return strf("size is %d x %d instead of %d x %d", got.nx, got.ny, want.nx, want.ny);
    for (int j = 0; j < want.ny; ++j)
        for (int i = 0; i < want.nx; ++i) {
            double gx = got.X(i, j), gy = got.Y(i, j), wx = want.X(i, j), wy = want.Y(i, j);
            bool nan = std::isnan(wx) || std::isnan(wy);
            bool ok = nan ? std::isnan(gx) && std::isnan(gy) : tol == 0 ? (gx == wx && gy == wy) : (fabs(gx - wx) <= tol && fabs(gy - wy) <= tol);
            if (!ok)
                return strf("node (%d,%d) is (%.17g, %.17g) instead of (%.17g, %.17g)", i, j, gx, gy, wx, wy);
        }
    return "";
}
static inline Nodes rounded15(const Nodes& n)
{
    Nodes r = n;
    for (auto& v : r.x) if (!std::isnan(v)) v = r15(v);
    for (auto& v : r.y) if (!std::isnan(v)) v = r15(v);
    return r;
}
static inline double maxAbs(const Nodes& n)
{
    double m = 0;
    for (size_t k = 0; k < n.n(); ++k)
        if (!std::isnan(n.x[k]))
            m = std::max(m, std::max(fabs(n.x[k]), fabs(n.y[k])));
    return m;
}

// ---------------------------------------------------------------- conversions
static inline Nodes modelDD2CO(const Nodes& n)
{
    Nodes r(n.nx / 2 + 1, n.ny / 2 + 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            r.X(i, j) = n.X(2 * i, 2 * j);
            r.Y(i, j) = n.Y(2 * i, 2 * j);
        }
    return r;
}
static inline Nodes modelDD2CE(const Nodes& n)
{
    Nodes r(n.nx / 2, n.ny / 2);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            r.X(i, j) = n.X(2 * i + 1, 2 * j + 1);
            r.Y(i, j) = n.Y(2 * i + 1, 2 * j + 1);
        }
    return r;
}
static inline Nodes modelCO2CE(const Nodes& n)
{
    Nodes r(n.nx - 1, n.ny - 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            r.X(i, j) = ((long double) n.X(i, j) + n.X(i + 1, j) + n.X(i, j + 1) + n.X(i + 1, j + 1)) / 4;
            r.Y(i, j) = ((long double) n.Y(i, j) + n.Y(i + 1, j) + n.Y(i, j + 1) + n.Y(i + 1, j + 1)) / 4;
        }
    return r;
}
static inline Nodes modelCO2DD(const Nodes& n)
{
    Nodes r(n.nx * 2 - 1, n.ny * 2 - 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            int a = i / 2, b = j / 2, a1 = (i + 1) / 2, b1 = (j + 1) / 2;
            r.X(i, j) = ((long double) n.X(a, b) + n.X(a1, b) + n.X(a, b1) + n.X(a1, b1)) / 4;
            r.Y(i, j) = ((long double) n.Y(a, b) + n.Y(a1, b) + n.Y(a, b1) + n.Y(a1, b1)) / 4;
        }
    return r;
}

// ---------------------------------------------------------------- bilinear forward mapping with the nodes of non-zero weight only
// returns false if the result is NaN
static inline bool forward(const Nodes& n, long double fi, long double fj, long double& x, long double& y)
{
    int i = std::min((int) floorl(fi), n.nx - 1), j = std::min((int) floorl(fj), n.ny - 1);
    long double u = fi - i, v = fj - j;
    x = y = 0;
    for (int b = 0; b < 2; ++b)
        for (int a = 0; a < 2; ++a) {
            long double w = (a ? u : 1 - u) * (b ? v : 1 - v);
            if (w == 0)
                continue;
            if (!n.v(i + a, j + b))
                return false;
            x += w * n.X(i + a, j + b);
            y += w * n.Y(i + a, j + b);
        }
    return true;
}

// a decimal number in one of its spellings
// a tail for a line with the specified number of characters that makes it about as long as, or much longer than,
// the buffers that lines are read into; taken apart, it looks like points
inline std::string longTail(Src& s, size_t used, size_t buf = 10240)
{
    size_t len = buf * s.range(1, 3) + s.range(-5, 5);
    if (s.chance(1, 3)) len = buf + s.draw(2 * buf);
    static const char* W[] = {" 1 2", " #", " a", "7 ", " 1 1 x\t"};
    std::string w = W[s.draw(5)], r = s.chance(1, 2) ? " " : " # ";
    while (used + r.size() < len) r += w;
    if (used < len) r.resize(len - used);
    while (r.size() > 1 && isspace((unsigned char) r.back())) r.back() = '.';
    return r;
}

static inline std::string spellInt(Src& s, int v)
{
    if (!s.chance(1, 6)) return strf("%d", v);
    unsigned a = v < 0 ? 0u - (unsigned) v : (unsigned) v;
    static const char* Z[] = {"", "0", "00"};
    const char* z = Z[s.draw(3)];
    return strf("%s%s%u", v < 0 ? "-" : s.chance(1, 2) ? "+" : "", z, a);
}

static inline const char* tname(Src& s, NODETYPE t)
{
    static const char* n[4][4] = { {"", "", "", ""}, {"dd", "DD", "Dd", "dD"}, {"ce", "CE", "Ce", "cE"}, {"co", "CO", "Co", "cO"} };
    return n[t][s.draw(4)];
}

// ---------------------------------------------------------------- arbitrary validity patterns
static inline void killPattern(Src& s, Ctx& c, Nodes& n, int step = 1, int off = 0)
{
    int mode = s.weighted({2, 4, 3, 2});
    auto in = [&](int i, int j) { return i % step == off % step && j % step == off % step; };
    if (mode == 1) {
        int p = s.chance(1, 2) ? s.range(1, 3) : s.range(1, 12);
        bool few = n.n() <= 400;
        uint64_t seed = few ? 0 : s.draw(1u << 30);
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i)
                if (in(i, j) && (few ? s.draw(24) < (uint64_t) p : (noise(seed, j * n.nx + i) + 1) * 12 < p))
                    n.kill(i, j);
    } else if (mode == 2)
        for (int k = s.range(1, 6); k > 0; --k) {
            int i0 = s.range(0, n.nx - 1), j0 = s.range(0, n.ny - 1), w = s.range(1, 1 + n.nx / 3), h = s.range(1, 1 + n.ny / 3);
            for (int j = j0; j < std::min(n.ny, j0 + h); ++j)
                for (int i = i0; i < std::min(n.nx, i0 + w); ++i)
                    if (in(i, j))
                        n.kill(i, j);
        }
    else if (mode == 3)                     // keep a few blocks only
    {
        Nodes o = n;
        for (auto& v : n.x) v = QNAN;
        for (auto& v : n.y) v = QNAN;
        for (int k = s.range(1, 6); k > 0; --k) {
            int i0 = s.range(0, n.nx - 1), j0 = s.range(0, n.ny - 1), w = s.range(1, 2 + n.nx / 3), h = s.range(1, 2 + n.ny / 3);
            for (int j = j0; j < std::min(n.ny, j0 + h); ++j)
                for (int i = i0; i < std::min(n.nx, i0 + w); ++i) {
                    n.X(i, j) = o.X(i, j);
                    n.Y(i, j) = o.Y(i, j);
                }
        }
    }
    c.label(strf("pattern-%d", mode));
}
// double density nodes of a (complete or not) grid of corner nodes, not necessarily in the middle
static inline Nodes ddNodes(Src& s, Ctx& c, int n1, int n2)
{
    Geom g;
    GeomOpts o;
    return genGeometry(s, c, 2 * n1 + 1, 2 * n2 + 1, o, g);
}
