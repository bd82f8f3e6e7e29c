// Exact models of polygon notions for integer coordinates.
#pragma once
#include "gen.h"

struct Pt { double x, y; };
typedef std::vector<Pt> Pts;
static inline bool operator==(const Pt& a, const Pt& b) { return a.x == b.x && a.y == b.y; }
static inline bool operator!=(const Pt& a, const Pt& b) { return !(a == b); }
static inline long double cross(const Pt& a, const Pt& b, const Pt& c) { return ((long double) b.x - a.x) * ((long double) c.y - a.y) - ((long double) c.x - a.x) * ((long double) b.y - a.y); }

static inline std::string show(const Pts& p, size_t maxn = 200)
{
    std::string s;
    for (size_t k = 0; k < p.size() && k < maxn; ++k)
        s += strf("(%.17g,%.17g) ", p[k].x, p[k].y);
    if (p.size() > maxn)
        s += strf("... (%zu points)", p.size());
    return s;
}

static inline poly* toPoly(const Pts& p)
{
    poly* q = poly_create();
    for (auto& a : p)
        poly_addpoint(q, a.x, a.y);
    return q;
}
static inline Pts fromPoly(const poly* p)
{
    Pts r;
    for (int k = 0; k < p->n; ++k)
        r.push_back({p->x[k], p->y[k]});
    return r;
}

static inline bool onSegment(const Pt& p, const Pt& a, const Pt& b)
{
    return cross(a, b, p) == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y);
}
// even-odd rule; points of the outline belong to the polygon
static inline bool modelContains(const Pts& v, const Pt& p)
{
    size_t n = v.size();
    if (n <= 1)
        return false;
    bool in = false;
    for (size_t k = 0; k < n; ++k) {
        const Pt &a = v[k], &b = v[(k + 1) % n];
        if (onSegment(p, a, b))
            return true;
        if ((a.y > p.y) != (b.y > p.y)) {       // crosses the level of the point; to the right of it?
            long double c = cross(a, b, p);
            if (b.y > a.y ? c > 0 : c < 0)
                in = !in;
        }
    }
    return in;
}
static inline long double modelArea(const Pts& v)
{
    long double a = 0;
    for (size_t k = 0; k < v.size(); ++k) {
        const Pt &p = v[k], &q = v[(k + 1) % v.size()];
        a += ((long double) p.x - v[0].x) * ((long double) q.y - v[0].y) - ((long double) q.x - v[0].x) * ((long double) p.y - v[0].y);
    }
    return a / 2;
}

// cyclic list without consecutive repetitions
static inline Pts distinct(const Pts& v)
{
    Pts r;
    for (auto& p : v)
        if (r.empty() || r.back() != p)
            r.push_back(p);
    while (r.size() > 1 && r.back() == r.front())
        r.pop_back();
    return r;
}
// genuine corners in cyclic order; false if the polygon turns back on itself (or is a line)
static inline bool corners(const Pts& v, Pts& out)
{
    Pts d = distinct(v);
    size_t n = d.size();
    out.clear();
    if (n < 3)
        return false;
    for (size_t k = 0; k < n; ++k) {
        const Pt &a = d[(k + n - 1) % n], &b = d[k], &c = d[(k + 1) % n];
        if (cross(a, b, c) != 0) {
            out.push_back(b);
            continue;
        }
        long double dot = ((long double) b.x - a.x) * ((long double) c.x - b.x) + ((long double) b.y - a.y) * ((long double) c.y - b.y);
        if (dot < 0)
            return false;
    }
    return out.size() >= 3;
}
static inline bool sameCycle(const Pts& a, const Pts& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t r = 0; r < a.size(); ++r) {
        bool ok = true;
        for (size_t k = 0; ok && k < a.size(); ++k)
            ok = a[(k + r) % a.size()] == b[k];
        if (ok)
            return true;
    }
    return a.empty();
}

// ---------------------------------------------------------------- generators (integer coordinates)
static inline Pts genPolygon(Src& s, Ctx& c)
{
    Pts v;
    if (HUGE_MODE) {                            // two chains of very many points, from one choice
        int n = hugeLength(s, 35000);
        uint64_t seed = s.draw(1u << 30);
        int step = s.range(1, 2), h = s.range(1, 8), flat = s.range(0, 3);      // (most sides level, none)
        bool sw = s.chance(1, 2);
        for (int side = 0; side < 2; ++side)
            for (int q = 0; q < n; ++q) {
                int x = side ? n - 1 - q : q;
                double z = noise(seed, 2 * (uint64_t) x + side), y = noise(seed, (1ull << 33) + 2 * (uint64_t) (x / 8) + side);
                if (flat > 0 && y > 1 - flat * 0.6) z = y;                      // the same for eight points
                z = rint(z * h) + (side ? -10 : 10);
                v.push_back(sw ? Pt{z, (double) step * x} : Pt{(double) step * x, z});
            }
        c.desc << strf("polygon of %zu points, seed %llu\n", v.size(), (unsigned long long) seed);
        c.label(v.size() > 65536, "over-65536");
        return v;
    }
    int kind = s.weighted({3, 3, 3, 2});
    c.label(strf("polygon-%d", kind));
    if (kind == 0) {                            // arbitrary, on a small lattice
        int n = s.range(1, 9), R = s.range(1, 5);
        for (int k = 0; k < n; ++k)
            v.push_back({(double) s.range(0, R), (double) s.range(0, R)});
    } else if (kind == 1) {                     // star-shaped
        int n = s.range(3, 14), R = s.chance(1, 2) ? 10 : 1000;
        double ph = s.real(0, 6.28);
        for (int k = 0; k < n; ++k) {
            double a = ph + 6.283185307 * (k + 0.8 * s.unit()) / n, r = R * s.real(0.3, 1);
            v.push_back({rint(r * cos(a)), rint(r * sin(a))});
        }
    } else if (kind == 2) {                     // outline of a union of lattice cells, every node a vertex
        int n1 = s.range(1, 8), n2 = s.range(1, 8);
        std::vector<char> m = genDiskMask(s, c, n1 + 1, n2 + 1, true);
        auto C = [&](int i, int j) { return i >= 0 && j >= 0 && i < n1 && j < n2 && m[j * (n1 + 1) + i] && m[j * (n1 + 1) + i + 1] && m[(j + 1) * (n1 + 1) + i] && m[(j + 1) * (n1 + 1) + i + 1]; };
        std::map<std::pair<int, int>, std::pair<int, int>> nx;
        for (int j = 0; j < n2; ++j)
            for (int i = 0; i < n1; ++i)
                if (C(i, j)) {                  // counterclockwise
                    if (!C(i, j - 1)) nx[{i, j}] = {i + 1, j};
                    if (!C(i + 1, j)) nx[{i + 1, j}] = {i + 1, j + 1};
                    if (!C(i, j + 1)) nx[{i + 1, j + 1}] = {i, j + 1};
                    if (!C(i - 1, j)) nx[{i, j + 1}] = {i, j};
                }
        auto st = nx.begin()->first, q = st;
        int a = 1, b = 0, e = 0, d = 1;
        if (s.chance(1, 3)) { a = s.range(1, 3); b = s.range(-2, 2); e = s.range(-2, 2); d = s.range(1, 3); if (a * d - b * e == 0) b = e = 0; }
        do {
            v.push_back({(double) (a * q.first + b * q.second), (double) (e * q.first + d * q.second)});
            q = nx[q];
        } while (q != st);
    } else {                                    // a staircase or a bar: many horizontal and vertical sides
        int n = s.range(1, 8), x = 0;
        for (int k = 0; k < n; ++k) {
            int y = s.range(1, 5);
            v.push_back({(double) x, (double) y});
            x += s.range(0, 3);
            v.push_back({(double) x, (double) y});
        }
        v.push_back({(double) x, 0});
        v.push_back({0, 0});
    }
    return v;
}
// repetitions and points inserted in the sides, another start, direction, closing
static inline Pts decorate(Src& s, Ctx& c, const Pts& v0, int rep, int ins, bool close)
{
    Pts v;
    for (size_t k = 0; k < v0.size(); ++k) {
        const Pt &a = v0[k], &b = v0[(k + 1) % v0.size()];
        v.push_back(a);
        if (rep && s.chance(1, rep))
            for (int r = s.range(1, 3); r > 0; --r)
                v.push_back(a);
        if (ins && s.chance(1, ins)) {
            long dx = (long) fabs(b.x - a.x), dy = (long) fabs(b.y - a.y), g = dx, h = dy;
            while (h) { long t = g % h; g = h; h = t; }
            for (long q = 1; q < g && q < 50; ++q)
                if (s.chance(1, 2)) {
                    v.push_back({a.x + (b.x - a.x) / g * q, a.y + (b.y - a.y) / g * q});
                    if (rep && s.chance(1, 2 * rep)) v.push_back(v.back());
                }
        }
    }
    if (s.chance(1, 3)) {
        std::reverse(v.begin(), v.end());
        c.label("reversed");
    }
    if (!v.empty())
        std::rotate(v.begin(), v.begin() + s.draw(v.size()), v.end());
    if (close && !v.empty()) {
        v.push_back(v[0]);
        c.label("closed");
    }
    return v;
}
