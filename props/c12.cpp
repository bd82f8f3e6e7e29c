// C12: point in polygon
#include "polymodel.h"

static Pt genPt(Src& s, const Pts& v)
{
    int R = 0;
    for (auto& p : v) R = std::max(R, (int) std::max(fabs(p.x), fabs(p.y)));
    const Pt &a = v[s.draw(v.size())], &b = v[s.draw(v.size())];
    switch (s.weighted({3, 3, 3, 2, 1})) {
    case 0: return a;
    case 1: return {a.x + s.range(-2, 2), a.y};                 // level with a vertex
    case 2: return {a.x, b.y};                                  // aligned with two
    case 3: return {(double) s.range(-R - 1, R + 1), (double) s.range(-R - 1, R + 1)};
    default: {                                                  // on a side
        size_t k = s.draw(v.size());
        const Pt &p = v[k], &q = v[(k + 1) % v.size()];
        long dx = (long) fabs(q.x - p.x), dy = (long) fabs(q.y - p.y), g = dx, h = dy;
        while (h) { long t = g % h; g = h; h = t; }
        if (g == 0) return p;
        long t = s.draw(g + 1);
        return {p.x + (q.x - p.x) / g * t, p.y + (q.y - p.y) / g * t};
    }
    }
}

static void exactCase(Src& s, Ctx& c)
{
    Pts base = genPolygon(s, c);
    if (s.chance(1, 3)) {       // larger numbers
        double a = s.range(1, 97), ox = s.range(-10000, 10000), oy = s.range(-10000, 10000);
        for (auto& p : base) {
            p.x = a * p.x + ox;
            p.y = a * p.y + oy;
        }
    }
    Pts v = decorate(s, c, base, s.chance(1, 4) ? 4 : 0, s.chance(1, 4) ? 2 : 0, s.chance(1, 2));
    c.desc << "polygon: " << show(v) << "\n";
    poly* p = toPoly(v);
    int nb = 0, ni = 0, no = 0;
    for (int q = s.range(1, 20); q > 0; --q) {
        Pt t = genPt(s, v);
        c.desc << strf("(%g, %g) ", t.x, t.y);
        bool want = modelContains(v, t);
        int got = poly_containspoint(p, t.x, t.y);
        CHECK((got != 0) == want, "point (%g, %g): %d instead of %d", t.x, t.y, got, want);
        bool bd = false;
        for (size_t k = 0; k < v.size(); ++k)
            bd = bd || onSegment(t, v[k], v[(k + 1) % v.size()]);
        nb += bd;
        ni += want && !bd;
        no += !want;
        c.label(bd ? "on-outline" : want ? "inside" : "outside");
    }
    // not a matter of the start, direction or closing
    Pts u = v;
    std::reverse(u.begin(), u.end());
    std::rotate(u.begin(), u.begin() + s.draw(u.size()), u.end());
    if (u.size() > 1 && s.chance(1, 2)) u.push_back(u[0]);
    poly* r = toPoly(u);
    for (int q = 4; q > 0; --q) {
        Pt t = genPt(s, v);
        t.x += s.range(-2, 2) / 4.0;
        t.y += s.range(-2, 2) / 4.0;
        int g1 = poly_containspoint(p, t.x, t.y), g2 = poly_containspoint(r, t.x, t.y);
        CHECK(g1 == g2, "point (%g, %g): %d, but %d for the same polygon with another start, direction or closing: %s", t.x, t.y, g1, g2, show(u).c_str());
        CHECK((g1 != 0) == modelContains(v, t), "point (%g, %g): %d", t.x, t.y, g1);
    }
    poly_destroy(p);
    poly_destroy(r);
    c.nontrivial = distinct(v).size() >= 3 && (nb || ni) && no;
}

static long double dist(const Pts& v, const Pt& t)
{
    long double d = 1e300L;
    for (size_t k = 0; k < v.size(); ++k) {
        const Pt &a = v[k], &b = v[(k + 1) % v.size()];
        long double ex = (long double) b.x - a.x, ey = (long double) b.y - a.y, l = ex * ex + ey * ey, u = l > 0 ? (((long double) t.x - a.x) * ex + ((long double) t.y - a.y) * ey) / l : 0;
        u = std::min(1.0L, std::max(0.0L, u));
        d = std::min(d, hypotl(t.x - a.x - u * ex, t.y - a.y - u * ey));
    }
    return d;
}

static void realCase(Src& s, Ctx& c)
{
    Pts base = genPolygon(s, c), v = decorate(s, c, base, s.chance(1, 4) ? 4 : 0, 0, s.chance(1, 2));
    double sc = pow(10.0, s.real(-9, 9)), phi = s.real(0, 6.28), ox = sc * (s.chance(1, 2) ? s.real(-1e4, 1e4) : 0), oy = sc * (s.chance(1, 2) ? s.real(-1e4, 1e4) : 0);
    for (auto& p : v)
        p = {sc * (p.x * cos(phi) - p.y * sin(phi)) + ox, sc * (p.x * sin(phi) + p.y * cos(phi)) + oy};
    double M = 0;
    for (auto& p : v) M = std::max(M, std::max(fabs(p.x), fabs(p.y)));
    c.desc << "polygon: " << show(v) << "\n";
    poly* p = toPoly(v);
    int ni = 0, no = 0;
    for (int q = s.range(1, 16); q > 0; --q) {
        const Pt &a = v[s.draw(v.size())], &b = v[s.draw(v.size())];
        Pt t;
        int k = s.range(0, 3);
        if (k == 0) t = {a.x + s.real(-1, 1) * sc, a.y + s.real(-1, 1) * sc};
        else if (k == 1) t = {a.x, b.y};
        else if (k == 2) t = {a.x + s.real(-3, 3) * sc, a.y};
        else { double w = s.real(-0.1, 1.1); t = {a.x + w * (b.x - a.x), a.y + w * (b.y - a.y)}; }
        c.desc << strf("(%.17g, %.17g) ", t.x, t.y);
        if (dist(v, t) <= 16 * DBL_EPSILON * M) {
            c.label("at-outline");
            continue;
        }
        bool want = modelContains(v, t);
        int got = poly_containspoint(p, t.x, t.y);
        CHECK((got != 0) == want, "point (%.17g, %.17g): %d instead of %d", t.x, t.y, got, want);
        (want ? ni : no)++;
        c.label(want ? "inside" : "outside");
    }
    CHECK(!poly_containspoint(p, M * 3 + 1, 0) && !poly_containspoint(p, 0, -M * 3 - 1) && !poly_containspoint(p, INFINITY, v[0].y), "a far point is in the polygon");
    poly_destroy(p);
    c.nontrivial = ni && no;
}

// two polygons with a common side
static void sharedCase(Src& s, Ctx& c)
{
    double sc = pow(10.0, s.real(-6, 6)), phi = s.chance(1, 2) ? s.real(0, 6.28) : s.range(0, 7) * 0.78539816339744831, ox = sc * (s.chance(2, 3) ? s.real(-1e4, 1e4) : 0), oy = sc * (s.chance(2, 3) ? s.real(-1e4, 1e4) : 0);
    auto T = [&](double x, double y) { return Pt{sc * (x * cos(phi) - y * sin(phi)) + ox, sc * (x * sin(phi) + y * cos(phi)) + oy}; };
    Pt A = T(0, 0), B = T(s.real(0.5, 2), 0);
    auto side = [&](double sg) {
        Pts v;
        if (s.chance(1, 4))
            v = {A, B, T(s.real(-1, 3), sg * s.real(0.3, 2))};
        else
            v = {A, B, T(s.real(1.0, 3), sg * s.real(0.3, 2)), T(s.real(-1, 0.9), sg * s.real(0.3, 2))};
        if (s.chance(1, 2)) std::reverse(v.begin(), v.end());
        std::rotate(v.begin(), v.begin() + s.draw(v.size()), v.end());
        if (s.chance(1, 2)) v.push_back(v[0]);
        return v;
    };
    Pts u = side(1), v = side(-1);
    c.desc << "polygons: " << show(u) << "and " << show(v) << "\n";
    poly *p = toPoly(u), *q = toPoly(v);
    for (int k = s.range(1, 20); k > 0; --k) {
        double w = s.real(0.02, 0.98);
        Pt t = {A.x + w * (B.x - A.x), A.y + w * (B.y - A.y)};
        // a few ulps off
        for (int m = s.range(0, 3); m > 0; --m) t.x = nextafter(t.x, s.chance(1, 2) ? 1e300 : -1e300);
        for (int m = s.range(0, 3); m > 0; --m) t.y = nextafter(t.y, s.chance(1, 2) ? 1e300 : -1e300);
        t.x = std::min(std::max(t.x, std::min(A.x, B.x)), std::max(A.x, B.x));
        t.y = std::min(std::max(t.y, std::min(A.y, B.y)), std::max(A.y, B.y));
        c.desc << strf("(%.17g, %.17g) ", t.x, t.y);
        int a = poly_containspoint(p, t.x, t.y), b = poly_containspoint(q, t.x, t.y);
        CHECK(a || b, "point (%.17g, %.17g) at the common side belongs to neither polygon", t.x, t.y);
        c.label(a && b ? "both" : "one");
        c.nontrivial = true;
    }
    for (const Pt& t : {A, B})
        CHECK(poly_containspoint(p, t.x, t.y) && poly_containspoint(q, t.x, t.y), "an end of the common side does not belong to both polygons");
    poly_destroy(p);
    poly_destroy(q);
}

Property THE_PROPERTY = {"C12", "the polygon has three distinct vertices or more, and there are points inside (or on the outline) and outside; or the points are at a common side",
    {{"integer", exactCase, 80000, 2000000}, {"real", realCase, 40000, 1000000}, {"shared-side", sharedCase, 30000, 700000}, {"huge-integer", exactCase, 12, 600, -1}, {"huge-real", realCase, 12, 600, -1}},
    {"points at a distance comparable with the rounding of the coordinates from the outline may get either answer, apart from integer coordinates"}};
