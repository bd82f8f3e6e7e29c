// C20: statistics
#include "model.h"

struct Stats { long double mdo = 0, ado = 0, mar = 1, aar = 0, dx = 0, dy = 0; int n = 0; std::map<std::pair<int, int>, std::pair<long double, long double>> cell; };

static long double dev(long double ax, long double ay, long double bx, long double by)
{
    return fabsl(90 - atan2l(fabsl(ax * by - ay * bx), ax * bx + ay * by) * 180 / M_PIl);
}
static Stats modelStats(const Nodes& n)
{
    Stats S;
    for (int j = 0; j + 1 < n.ny; ++j)
        for (int i = 0; i + 1 < n.nx; ++i) {
            if (!n.cell(i, j)) continue;
            long double x[4], y[4], d[4], m = 0;
            const int di[] = {0, 1, 1, 0}, dj[] = {0, 0, 1, 1};
            for (int k = 0; k < 4; ++k) { x[k] = n.X(i + di[k], j + dj[k]); y[k] = n.Y(i + di[k], j + dj[k]); }
            for (int k = 0; k < 4; ++k) {
                int a = (k + 1) % 4, b = (k + 3) % 4;
                d[k] = dev(x[a] - x[k], y[a] - y[k], x[b] - x[k], y[b] - y[k]);
                m = std::max(m, d[k]);
                S.ado += d[k];
            }
            auto mid = [&](int a, int b, int e, int f) { return hypotl((x[a] + x[b]) / 2 - (x[e] + x[f]) / 2, (y[a] + y[b]) / 2 - (y[e] + y[f]) / 2); };
            long double l1 = mid(0, 3, 1, 2), l2 = mid(0, 1, 2, 3), ar = std::max(l1, l2) / std::min(l1, l2);
            auto len = [&](int a, int b) { return hypotl(x[a] - x[b], y[a] - y[b]); };
            S.dx += len(0, 1) + len(2, 3);
            S.dy += len(1, 2) + len(3, 0);
            S.mdo = std::max(S.mdo, m);
            S.mar = std::max(S.mar, ar);
            S.aar += ar;
            S.cell[{i, j}] = {m, ar};
            S.n++;
        }
    if (S.n) { S.ado /= 4 * S.n; S.aar /= S.n; S.dx /= 2 * S.n; S.dy /= 2 * S.n; }
    return S;
}

struct Printed { double mdo, ado, mar, aar, dx, dy; int i1, j1, i2, j2; std::string sdx, sdy; };
static bool parse(const std::string& err, Printed& p, bool& found)
{
    int got = 0;
    for (auto& l : lines(err)) {
        char a[64], b[64];
        if (sscanf(l.c_str(), "## maximum deviation from orthogonality = %lf deg, in cell (%d,%d)", &p.mdo, &p.i1, &p.j1) == 3) got |= 1;
        else if (sscanf(l.c_str(), "## mean deviation from orthogonality = %lf deg", &p.ado) == 1) got |= 2;
        else if (sscanf(l.c_str(), "## maximum aspect ratio = %lf, in cell (%d,%d)", &p.mar, &p.i2, &p.j2) == 3) got |= 4;
        else if (sscanf(l.c_str(), "## mean aspect ratio = %lf", &p.aar) == 1) got |= 8;
        else if (sscanf(l.c_str(), "## mean cell size = %60s x %60s", a, b) == 2) { got |= 16; p.sdx = a; p.sdy = b; p.dx = atof(a); p.dy = atof(b); }
    }
    found = got != 0;
    return got == 31;
}
static void near(const char* what, double got, long double want, double step, double tol)
{
    CHECK(fabsl(got - want) <= step / 2 + tol + 1e-12 * fabsl(want), "%s: %.10g is printed, %.10Lg is expected", what, got, want);
}
static double step3(double v) { return v > 0 ? pow(10.0, floor(log10(v) + 1e-9) - 2) : 0; }

// "err" is the relative error of the coordinates used by the program
static void judge(const Nodes& n, const Stats& S, const Printed& p, double err)
{
    if (!S.n) {
        CHECK(std::isnan(p.ado) && std::isnan(p.aar) && std::isnan(p.dx) && std::isnan(p.dy), "means are printed for a grid with no cells");
        CHECK(p.i1 == -1 && p.j1 == -1 && p.i2 == -1 && p.j2 == -1, "cells with the maxima are printed for a grid with no cells");
        return;
    }
    double ms = 1e300, xs = 0;
    for (auto& k : S.cell) {
        ms = std::min(ms, minSide(cellOf(n, k.first.first, k.first.second)));
        xs = std::max(xs, maxSide(cellOf(n, k.first.first, k.first.second)));
        Cell q = cellOf(n, k.first.first, k.first.second);
        ms = std::min(ms, minStretch(q));
    }
    double rel = err * maxAbs(n) / ms, ta = 2e-6 + 300 * rel, tr = rel * 10 * (double) S.mar + 1e-10 * (double) S.mar;
    near("maximum deviation from orthogonality", p.mdo, S.mdo, 1e-3, ta);
    near("mean deviation from orthogonality", p.ado, S.ado, 1e-3, ta);
    near("maximum aspect ratio", p.mar, S.mar, 1e-3, tr);
    near("mean aspect ratio", p.aar, S.aar, 1e-3, tr);
    near("mean cell size, i", p.dx, S.dx, step3((double) S.dx), 1e-9 * (double) S.dx + 4 * err * maxAbs(n));
    near("mean cell size, j", p.dy, S.dy, step3((double) S.dy), 1e-9 * (double) S.dy + 4 * err * maxAbs(n));
    auto at = [&](int i, int j, bool ar, long double max, double tol, long double zero, const char* what) {
        if (i == -1 && j == -1) {
            CHECK(max <= zero + tol, "no cell is given for the %s", what);
            return;
        }
        auto k = S.cell.find({i, j});
        CHECK(k != S.cell.end(), "%s is said to be in cell (%d,%d), which is not valid", what, i, j);
        long double v = ar ? k->second.second : k->second.first;
        CHECK(v >= max - tol, "%s is said to be in cell (%d,%d), which has %.10Lg rather than %.10Lg", what, i, j, v, max);
    };
    at(p.i1, p.j1, false, S.mdo, ta, 0, "maximum deviation from orthogonality");
    at(p.i2, p.j2, true, S.mar, tr + 1e-11 * (double) S.mar, 1, "maximum aspect ratio");
}

static void statsCase(Src& s, Ctx& c)
{
    GeomOpts o;
    o.exact = s.chance(1, 4);
    Nodes n;
    int n1, n2;
    genSize(s, n1, n2, s.chance(1, 20) ? 30 : 0);
    Geom g;
    n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
    if (s.chance(3, 4)) killPattern(s, c, n);
    Nodes v = modelValidateCO(n), in = n;
    NODETYPE ti = s.chance(1, 2) ? NT_COR : NT_DD, to = s.chance(2, 3) || ti == NT_COR ? ti : NT_COR;
    if (ti == NT_DD) {
        in = Nodes(2 * n1 + 1, 2 * n2 + 1);
        for (int j = 0; j <= n2; ++j)
            for (int i = 0; i <= n1; ++i) {
                in.X(2 * i, 2 * j) = n.X(i, j);
                in.Y(2 * i, 2 * j) = n.Y(i, j);
            }
        bool bare = s.chance(1, 3);             // the other nodes do not matter
        for (int j = 0; j < in.ny && !bare; ++j)
            for (int i = 0; i < in.nx; ++i)
                if (i % 2 || j % 2) { in.X(i, j) = i; in.Y(i, j) = (double) j * j; }
    }
    c.desc << "getnodes -v, " << nodetype2str[ti] << " to " << nodetype2str[to] << ":\n" << brief(in, 300);
    RunResult r = runSafe({tool("getnodes", s.chance(1, 8)), "-", "-v", "-i", tname(s, ti), "-o", tname(s, to)}, gridText(in));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Printed p;
    bool found;
    CHECK(parse(r.err, p, found), "the statistics are not printed:\n%s", r.err.c_str());
    Stats S = modelStats(v);
    judge(v, S, p, 1e-15);
    c.nontrivial = S.n > 1 && S.mdo > 0.01L && S.mar > 1.01L;
    c.label(nodetype2str[ti]);
    c.label(S.n == 0, "no-cells");
    c.label(S.n == 1, "one-cell");
}

// the same grid turned around, shifted, given the other way
static void sameCase(Src& s, Ctx& c)
{
    GeomOpts o;
    Nodes n;
    int n1, n2;
    genSize(s, n1, n2, 0);
    Geom g;
    o.scales = false;
    o.exact = true;
    n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
    if (s.chance(1, 2)) killPattern(s, c, n);
    n = modelValidateCO(n);
    Nodes m = n;
    // exact transformations
    int rot = s.range(0, 3), flip = s.range(0, 1), sx = s.range(-1000, 1000), sy = s.range(-1000, 1000);
    for (size_t k = 0; k < m.n(); ++k) {
        double x = m.x[k], y = m.y[k];
        for (int q = 0; q < rot; ++q) { double t = x; x = -y; y = t; }
        m.x[k] = (flip ? -x : x) + sx;
        m.y[k] = y + sy;
    }
    c.desc << strf("getnodes -v, turned by %d, %sshifted by (%d, %d):\n", 90 * rot, flip ? "reflected, " : "", sx, sy) << brief(n, 300);
    RunResult a = runSafe({tool("getnodes", false), "-", "-v", "-i", "co", "-o", "co"}, gridText(n)), b = runSafe({tool("getnodes", false), "-", "-v", "-i", "co", "-o", "dd"}, gridText(m));
    if (!topology(maskOf(n), n.nx, n.ny).disk()) {          // can not be converted in general
        b = runSafe({tool("getnodes", false), "-", "-v", "-i", "co", "-o", "co"}, gridText(m));
        c.label("not-converted");
    }
    CHECK(a.ok() && b.ok(), "exit codes %d, %d: %s", a.code, b.code, b.err.c_str());
    Printed p, q;
    bool f;
    CHECK(parse(a.err, p, f) && parse(b.err, q, f), "the statistics are not printed:\n%s%s", a.err.c_str(), b.err.c_str());
    Stats S = modelStats(n);
    if (S.n) {
        CHECK(fabs(p.mdo - q.mdo) <= 1.01e-3 && fabs(p.ado - q.ado) <= 1.01e-3 && fabs(p.mar - q.mar) <= 1.01e-3 && fabs(p.aar - q.aar) <= 1.01e-3, "the statistics are different:\n%s%s", a.err.c_str(), b.err.c_str());
        CHECK(fabs(p.dx - q.dx) <= 1.01 * step3(p.dx) && fabs(p.dy - q.dy) <= 1.01 * step3(p.dy), "the mean cell sizes are different:\n%s%s", a.err.c_str(), b.err.c_str());
    }
    judge(n, S, p, 1e-15);
    judge(m, modelStats(m), q, 1e-15);
    c.nontrivial = S.n > 1 && S.mdo > 0.01L;
}

// recovered from centre nodes: the statistics are those of the grid that is output
static void recoveredCase(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    GeomOpts o;
    o.scales = false;
    Geom g;
    Nodes n = genGeometry(s, c, n1, n2, o, g);
    if (s.chance(1, 2)) killPattern(s, c, n);
    bool dd = s.chance(1, 2);
    c.desc << "getnodes -v, centre nodes to " << (dd ? "double density" : "corner") << ":\n" << brief(n, 300);
    RunResult r = runSafe({tool("getnodes", s.chance(1, 8)), "-", "-v", "-i", "ce", "-o", dd ? "dd" : "co"}, gridText(n));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Printed p;
    bool f;
    CHECK(parse(r.err, p, f), "the statistics are not printed:\n%s", r.err.c_str());
    Nodes w;
    std::string why;
    CHECK(parseGrid(r.out, w, &why), "the output is not in the grid format: %s", why.c_str());
    if (dd) w = modelDD2CO(w);
    w = modelValidateCO(w);
    Stats S = modelStats(w);
    for (auto& k : S.cell)                      // extrapolated cells can be degenerate
        if (minStretch(cellOf(w, k.first.first, k.first.second)) < 1e-3)
            discard();
    judge(w, S, p, 1e-14);
    c.nontrivial = S.n > 1 && S.mdo > 0.01L;
    // and there are none for centre nodes
    r = runSafe({tool("getnodes", false), "-", "-v", "-i", "ce", "-o", "ce"}, gridText(n));
    CHECK(r.ok() && !parse(r.err, p, f) && !f, "exit code %d; statistics for centre nodes: %s", r.code, r.err.c_str());
}

Property THE_PROPERTY = {"C20", "there are cells with different angles (and aspect ratios)",
    {{"statistics", statsCase, 8000, 150000}, {"same-grid", sameCase, 1500, 30000}, {"recovered", recoveredCase, 1500, 30000}, {"huge-statistics", statsCase, 8, 400, 1}, {"huge-same-grid", sameCase, 8, 400, 1}, {"huge-recovered", recoveredCase, 8, 400, 1}},
    {"the cells are not degenerate"}};
