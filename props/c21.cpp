// C21: gridded bathymetry
#include "locate.h"
#include "model.h"
extern "C" {
#include "gridaverager.h"
}

struct Datum { double x, y, z; };

static std::string dataText(const std::vector<Datum>& D)
{
    std::string t;
    for (auto& d : D) t += strf("%.17g %.17g %.17g\n", d.x, d.y, d.z);
    return t;
}
static long double wave(long double v) { return v + 50 * sinl(v / 20); }    // see stubs/interp.c
static const double OFFSET[] = {4000, 1000, 0, 2000};

struct Opts { bool dd = false, mask = false, oneCell = false, clamp = false; int ci = 0, cj = 0; double zmin = -DBL_MAX, zmax = DBL_MAX; std::vector<int> m; };

static std::vector<std::string> genOpts(Src& s, Ctx& c, const Grid& G, Opts& o, double lo, double hi, std::string& stdinText, const std::string& data)
{
    std::vector<std::vector<std::string>> a;
    const Nodes& n = G.n;
    Nodes in = n;
    o.dd = s.chance(1, 2);
    if (o.dd) {
        in = Nodes(2 * n.nx - 1, 2 * n.ny - 1);
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i) { in.X(2 * i, 2 * j) = n.X(i, j); in.Y(2 * i, 2 * j) = n.Y(i, j); }
    }
    int si = s.weighted({3, 1, 1, 1});
    o.mask = s.chance(1, 3);
    if (si == 3 && !o.mask) si = 0;
    std::string mt;
    if (o.mask) {
        int p = s.range(1, 6);
        for (int k = 0; k < G.nce1() * G.nce2(); ++k) {
            o.m.push_back(!(s.draw(8) < (uint64_t) p));
            mt += o.m.back() ? "1\n" : "0\n";
        }
        a.push_back({"-m", si == 3 ? "-" : writeFile("m", mt)});
    }
    a.push_back({"-g", si == 1 ? "-" : writeFile("g", gridText(in))});
    a.push_back({"-b", si == 2 ? "-" : writeFile("b", data)});
    stdinText = si == 1 ? gridText(in) : si == 2 ? data : si == 3 ? mt : "";
    if (!o.dd || s.chance(1, 4)) a.push_back({"-i", tname(s, o.dd ? NT_DD : NT_COR)});
    o.clamp = s.chance(1, 2);
    if (o.clamp) {
        if (hi - lo < 1) hi = lo + 1;
        o.zmin = r15(lo + (hi - lo) * s.real(-0.1, 0.7));
        o.zmax = r15(o.zmin + (hi - lo) * s.real(0.01, 0.8));
        a.push_back({"-r", strf("%.15g", o.zmin), strf("%.15g", o.zmax)});
    }
    o.oneCell = s.chance(1, 5);
    if (o.oneCell) {
        o.ci = s.range(0, G.nce1() - 1);
        o.cj = s.range(0, G.nce2() - 1);
        a.push_back({"-c", spellInt(s, o.ci), spellInt(s, o.cj)});
    }
    if (s.chance(1, 8)) a.push_back({"-v"});
    // in any order
    for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[s.draw(k)]);
    std::vector<std::string> r = {tool("gridbathy", s.chance(1, 8))};
    for (auto& v : a) r.insert(r.end(), v.begin(), v.end());
    c.label(o.dd ? "dd" : "co");
    c.label(o.mask, "mask");
    c.label(o.clamp, "depth-range");
    c.label(o.oneCell, "one-cell");
    return r;
}

static void judge(const Grid& G, const Opts& o, const std::string& out, const std::function<bool(int, int, long double&, long double&)>& want, int& nval, int& nnan)
{
    std::vector<std::string> L = lines(out);
    size_t n = o.oneCell ? 1 : (size_t) G.nce1() * G.nce2();
    CHECK(L.size() == n, "%zu lines are printed for %zu cells", L.size(), n);
    size_t k = 0;
    for (int j = 0; j < G.nce2(); ++j)
        for (int i = 0; i < G.nce1(); ++i) {
            if (o.oneCell && (i != o.ci || j != o.cj)) continue;
            const std::string& l = L[k++];
            long double w = 0, tol = 0;
            bool ok = G.n.cell(i, j) && !(o.mask && !o.m[j * G.nce1() + i]) && want(i, j, w, tol);
            if (!ok) {
                CHECK(l == "NaN", "cell (%d,%d): \"%s\" instead of NaN", i, j, l.c_str());
                nnan++;
            } else {
                char* e;
                double v = strtod(l.c_str(), &e);
                CHECK(e != l.c_str() && !*e && fabsl(v - w) <= 0.0050001L + tol, "cell (%d,%d): \"%s\" instead of %.4Lf", i, j, l.c_str(), w);
                nval++;
            }
        }
}

static void interpCase(Src& s, Ctx& c)
{
    GeomOpts go;
    Grid G = genGrid(s, c, go, 0);
    G.n = rounded15(G.n);
    Locator L(G.n);
    int rule = s.range(0, 3), n = s.chance(1, 4) ? 0 : s.range(1, 10);
    bool ix = s.chance(1, 2);
    int ppe = n ? n : 3;
    // data: in valid cells, and in physical space anywhere
    int nd = s.range(4, 40);
    double a = s.real(-100, 100), bx = s.real(-60, 60), by = s.real(-60, 60);
    double X = ix ? 0 : L.x0, Y = ix ? 0 : L.y0, SX = ix ? std::max(1, G.nce1()) : L.x1 - L.x0, SY = ix ? std::max(1, G.nce2()) : L.y1 - L.y0;
    bx /= SX; by /= SY;
    auto plane = [&](long double x, long double y) { return a + bx * (x - X) + by * (y - Y); };
    std::vector<Datum> D;
    double px0 = 1e300, px1 = -1e300, py0 = 1e300, py1 = -1e300;
    std::vector<std::pair<double, double>> used;
    int nout = 0;
    bool wide = s.chance(1, 2);                 // try to cover the grid
    for (int k = 0; k < nd; ++k) {
        auto q = G.cells[s.draw(G.cells.size())];
        if (wide && k < 8) q = k % 2 ? G.cells[(size_t) k * (G.cells.size() - 1) / 7] : G.cells[(size_t) (7 - k) * (G.cells.size() - 1) / 7];
        double u = s.real(0.02, 0.98), v = s.real(0.02, 0.98);
        long double x, y;
        bilin(cellOf(G.n, q.first, q.second), u, v, x, y);
        Datum d{(double) x, (double) y, 0};
        bool in = true;
        if (s.chance(1, 5)) {                   // elsewhere
            d.x = L.x0 + s.real(-0.3, 1.3) * (L.x1 - L.x0);
            d.y = L.y0 + s.real(-0.3, 1.3) * (L.y1 - L.y0);
            if (ix) {
                in = false;
                if (L.outerDist(d.x, d.y) < 1e-6 * G.g.h || !L.containing(d.x, d.y, 0).empty()) continue;
            }
        }
        double ux = ix ? q.first + u : d.x, uy = ix ? q.second + v : d.y;
        if (in) {
            d.z = plane(ux, uy);
            px0 = std::min(px0, ux); px1 = std::max(px1, ux);
            py0 = std::min(py0, uy); py1 = std::max(py1, uy);
            used.push_back({ux, uy});
        } else {
            d.z = 1e4;                          // must not be used
            nout++;
        }
        D.push_back(d);
    }
    // the plane has to be determined by the data
    long double mx = 0, my = 0, sxx = 0, sxy = 0, syy = 0;
    for (auto& u : used) { mx += u.first / used.size(); my += u.second / used.size(); }
    for (auto& u : used) { long double dx = (u.first - mx) / SX, dy = (u.second - my) / SY; sxx += dx * dx; sxy += dx * dy; syy += dy * dy; }
    if (D.size() < 3 || used.size() < 3 || sxx * syy - sxy * sxy < 1e-3 * sxx * syy || sxx < 1e-4 || syy < 1e-4) discard();
    // the accuracy with which the indices of the data are known
    double tiny = 1e300;
    for (auto& q : G.cells) tiny = std::min(tiny, minStretch(cellOf(G.n, q.first, q.second)));
    if (1e-13 * (G.g.M + L.extent()) / tiny > 1e-9) discard();
    // values at the points of the cells
    auto value = [&](int i, int j, int p, int q, bool& ok) {
        long double fi = i + (p + 0.5L) / ppe, fj = j + (q + 0.5L) / ppe, x = fi, y = fj;
        if (!ix) bilin(cellOf(G.n, i, j), fi - i, fj - j, x, y);
        if (rule) {
            long double ex = 1e-7L * (px1 - px0), ey = 1e-7L * (py1 - py0);
            if (fabsl(x - px0) < ex || fabsl(x - px1) < ex || fabsl(y - py0) < ey || fabsl(y - py1) < ey) discard();
            ok = x > px0 && x < px1 && y > py0 && y < py1;
        } else ok = true;
        return wave(plane(x, y)) + OFFSET[rule];
    };
    double lo = 1e300, hi = -1e300;
    int nundef = 0;
    for (auto& q : G.cells)
        for (int k = 0; k < ppe * ppe; ++k) {
            bool ok;
            long double v = value(q.first, q.second, k % ppe, k / ppe, ok);
            if (ok) { lo = std::min(lo, (double) v); hi = std::max(hi, (double) v); }
            else nundef++;
        }
    if (lo > hi) { lo = -1; hi = 1; }
    Opts o;
    std::string in;
    std::vector<std::string> av = genOpts(s, c, G, o, lo, hi, in, dataText(D));
    if (rule || s.chance(1, 2)) av.insert(av.end(), {"-a", strf("%d", rule)});
    if (n) av.insert(av.end(), {"-n", spellInt(s, n)});
    if (ix) av.push_back("-x");
    c.desc << "gridbathy";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " " << av[k];
    c.desc << "\n" << brief(G.n, 200) << "data:\n" << dataText(D);
    c.label(strf("rule-%d", rule));
    c.label(ix, "index-space");
    c.label(nundef > 0, "undefined-values");
    c.label(nout > 0, "data-outside-grid");
    RunResult r = runSafe(av, in);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    int nval = 0, nnan = 0, npart = 0;
    judge(G, o, r.out, [&](int i, int j, long double& w, long double& tol) {
        int m = 0;
        for (int k = 0; k < ppe * ppe; ++k) {
            bool ok;
            long double v = value(i, j, k % ppe, k / ppe, ok);
            if (!ok) continue;
            w += std::min((long double) o.zmax, std::max((long double) o.zmin, v));
            m++;
        }
        tol = 1e-4;
        if (!m) return false;
        w /= m;
        npart += m < ppe * ppe;
        return true;
    }, nval, nnan);
    c.nontrivial = nval > 1 && hi - lo > 1;
    c.label(npart > 0, "partly-defined-cell");
    c.label(nval && nnan, "values-and-NaNs");
}

static std::vector<Datum> averageData(Src& s, const Grid& G, const Locator& L, std::map<std::pair<int, int>, std::pair<long double, int>>& mean, int& nout)
{
    std::vector<Datum> D;
    int nd = HUGE_MODE < 0 ? hugeLength(s, 90000) : s.range(3, 60);
    bool few = s.chance(1, 2);
    int nfew = HUGE_MODE < 0 ? 1 : 3;           // (so that the number of data of a cell can exceed 65535)
    for (int k = 0; k < nd; ++k) {
        double z = s.range(-100, 100) + s.range(0, 4) / 4.0;
        if (s.chance(1, HUGE_MODE < 0 && few ? 64 : 4)) {
            double x = L.x0 + s.real(-0.3, 1.3) * (L.x1 - L.x0), y = L.y0 + s.real(-0.3, 1.3) * (L.y1 - L.y0);
            if (L.outerDist(x, y) < 1e-6 * G.g.h || !L.containing(x, y, 1e-9 * G.g.h).empty()) continue;
            D.push_back({x, y, z});
            nout++;
            continue;
        }
        auto q = G.cells[s.draw(few ? std::min<size_t>(nfew, G.cells.size()) : G.cells.size())];
        long double x, y;
        bilin(cellOf(G.n, q.first, q.second), s.real(0.02, 0.98), s.real(0.02, 0.98), x, y);
        D.push_back({(double) x, (double) y, z});
        auto& m = mean[q];
        m.first += z;
        m.second++;
    }
    return D;
}

static void averageCase(Src& s, Ctx& c)
{
    GeomOpts go;
    Grid G = genGrid(s, c, go, 0);
    G.n = rounded15(G.n);
    Locator L(G.n);
    std::map<std::pair<int, int>, std::pair<long double, int>> mean;
    int nout = 0;
    std::vector<Datum> D = averageData(s, G, L, mean, nout);
    if (D.size() < 3) discard();
    Opts o;
    std::string in;
    std::vector<std::string> av = genOpts(s, c, G, o, -60, 60, in, dataText(D));
    av.insert(av.end(), {"-a", "4"});
    if (s.chance(1, 4)) av.push_back("-x");
    if (s.chance(1, 4)) av.insert(av.end(), {"-n", strf("%d", s.range(1, 10))});
    c.desc << "gridbathy";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " " << av[k];
    c.desc << "\n" << brief(G.n, 200) << "data:\n" << dataText(D);
    RunResult r = runSafe(av, in);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    int nval = 0, nnan = 0;
    bool several = false;
    judge(G, o, r.out, [&](int i, int j, long double& w, long double& tol) {
        auto m = mean.find({i, j});
        tol = 1e-9;
        if (m == mean.end()) return false;
        w = m->second.first / m->second.second;
        w = std::min((long double) o.zmax, std::max((long double) o.zmin, w));
        several = several || m->second.second > 1;
        return true;
    }, nval, nnan);
    c.nontrivial = nval && several;
    c.label(nout > 0, "data-outside-grid");
}

// the averager itself
static void averagerCase(Src& s, Ctx& c)
{
    GeomOpts go;
    Grid G = genGrid(s, c, go, 0);
    Locator L(G.n);
    std::map<std::pair<int, int>, std::pair<long double, int>> mean;
    int nout = 0, type = s.range(0, 1), nq = s.range(1, 20), nin = 0;
    std::vector<Datum> D = averageData(s, G, L, mean, nout);
    c.desc << "gridaverager, " << (type ? "kd-tree map\n" : "binary map\n") << brief(G.n, 200) << "data:\n" << dataText(D);
    CNodes A(G.n);
    gridmap* gm = gridmap_build(G.nce1(), G.nce2(), A.gx, A.gy, type);
    gridaverager* ga = ga_create(gm);
    std::vector<point> p;
    for (auto& d : D) p.push_back({d.x, d.y, d.z});
    for (size_t k = 0; k < p.size();) {         // in portions
        size_t m = 1 + s.draw(p.size() - k);
        ga_addpoints(ga, m, &p[k]);
        k += m;
    }
    for (; nq > 0; --nq) {
        auto q = G.cells[s.draw(G.cells.size())];
        if (!mean.empty() && s.chance(1, 2)) { auto it = mean.begin(); std::advance(it, s.draw(mean.size())); q = it->first; }
        long double x, y;
        bilin(cellOf(G.n, q.first, q.second), s.real(0.02, 0.98), s.real(0.02, 0.98), x, y);
        point t{(double) x, (double) y, 12345};
        bool in = true;
        if (s.chance(1, 5)) {
            t.x = L.x0 + s.real(-0.3, 1.3) * (L.x1 - L.x0);
            t.y = L.y0 + s.real(-0.3, 1.3) * (L.y1 - L.y0);
            if (L.outerDist(t.x, t.y) < 1e-6 * G.g.h || !L.containing(t.x, t.y, 1e-9 * G.g.h).empty()) continue;
            in = false;
        }
        c.desc << strf("value at (%.17g, %.17g)\n", t.x, t.y);
        ga_getvalue(ga, &t);
        auto m = mean.find(q);
        if (!in || m == mean.end()) CHECK(std::isnan(t.z), "value at a point %s is %g", in ? "in a cell without data" : "outside the grid", t.z);
        else {
            long double w = m->second.first / m->second.second;
            CHECK(fabsl(t.z - w) <= 1e-9, "value in cell (%d,%d) is %.15g instead of %.15Lg", q.first, q.second, t.z, w);
            nin++;
        }
    }
    ga_destroy(ga);
    gridmap_destroy(gm);
    c.nontrivial = nin > 0;
}

static void errorCase(Src& s, Ctx& c)
{
    GeomOpts go;
    go.exact = true;
    Grid G = genGrid(s, c, go, 0);
    std::string data = "0 0 1\n1 0 2\n0 1 3\n1 1 4\n", g = writeFile("g", gridText(G.n)), b = writeFile("b", data), few = writeFile("few", "0 0 1\n1 0 2\n");
    struct E { const char* what; std::vector<std::string> a; };
    std::string n1 = strf("%d", G.nce1() + s.range(0, 2)), n2 = strf("%d", G.nce2() + s.range(0, 2));
    std::vector<E> e = {
        {"no data file", {"-g", g, "-i", "co"}}, {"no grid file", {"-b", b, "-i", "co"}}, {"absent data file", {"-b", b + "x", "-g", g, "-i", "co"}}, {"absent grid file", {"-b", b, "-g", g + "x", "-i", "co"}},
        {"no points", {"-b", b, "-g", g, "-i", "co", "-n", "0"}}, {"too many points", {"-b", b, "-g", g, "-i", "co", "-n", "11"}}, {"negative points", {"-b", b, "-g", g, "-i", "co", "-n", "-1"}}, {"not a number of points", {"-b", b, "-g", g, "-i", "co", "-n", "x"}},
        {"empty depth range", {"-b", b, "-g", g, "-i", "co", "-r", "5", "4"}}, {"depth range of zero length", {"-b", b, "-g", g, "-i", "co", "-r", "5", "5"}}, {"not a depth range", {"-b", b, "-g", g, "-i", "co", "-r", "a", "4"}},
        {"centre nodes", {"-b", b, "-g", g, "-i", "ce"}}, {"unknown node type", {"-b", b, "-g", g, "-i", "xx"}}, {"cell outside the grid", {"-b", b, "-g", g, "-i", "co", "-c", n1, "0"}}, {"cell outside the grid", {"-b", b, "-g", g, "-i", "co", "-c", "0", n2}},
        {"too few data", {"-b", few, "-g", g, "-i", "co"}}, {"unknown rule", {"-b", b, "-g", g, "-i", "co", "-a", "5"}}, {"unknown rule", {"-b", b, "-g", g, "-i", "co", "-a", "-1"}}, {"short mask", {"-b", b, "-g", g, "-i", "co", "-m", few}},
        {"missing value", {"-b", b, "-g", g, "-i", "co", "-n"}}, {"missing value", {"-b", b, "-g", g, "-i", "co", "-r", "1"}}, {"missing value", {"-b", b, "-g", g, "-i"}},
    };
    auto& q = e[s.draw(e.size())];
    c.desc << "gridbathy";
    for (auto& a : q.a) c.desc << " " << a;
    c.desc << "\n" << brief(G.n, 200);
    c.label(q.what);
    std::vector<std::string> av = {tool("gridbathy", s.chance(1, 8))};
    av.insert(av.end(), q.a.begin(), q.a.end());
    RunResult r = runSafe(av);
    CHECK(r.code != 0 && r.out.empty() && !r.err.empty(), "%s: exit code %d, \"%.200s\"", q.what, r.code, r.out.c_str());
    c.nontrivial = true;
}

Property THE_PROPERTY = {"C21", "several cells get different values (averaging: some cell has several data points; averager: some value is queried in a cell with data; errors: any)",
    {{"interpolation", interpCase, 6000, 100000}, {"averaging", averageCase, 3000, 60000}, {"averager", averagerCase, 6000, 150000}, {"errors", errorCase, 600, 6000}, {"huge-interpolation", interpCase, 20, 600, 2000}, {"long-averaging", averageCase, 12, 500, -1}, {"long-averager", averagerCase, 12, 500, -1}, {"huge-averaging", averageCase, 8, 400, 2000}},
    {"libnn and libcsa are replaced by stand-ins (stubs/interp.c) as they are not available", "data points are not within rounding of cell sides", "in index space at least three data points are in the grid"}};
