// C23: conversion of streams of points
#include "locate.h"
#include "model.h"

struct Line { std::string text; bool point = false; double a = 0, b = 0; std::string rem; };

static std::string numText(Src& s, double v)
{
    static const char* F[] = {"%.17g", "%.6f", "%.15g", "%.3e", "%+.17g", "%20.10f"};
    if (std::isnan(v)) return s.chance(1, 2) ? "NaN" : "-nan";
    if (std::isinf(v)) return v > 0 ? "inf" : "-Infinity";
    int k = s.draw(6);
    if (fabs(v) > 1e200 && (k == 1 || k == 5)) k = 0;
    return strf(F[k], v);
}

static Line otherLine(Src& s)
{
    static const char* T[] = {"", "# 1 2", " ", "\t", "1", "x 1 2", "1 x", "# comment", "1,2", "--", "%s %d %n", "e1 2", "NaN", ". 5", "\r", "  # 3 4", "1 ", "+ 1", "## 3 x 3", "\xff\xfe\x80"};
    Line l;
    switch (s.weighted({8, 1, 1})) {
    case 0: l.text = T[s.draw(20)]; break;
    case 1: l.text = "#" + (s.chance(1, 2) ? longTail(s, 1) : std::string(s.range(1, 9000), 'c')); break;
    default:
        for (int k = s.range(0, 30); k > 0; --k) l.text += (char) (s.draw(2) ? 33 + s.draw(94) : 1 + s.draw(255));
        for (auto& ch : l.text) if (ch == '\n') ch = '#';
        l.text = "#" + l.text;
    }
    return l;
}
static Line pointLine(Src& s, double a, double b)
{
    static const char* SEP[] = {" ", "  ", "\t", " \t "};
    static const char* R[] = {"", "", " 5.25", " text", "\t-3", "   a b  c ", " ", "abc", ",1", " %s", " # 1 2", "\r", " 1 2 3 4 5", " 5\r", " a\rb \t", " \x01\xff\xc3", " a\v\f b"};
    Line l;
    l.point = true;
    std::string x = numText(s, a), y = numText(s, b), r = R[s.draw(17)];
    if (s.chance(1, 12)) r = " " + std::string(s.range(1, 9000), 'r') + (s.chance(1, 2) ? " e" : "");
    // what follows the number directly must not continue it
    if (!r.empty() && !isspace((unsigned char) r[0]) && (y.find_first_not_of("0123456789.-+ ") != std::string::npos && y.find('e') == std::string::npos)) r = " " + r;
    std::string lead = s.chance(1, 5) ? SEP[s.draw(4)] : "", sep = SEP[s.draw(4)];
    if (s.chance(1, 60)) r = longTail(s, lead.size() + x.size() + sep.size() + y.size());
    l.text = lead + x + sep + y + r;
    l.a = strtod(x.c_str(), nullptr);
    l.b = strtod(y.c_str(), nullptr);
    size_t k = r.find_first_not_of(" \t\r\v\f");
    l.rem = k == std::string::npos ? "" : r.substr(k);
    return l;
}

struct Setup {
    Grid G;
    Nodes file;
    bool dd, kd, rev;
    std::vector<std::string> av;
    std::string gridin;         // grid, if read from the standard input
};
static void genSetup(Src& s, Ctx& c, Setup& S, bool gridStdin)
{
    GeomOpts o;
    S.G = genGrid(s, c, o, 0);
    S.dd = s.chance(1, 2);
    S.kd = s.chance(1, 3);
    S.rev = s.chance(1, 2);
    S.G.n = rounded15(S.G.n);
    const Nodes& n = S.G.n;
    S.file = n;
    if (S.dd) {
        S.file = Nodes(2 * n.nx - 1, 2 * n.ny - 1);
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i) { S.file.X(2 * i, 2 * j) = n.X(i, j); S.file.Y(2 * i, 2 * j) = n.Y(i, j); }
    }
    std::vector<std::vector<std::string>> a;
    if (!S.dd || s.chance(1, 3)) a.push_back({"-i", tname(s, S.dd ? NT_DD : NT_COR)});
    if (S.kd) a.push_back({"-k"});
    if (S.rev) a.push_back({"-r"});
    if (s.chance(1, 8)) a.push_back({"-v"});
    bool gs = gridStdin && s.chance(1, 4);
    if (gs) S.gridin = gridText(S.file);
    a.push_back({"-g", gs ? (s.chance(1, 2) ? "-" : "stdin") : writeFile("g", gridText(S.file))});
    for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[s.draw(k)]);
    S.av = {tool("xy2ij", s.chance(1, 8))};
    for (auto& v : a) S.av.insert(S.av.end(), v.begin(), v.end());
    c.label(S.dd ? "dd" : "co");
    c.label(S.kd ? "kd-tree" : "binary-tree");
    c.label(S.rev ? "index-to-physical" : "physical-to-index");
}

static void streamCase(Src& s, Ctx& c)
{
    Setup S;
    genSetup(s, c, S, true);
    const Nodes& n = S.G.n;
    Locator L(n);
    bool force = !s.chance(1, 3);
    int nl = HUGE_MODE < 0 ? hugeLength(s, 50000) : s.range(0, 25), mix = s.range(0, 3), npoint = 0, nother = 0, nbad = 0, nstop = 0;
    std::vector<Line> P;
    for (int k = 0; k < nl; ++k) {
        if (s.draw(8) < (uint64_t) mix) { P.push_back(otherLine(s)); continue; }
        double x, y;
        const char* kind;
        if (s.chance(1, 30)) { static const double Z[] = {QNAN, INFINITY, -INFINITY, 1e300, 0}; x = Z[s.draw(5)]; y = Z[s.draw(5)]; }
        else if (S.rev) {
            auto q = S.G.cells[s.draw(S.G.cells.size())];
            switch (s.weighted({6, 2, 1, force ? 2 : 0})) {
            case 0: x = q.first + s.unit(); y = q.second + s.unit(); break;
            case 1: x = q.first + (int) s.draw(3) / 2.0; y = q.second + (int) s.draw(3) / 2.0; break;
            case 2: x = s.real(0, S.G.nce1()); y = s.real(0, S.G.nce2()); break;
            default: x = s.real(-1, S.G.nce1() + 1); y = s.real(-1, S.G.nce2() + 1);
            }
        } else if (force || s.chance(1, 20)) genPoint(s, L, S.G.g.h, x, y, &kind);
        else {
            auto q = S.G.cells[s.draw(S.G.cells.size())];
            long double lx, ly;
            bilin(cellOf(n, q.first, q.second), s.real(0.02, 0.98), s.real(0.02, 0.98), lx, ly);
            x = lx; y = ly;
        }
        P.push_back(pointLine(s, x, y));
    }
    std::string txt, want;
    CNodes A(n);
    c.desc << "xy2ij";
    for (auto& l : P) txt += l.text + (&l == &P.back() && !l.text.empty() && s.chance(1, 4) ? "" : "\n");
    bool st = S.gridin.empty() && s.chance(1, 2);
    if (!S.gridin.empty()) c.label("grid-from-stdin");
    std::vector<std::string> av = S.av;
    if (force) av.insert(av.begin() + 1, "-f");
    if (s.chance(1, 2)) av.insert(av.end(), {"-o", st ? (s.chance(1, 2) ? "-" : "stdin") : writeFile("p", txt)});
    else av.insert(av.begin() + 1, {"-o", st ? (s.chance(1, 2) ? "-" : "stdin") : writeFile("p", txt)});
    for (size_t k = 1; k < av.size(); ++k) c.desc << " " << av[k];
    c.desc << "\n" << brief(n, 200) << "points:\n" << (txt.size() > 3000 ? txt.substr(0, 3000) + "..." : txt);
    gridmap* gm = gridmap_build(S.G.nce1(), S.G.nce2(), A.gx, A.gy, S.kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    for (size_t k = 0; k < P.size(); ++k) {
        const Line& l = P[k];
        if (!l.point) {
            want += l.text + (k + 1 == P.size() && txt.back() != '\n' ? "" : "\n");
            nother++;
            continue;
        }
        double u, v;
        int ok = (S.rev ? gridmap_fij2xy : gridmap_xy2fij)(gm, l.a, l.b, &u, &v);
        if (!ok && !force) { nstop = 1; break; }
        bool nan = !ok || std::isnan(u);
        want += (nan ? "NaN NaN " : strf("%.15g %.15g ", u, v)) + l.rem + "\n";
        nbad += nan;
        npoint += !nan;
    }
    gridmap_destroy(gm);
    RunResult r = runSafe(av, S.gridin.empty() ? st ? txt : "" : S.gridin);
    if (nstop) CHECK(r.code > 0 && !r.err.empty(), "exit code %d for a point that can not be converted", r.code);
    else CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    CHECK(r.out == want, "the output is\n%.4000s\ninstead of\n%.4000s", r.out.c_str(), want.c_str());
    c.nontrivial = npoint > 0 && (nother > 0 || nbad > 0 || nstop);
    c.label(nstop, "stopped");
    c.label(nbad > 0, "points-not-converted");
    c.label(nother > 0, "other-lines");
    c.label(force, "forced");
}

// the mapping from the geometry alone: known indices there and back
static void knownCase(Src& s, Ctx& c)
{
    Setup S;
    genSetup(s, c, S, false);
    const Nodes& n = S.G.n;
    double tiny = 1e300;
    for (auto& q : S.G.cells) tiny = std::min(tiny, minStretch(cellOf(n, q.first, q.second)));
    double M = S.G.g.M;
    if (1e-12 * M > 1e-5 * tiny) discard();
    std::vector<long double> W;
    std::string txt;
    int np = s.range(1, 20);
    for (int k = 0; k < np; ++k) {
        auto q = S.G.cells[s.draw(S.G.cells.size())];
        double u = s.real(0.02, 0.98), v = s.real(0.02, 0.98);
        long double x, y;
        bilin(cellOf(n, q.first, q.second), u, v, x, y);
        if (S.rev) { txt += strf("%.17g %.17g %d\n", q.first + u, q.second + v, k); W.push_back(x); W.push_back(y); }
        else { txt += strf("%.17Lg %.17Lg %d\n", x, y, k); W.push_back(q.first + u); W.push_back(q.second + v); }
    }
    std::vector<std::string> av = S.av;
    av.insert(av.end(), {"-o", "-"});
    if (s.chance(1, 2)) av.push_back("-f");
    c.desc << "xy2ij";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " " << av[k];
    c.desc << "\n" << brief(n, 200) << "points:\n" << txt;
    RunResult r = runSafe(av, txt);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::vector<std::string> O = lines(r.out);
    CHECK((int) O.size() == np, "%zu lines for %d points", O.size(), np);
    long double tol = S.rev ? 1e-13L * M + 1e-300L : 1e-9L + 1e-13L * M / tiny * 1e2L;
    for (int k = 0; k < np; ++k) {
        double a, b;
        int id = -1;
        CHECK(sscanf(O[k].c_str(), "%lf %lf %d", &a, &b, &id) == 3 && id == k && fabsl(a - W[2 * k]) <= tol && fabsl(b - W[2 * k + 1]) <= tol, "line %d is \"%s\" instead of %.15Lg %.15Lg", k, O[k].c_str(), W[2 * k], W[2 * k + 1]);
    }
    c.nontrivial = np > 1;
}

static void errorCase(Src& s, Ctx& c)
{
    GeomOpts go;
    go.exact = true;
    Grid G = genGrid(s, c, go, 0);
    std::string g = writeFile("g", gridText(G.n)), p = writeFile("p", ""), gt = gridText(G.n), e = writeFile("short", gt.substr(0, gt.rfind('\n', gt.size() - 2) + 1));
    struct E { const char* what; std::vector<std::string> a; };
    std::vector<E> v = {{"absent grid file", {"-g", g + "x", "-i", "co", "-o", p}}, {"absent point file", {"-g", g, "-i", "co", "-o", p + "x"}}, {"centre nodes", {"-g", g, "-i", "ce", "-o", p}}, {"unknown node type", {"-g", g, "-i", "xx", "-o", p}},
        {"missing node type", {"-g", g, "-o", p, "-i"}}, {"empty grid file", {"-g", p, "-i", "co", "-o", g}}};
    v.push_back({"short grid file", {"-g", e, "-i", "co", "-o", p}});
    auto& q = v[s.draw(v.size())];
    c.desc << "xy2ij";
    for (auto& a : q.a) c.desc << " " << a;
    c.desc << "\n" << brief(G.n, 200);
    c.label(q.what);
    std::vector<std::string> av = {tool("xy2ij", s.chance(1, 8))};
    av.insert(av.end(), q.a.begin(), q.a.end());
    for (const char* o : {"-f", "-k", "-r"}) if (s.chance(1, 3)) av.insert(av.begin() + 1, o);
    RunResult r = runSafe(av);
    CHECK(r.code > 0 && !r.err.empty(), "%s: exit code %d", q.what, r.code);
    c.nontrivial = true;
}

Property THE_PROPERTY = {"C23", "the stream has points that are converted and other lines or points that are not (known: several points; errors: any)",
    {{"stream", streamCase, 8000, 150000}, {"known-indices", knownCase, 4000, 60000}, {"errors", errorCase, 600, 6000}, {"long-stream", streamCase, 12, 500, -1}, {"huge-stream", streamCase, 8, 400, 1}, {"huge-known-indices", knownCase, 8, 400, 1}},
    {"lines have no zero bytes", "grids are topological disks of convex cells"}};
