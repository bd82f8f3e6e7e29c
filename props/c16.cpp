// C16: subgrids
#include "model.h"

static Nodes arbitrary(Src& s, Ctx& c, int& t)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    t = s.range(0, 3);
    int nx = t == NT_DD ? 2 * n1 + 1 : n1 + 1, ny = t == NT_DD ? 2 * n2 + 1 : n2 + 1;
    if (t != NT_DD && s.chance(1, 6)) nx = 1;
    if (t != NT_DD && s.chance(1, 6)) ny = 1;
    Nodes n(nx, ny);
    uint64_t seed = s.draw(1000);
    for (size_t k = 0; k < n.n(); ++k) {
        n.x[k] = r15(100 * noise(seed, 2 * k));
        n.y[k] = r15(1e6 * noise(seed, 2 * k + 1));
    }
    killPattern(s, c, n);
    return n;
}

static void genRange(Src& s, Ctx& c, int n, int& lo, int& hi)
{
    switch (s.weighted({4, 2, 2, 2, 1, 1})) {
    case 0: lo = s.range(0, n - 1); hi = s.range(lo, n - 1); break;
    case 1: lo = s.range(-3, n - 1); hi = s.range(std::max(lo, 0), n + 3); break;
    case 2: lo = hi = s.range(0, n - 1); break;
    case 3: lo = 0; hi = n - 1; if (s.chance(1, 2)) { lo = INT32_MIN; hi = INT32_MAX; } break;
    case 4: lo = s.range(-3, n + 3); hi = s.range(-3, n + 3); c.label("arbitrary-range"); break;
    default:
        if (s.chance(1, 2)) { lo = n + s.range(0, 2); hi = n + s.range(0, 5); }
        else { lo = s.range(-5, 0); hi = -s.range(1, 2); }
    }
}
// false if there are no nodes in the range
static bool slice(const Nodes& n, int a, int b, int e, int d, Nodes& r)
{
    a = std::max(a, 0); b = std::min(b, n.nx - 1); e = std::max(e, 0); d = std::min(d, n.ny - 1);
    if (a > b || e > d) return false;
    r = Nodes(b - a + 1, d - e + 1);
    for (int j = e; j <= d; ++j)
        for (int i = a; i <= b; ++i) {
            r.X(i - a, j - e) = n.X(i, j);
            r.Y(i - a, j - e) = n.Y(i, j);
        }
    return true;
}

static void libCase(Src& s, Ctx& c)
{
    int t;
    Nodes n = arbitrary(s, c, t), w;
    int a, b, e, d;
    genRange(s, c, n.nx, a, b);
    genRange(s, c, n.ny, e, d);
    int mt = s.range(0, 1);
    c.desc << strf("gridnodes_subgrid(%d, %d, %d, %d) of %s nodes:\n", a, b, e, d, nodetype2str[t]) << brief(n, 400);
    gridnodes* g = toGridnodes(n, (NODETYPE) t);
    gridnodes_setmaptype(g, mt);
    bool ok = slice(n, a, b, e, d, w);
    gridnodes* r = nullptr;
    try { r = gridnodes_subgrid(g, a, b, e, d); } catch (Quit& q) {
        CHECK(!ok, "\"%s\" for a range with %d x %d nodes", q.msg.c_str(), w.nx, w.ny);
        c.label("empty-range");
        c.nontrivial = n.n() > 4;
        gridnodes_destroy(g);
        return;
    }
    CHECK(ok, "a range with no nodes gave a %d x %d grid", gridnodes_getnx(r), gridnodes_getny(r));
    std::string q = diffNodes(fromGridnodes(r), w, 0);
    CHECK(q == "", "%s", q.c_str());
    try {                                       // the type is seen in the number of cells
        int n1 = gridnodes_getnce1(r), w1 = t == NT_DD ? (w.nx - 1) / 2 : t == NT_COR ? w.nx - 1 : t == NT_CEN ? w.nx : -1;
        CHECK(n1 == w1, "%d cells in %d nodes: the type is not \"%s\"", n1, w.nx, nodetype2str[t]);
    } catch (Quit&) { CHECK(t == NT_NONE, "the type is lost"); }
    CHECK(gridnodes_getmaptype(r) == mt, "map type is %d instead of %d", gridnodes_getmaptype(r), mt);
    q = diffNodes(fromGridnodes(g), n, 0);
    CHECK(q == "", "the source grid is changed: %s", q.c_str());
    if (s.chance(1, 2)) {                       // subgrid of the subgrid
        int a2, b2, e2, d2;
        genRange(s, c, w.nx, a2, b2);
        genRange(s, c, w.ny, e2, d2);
        Nodes w2;
        if (slice(w, a2, b2, e2, d2, w2)) {
            c.desc << strf("then (%d, %d, %d, %d)\n", a2, b2, e2, d2);
            gridnodes* r2 = gridnodes_subgrid(r, a2, b2, e2, d2);
            int a0 = std::max(a, 0), e0 = std::max(e, 0);
            gridnodes* r3 = gridnodes_subgrid(g, a0 + std::max(a2, 0), a0 + std::min(b2, w.nx - 1), e0 + std::max(e2, 0), e0 + std::min(d2, w.ny - 1));
            q = diffNodes(fromGridnodes(r2), fromGridnodes(r3), 0);
            CHECK(q == "", "extraction in two steps gives a different result: %s", q.c_str());
            q = diffNodes(fromGridnodes(r2), w2, 0);
            CHECK(q == "", "the second extraction: %s", q.c_str());
            gridnodes_destroy(r2);
            gridnodes_destroy(r3);
            c.label("composition");
        }
    }
    // independent of the source
    gridnodes_getx(g)[0][0] = 12345;
    q = diffNodes(fromGridnodes(r), w, 0);
    CHECK(q == "", "the subgrid shares data with its source: %s", q.c_str());
    gridnodes_destroy(g);
    q = diffNodes(fromGridnodes(r), w, 0);
    CHECK(q == "", "after the source is destroyed: %s", q.c_str());
    gridnodes_destroy(r);
    c.nontrivial = w.n() < n.n();
    c.label(w.n() == n.n(), "whole-grid");
}

static void cliCase(Src& s, Ctx& c)
{
    int t;
    Nodes n = arbitrary(s, c, t), w;
    int a = INT32_MIN, b = INT32_MAX, e = INT32_MIN, d = INT32_MAX;
    bool oi = !s.chance(1, 4), oj = !s.chance(1, 4);
    std::vector<std::string> opt;
    if (oi) { genRange(s, c, n.nx, a, b); opt.push_back("-i"); opt.push_back(spellInt(s, a) + ":" + spellInt(s, b)); }
    if (oj) { genRange(s, c, n.ny, e, d); opt.push_back("-j"); opt.push_back(spellInt(s, e) + ":" + spellInt(s, d)); }
    int ct = s.weighted({4, 1, 1});
    if (ct) opt.push_back(ct == 1 ? "-x" : "-y");
    std::vector<std::string> av = {tool("subgrid", s.chance(1, 8))};
    bool before = s.chance(1, 2);
    std::string f = s.chance(1, 2) ? "-" : writeFile("g", gridText(n));
    if (before) av.push_back(f);
    av.insert(av.end(), opt.begin(), opt.end());
    if (!before) av.push_back(f);
    c.desc << "subgrid";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " " << av[k];
    c.desc << ":\n" << brief(n, 400);
    bool ok = slice(n, a, b, e, d, w);
    RunResult r = runSafe(av, f == "-" ? gridText(n) : "");
    if (!ok) {
        CHECK(r.code != 0 && r.out.empty() && !r.err.empty(), "exit code %d for a range without nodes, the output:\n%.300s", r.code, r.out.c_str());
        c.label("empty-range");
        c.nontrivial = n.n() > 4;
        return;
    }
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::string want = strf("## %d x %d\n", w.nx, w.ny);
    for (size_t k = 0; k < w.n(); ++k)
        want += std::isnan(w.x[k]) ? (ct ? "NaN\n" : "NaN NaN\n") : ct == 1 ? strf("%.15g\n", w.x[k]) : ct == 2 ? strf("%.15g\n", w.y[k]) : strf("%.15g %.15g\n", w.x[k], w.y[k]);
    CHECK(r.out == want, "the output is\n%.2000s\ninstead of\n%.2000s", r.out.c_str(), want.c_str());
    c.nontrivial = w.n() < n.n();
    c.label(w.n() == n.n(), "whole-grid");
}

Property THE_PROPERTY = {"C16", "the subgrid is not the whole grid",
    {{"library", libCase, 60000, 1500000}, {"program", cliCase, 4000, 60000}, {"huge-library", libCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}}, {}};
