// C27: what the programs report about their work
#include "locate.h"
#include "model.h"

static int nvalid(const Nodes& n) { int k = 0; for (double x : n.x) k += !std::isnan(x); return k; }

// the numbers in the lines of the standard error that match a format; the percentage, if any, last
struct Rep { long a = -1, b = -1; double pc = NAN; };
static std::vector<Rep> find(const std::string& err, const char* fmt)
{
    std::vector<Rep> r;
    for (auto& l : lines(err)) {
        Rep q;
        int end = 0;
        if (strstr(fmt, "%lf")) {
            if (sscanf(l.c_str(), fmt, &q.a, &q.pc, &end) >= 1 && end > 0) r.push_back(q);
        } else if (strstr(fmt, "%ld x")) {
            if (sscanf(l.c_str(), fmt, &q.a, &q.b, &end) >= 2 && end > 0) r.push_back(q);
        } else if (sscanf(l.c_str(), fmt, &q.a, &end) >= 1 && end > 0) r.push_back(q);
    }
    return r;
}
static void one(const std::vector<Rep>& r, size_t k, size_t n, long want, long total, const char* what)
{
    CHECK(r.size() == n, "%s: reported %zu times instead of %zu", what, r.size(), n);
    CHECK(r[k].a == want, "%s: %ld reported, %ld is right", what, r[k].a, want);
    if (total > 0)
        CHECK(fabs(r[k].pc - 100.0 * want / total) <= 0.0500001, "%s: %.1f%% reported, %.3f%% is right", what, r[k].pc, 100.0 * want / total);
}
#define NONEMPTY "##   %ld non-empty grid nodes (%lf%%)%n"

static Nodes anyNodes(Src& s, Ctx& c, int nx, int ny)
{
    Geom g;
    GeomOpts o;
    o.exact = s.chance(1, 2);
    Nodes n = genGeometry(s, c, nx, ny, o, g);
    killPattern(s, c, n);
    return rounded15(n);
}
static std::string describe(const std::vector<std::string>& av, const Nodes& n)
{
    std::string t;
    for (size_t k = 1; k < av.size(); ++k) t += " " + av[k];
    return t + "\n" + brief(n, 300);
}

static void nodesCase(Src& s, Ctx& c)
{
    NODETYPE ti = s.chance(1, 2) ? NT_DD : s.chance(2, 3) ? NT_COR : NT_CEN;
    int n1 = s.range(1, 9), n2 = s.range(1, 9);
    if (HUGE_MODE) hugeSize(s, n1, n2);
    Nodes n = anyNodes(s, c, ti == NT_DD ? 2 * n1 + 1 : ti == NT_COR ? n1 + 1 : n1, ti == NT_DD ? 2 * n2 + 1 : ti == NT_COR ? n2 + 1 : n2);
    Nodes v = modelValidate(n, ti);
    NODETYPE to = ti == NT_DD ? (NODETYPE) s.range(NT_DD, NT_COR) : ti;
    bool mask = to != NT_COR && s.chance(1, 3);
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 10)), "-", "-i", tname(s, ti), "-o", tname(s, to), "-v"};
    int ones = 0;
    if (mask) {
        std::string m;
        for (int k = 0; k < n1 * n2; ++k) { bool b = s.draw(3); ones += b; m += b ? "1\n" : "0\n"; }
        av.insert(av.end(), {"-m", writeFile("m", m)});
    }
    if (s.chance(1, 4)) av.push_back(s.chance(1, 2) ? "-x" : "-y");
    c.desc << "getnodes" << describe(av, n);
    RunResult r = runSafe(av, gridText(n));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::vector<Rep> e = find(r.err, NONEMPTY);
    one(e, 0, 2, nvalid(n), n.n(), "valid nodes read");
    std::vector<std::string> O = lines(r.out);
    int nout = 0;
    for (size_t k = 1; k < O.size(); ++k) nout += O[k].substr(0, 3) != "NaN";
    one(e, 1, 2, nout, O.size() - 1, "valid nodes written");
    std::vector<Rep> d = find(r.err, "##   %ld x %ld grid%n");
    CHECK(d.size() == 2 && d[0].a == n.nx && d[0].b == n.ny, "wrong size of the input grid reported");
    int ox, oy;
    CHECK(sscanf(r.out.c_str(), "## %d x %d", &ox, &oy) == 2 && d[1].a == ox && d[1].b == oy, "wrong size of the output grid reported");
    if (ti != NT_CEN) {
        Nodes co = ti == NT_DD ? modelDD2CO(v) : v;
        int cells = 0;
        if (ti == NT_DD) cells = nvalid(modelDD2CE(v));
        else for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) cells += co.cell(i, j);
        auto q = find(r.err, "##   %ld valid cells (%lf%%)%n");
        CHECK(!q.empty(), "the number of valid cells is not reported");
        one({q[0]}, 0, 1, cells, (long) n1 * n2, "valid cells");
        if (ti == NT_DD) {
            auto w = find(r.err, "##   %ld valid nodes marked as invalid (%lf%%)%n");
            CHECK(!w.empty(), "the number of invalidated nodes is not reported");
            one({w[0]}, 0, 1, nvalid(n) - nvalid(v), n.n(), "invalidated nodes");
        }
    }
    if (mask) {
        long a = -1, b = -1;
        double p, q;
        for (auto& l : lines(r.err)) if (l.find("## mask:") == 0) sscanf(l.c_str(), "## mask: %ld valid cells (%lf%%), %ld masked cells (%lf%%)", &a, &p, &b, &q);
        CHECK(a == ones && b == n1 * n2 - ones, "mask: %ld valid and %ld masked cells reported instead of %d and %d", a, b, ones, n1 * n2 - ones);
        CHECK(fabs(p - 100.0 * a / (n1 * n2)) <= 0.0500001 && fabs(q - 100.0 * b / (n1 * n2)) <= 0.0500001, "wrong percentages for the mask");
    }
    c.nontrivial = nvalid(n) > 0 && nvalid(n) < (int) n.n();
    c.label(strf("%s -> %s", nodetype2str[ti], nodetype2str[to]));
    c.label(mask, "mask");
}

static void otherCase(Src& s, Ctx& c)
{
    int p = s.range(0, 2), nx = s.range(1, 12), ny = s.range(1, 12);
    if (HUGE_MODE) hugeSize(s, nx, ny);
    Nodes n = anyNodes(s, c, nx, ny), m;
    std::vector<std::string> av;
    size_t nin = 1;
    std::string g = writeFile("g", gridText(n));
    if (p == 0) av = {tool("subgrid", s.chance(1, 10)), g, "-i", strf("%d:%d", s.range(0, nx - 1), nx), "-v"};
    else if (p == 1) {
        m = anyNodes(s, c, s.range(1, 8), s.range(1, 8));
        nin = 2;
        av = {tool("insertgrid", s.chance(1, 10)), g, writeFile("m", gridText(m)), strf("%d", s.range(0, 12)), strf("%d", s.range(0, 12)), "-v"};
        if (s.chance(1, 2)) av.push_back("-m");
    } else {
        n = anyNodes(s, c, nx + 1, ny + 1);
        writeFile("g", gridText(n));
        av = {tool("getbound", s.chance(1, 10)), g, "-i", "co", "-v"};
    }
    c.desc << (p == 0 ? "subgrid" : p == 1 ? "insertgrid" : "getbound") << describe(av, n);
    if (p == 1) c.desc << "\nand\n" << brief(m, 300);
    RunResult r = runSafe(av);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::vector<Rep> e = find(r.err, NONEMPTY);
    size_t all = nin + (p != 2);
    one(e, 0, all, nvalid(n), n.n(), "valid nodes read");
    if (p == 1) one(e, 1, all, nvalid(m), m.n(), "valid nodes read from the second file");
    if (p != 2) {
        std::vector<std::string> O = lines(r.out);
        int nout = 0;
        for (size_t k = 1; k < O.size(); ++k) nout += O[k] != "NaN NaN";
        one(e, all - 1, all, nout, O.size() - 1, "valid nodes written");
    }
    c.nontrivial = nvalid(n) > 0;
    c.label(p == 0 ? "subgrid" : p == 1 ? "insertgrid" : "getbound");
}

static void mappingCase(Src& s, Ctx& c)
{
    GeomOpts o;
    Grid G = genGrid(s, c, o, 0);
    bool rev = s.chance(1, 2);
    Locator L(G.n);
    std::string t;
    int np = s.range(0, 20), total = 0;
    if (s.chance(1, 40)) np = s.range(990, 2100);
    for (int k = 0; k < np; ++k) {
        if (s.chance(1, 6)) { t += s.chance(1, 2) ? "# 1 2\n" : "\n"; continue; }
        double x, y;
        const char* kind;
        if (rev) { x = s.real(-0.5, G.nce1() + 0.5); y = s.real(-0.5, G.nce2() + 0.5); }
        else genPoint(s, L, G.g.h, x, y, &kind);
        t += num(x) + " " + num(y) + "\n";
        total++;
    }
    std::vector<std::string> av = {tool("xy2ij", s.chance(1, 10)), "-i", "co", "-g", writeFile("g", gridText(G.n)), "-o", "-", "-f", "-v"};
    if (rev) av.push_back("-r");
    if (s.chance(1, 3)) av.push_back("-k");
    c.desc << "xy2ij" << describe(av, G.n) << "\n" << t;
    RunResult r = runSafe(av, t);
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    long nan = 0;
    for (auto& l : lines(r.out)) nan += l.substr(0, 7) == "NaN NaN";
    one(find(r.err, "## total mappings: %ld%n"), 0, 1, total, 0, "mappings");
    one(find(r.err, "##   successful: %ld%n"), 0, 1, total - nan, 0, "successful mappings");
    one(find(r.err, "##   unsuccessful: %ld%n"), 0, 1, nan, 0, "unsuccessful mappings");
    c.nontrivial = total > nan && nan > 0;
}

Property THE_PROPERTY = {"C27", "nodes: some nodes are valid and some are not; other programs: some nodes are valid; mapping: some points are mapped and some are not",
    {{"nodes", nodesCase, 5000, 80000}, {"other-programs", otherCase, 3000, 40000}, {"mapping", mappingCase, 3000, 40000}, {"huge-nodes", nodesCase, 8, 400, 1}, {"huge-other-programs", otherCase, 8, 400, 1}, {"huge-mapping", mappingCase, 8, 400, 1}},
    {}};
