// C02: validation of nodes
#include "model.h"

static Nodes subject(Src& s, Ctx& c, NODETYPE t, int big)
{
    int n1, n2;
    genSize(s, n1, n2, big);
    if (s.chance(1, 6))
        n1 = s.range(0, 1);
    if (s.chance(1, 6))
        n2 = s.range(0, 1);
    int nx = t == NT_DD ? 2 * n1 + 1 : n1 + 1, ny = t == NT_DD ? 2 * n2 + 1 : n2 + 1;
    Nodes n(nx, ny);
    uint64_t seed = s.draw(1000);
    for (size_t k = 0; k < n.n(); ++k) {
        n.x[k] = 100 * noise(seed, 2 * k);
        n.y[k] = 1e6 * noise(seed, 2 * k + 1);
        if (s.chance(1, 40) && n.n() < 1000) n.x[k] = 0;
    }
    if (t == NT_DD) {
        // corners, centres and edges
        int k = s.range(0, 3);
        if (k & 1) killPattern(s, c, n, 2, 0);
        if (k & 2) killPattern(s, c, n, 2, 1);
        if (s.chance(1, 2)) killPattern(s, c, n);
    } else
        killPattern(s, c, n);
    return n;
}

static NODETYPE anyType(Src& s)
{
    static const NODETYPE t[] = {NT_DD, NT_COR, NT_DD, NT_COR, NT_DD, NT_COR, NT_CEN, NT_NONE};
    return t[s.draw(8)];
}

static void classify(Ctx& c, const Nodes& n, const Nodes& w)
{
    int killed = 0, kept = 0;
    for (size_t k = 0; k < n.n(); ++k) {
        killed += !std::isnan(n.x[k]) && std::isnan(w.x[k]);
        kept += !std::isnan(w.x[k]);
    }
    c.nontrivial = killed > 0 && kept > 0;
    c.label(killed == 0, "nothing-to-invalidate");
    c.label(kept == 0, "nothing-left");
    c.label(n.nx == 1 || n.ny == 1, "single-row-or-column");
}

static void libCase(Src& s, Ctx& c)
{
    NODETYPE t = anyType(s);
    Nodes n = subject(s, c, t, s.chance(1, 20) ? 60 : 0);
    Nodes w = modelValidate(n, t);
    c.desc << "validate as " << nodetype2str[t] << ":\n" << brief(n, 1000);
    classify(c, n, w);
    c.label(nodetype2str[t]);
    gridnodes* gn = toGridnodes(n, t);
    gridnodes_validate(gn);
    std::string d = diffNodes(fromGridnodes(gn), w, 0);
    CHECK(d == "", "%s", d.c_str());
    gridnodes_validate(gn);
    d = diffNodes(fromGridnodes(gn), w, 0);
    CHECK(d == "", "after the second validation: %s", d.c_str());
    gridnodes_destroy(gn);
}

static void cliCase(Src& s, Ctx& c)
{
    static const NODETYPE tt[] = {NT_DD, NT_COR, NT_CEN};
    NODETYPE t = tt[s.draw(3)];
    Nodes n = rounded15(subject(s, c, t, 0));
    Nodes w = modelValidate(n, t);
    c.desc << "getnodes -i -o " << nodetype2str[t] << ":\n" << brief(n, 1000);
    classify(c, n, w);
    c.nontrivial = c.nontrivial || t == NT_CEN;
    const char* nm = tname(s, t);
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 8)), "-"};
    if (t != NT_DD || s.chance(1, 2)) {
        av.insert(av.end(), {"-i", nm});
        av.insert(av.end(), {"-o", nm});
    }
    if (s.chance(1, 4))
        av.push_back("-v");
    RunResult r = runSafe(av, gridText(n));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes got;
    std::string why;
    CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
    std::string d = diffNodes(got, w, 0);
    CHECK(d == "", "%s", d.c_str());
}

// all validity patterns of small grids, in turn
static void smallCase(Src& s, Ctx& c)
{
    bool dd = s.chance(1, 3);
    NODETYPE t = dd ? NT_DD : NT_COR;
    int nx, ny;
    if (dd) {
        nx = s.chance(1, 2) ? 5 : 3;
        ny = nx == 5 ? 3 : 5;
    } else {
        nx = s.range(1, 5);
        ny = s.range(1, 18 / nx > 5 ? 5 : 18 / nx);
    }
    Nodes n(nx, ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i)
            if (s.draw(dd ? 5 : 3)) {
                n.X(i, j) = i;
                n.Y(i, j) = j;
            }
    Nodes w = modelValidate(n, t);
    c.desc << "validate as " << nodetype2str[t] << ":\n" << brief(n, 1000);
    classify(c, n, w);
    gridnodes* gn = toGridnodes(n, t);
    gridnodes_validate(gn);
    std::string d = diffNodes(fromGridnodes(gn), w, 0);
    CHECK(d == "", "%s", d.c_str());
    gridnodes_destroy(gn);
}

Property THE_PROPERTY = {"C02", "validation invalidates some nodes and keeps some (for centre nodes through the program: any)",
    {{"library", libCase, 30000, 800000}, {"small-patterns", smallCase, 60000, 1500000}, {"program", cliCase, 3000, 60000}, {"huge-library", libCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}}, {}};
