// C03: conversions from double density and corner nodes
#include "model.h"

static Nodes modelTransform(const Nodes& v, NODETYPE from, NODETYPE to)   // v is validated
{
    if (from == to || to == NT_NONE)
        return v;
    if (from == NT_DD)
        return to == NT_COR ? modelDD2CO(v) : modelDD2CE(v);
    return to == NT_CEN ? modelCO2CE(v) : modelCO2DD(v);
}

static bool exactPair(NODETYPE from, NODETYPE to) { return from == NT_DD || from == to || to == NT_NONE; }

static void compare(const Nodes& got, const Nodes& v, NODETYPE from, NODETYPE to, const char* what)
{
    Nodes w = modelTransform(v, from, to);
    double tol = exactPair(from, to) ? 0 : 32 * DBL_EPSILON * maxAbs(v);
    std::string d = diffNodes(got, w, tol);
    CHECK(d == "", "%s: %s", what, d.c_str());
    if (from == NT_COR && to == NT_DD) {        // the corner nodes themselves
        d = diffNodes(modelDD2CO(got), v, 0);
        CHECK(d == "", "%s: corner nodes are not retained: %s", what, d.c_str());
    }
}

struct Subject { Nodes n; NODETYPE t; bool disk; };
static Subject subject(Src& s, Ctx& c, int big)
{
    Subject S;
    S.t = s.chance(1, 2) ? NT_COR : NT_DD;
    int n1, n2;
    genSize(s, n1, n2, big);
    Geom g;
    GeomOpts o;
    o.exact = s.chance(1, 4);
    bool disk = s.chance(1, 2);
    if (S.t == NT_COR) {
        S.n = genGeometry(s, c, n1 + 1, n2 + 1, o, g);
        Nodes f = S.n;
        if (disk)
            applyMask(S.n, genDiskMask(s, c, n1 + 1, n2 + 1, true));
        else
            killPattern(s, c, S.n);
        if (disk && s.chance(1, 3)) {   // loose nodes, which validation removes
            for (int k = s.range(1, 6); k > 0; --k) {
                int i = s.range(0, n1), j = s.range(0, n2);
                if (!S.n.v(i, j)) {
                    S.n.X(i, j) = f.X(i, j);
                    S.n.Y(i, j) = f.Y(i, j);
                }
            }
        }
    } else {
        S.n = genGeometry(s, c, 2 * n1 + 1, 2 * n2 + 1, o, g);
        int k = s.range(0, 3);
        if (k & 1) killPattern(s, c, S.n, 2, 0);
        if (k & 2) killPattern(s, c, S.n, 2, 1);
        if (s.chance(1, 3)) killPattern(s, c, S.n);
    }
    Nodes v = modelValidate(S.n, S.t);
    Topo tp = topology(maskOf(v), v.nx, v.ny);
    S.disk = S.t == NT_COR && tp.disk();
    return S;
}
static NODETYPE target(Src& s, NODETYPE from)
{
    static const NODETYPE a[] = {NT_CEN, NT_COR, NT_CEN, NT_COR, NT_DD, NT_NONE}, b[] = {NT_CEN, NT_DD, NT_CEN, NT_DD, NT_COR, NT_NONE};
    return from == NT_DD ? a[s.draw(6)] : b[s.draw(6)];
}

static bool diskCO(const Nodes& n)
{
    Nodes v = modelValidateCO(n);
    return topology(maskOf(v), v.nx, v.ny).disk();
}

// The grid to convert may itself come from other operations, after which it
// is, or is not, valid. Returns the grid and its nodes.
static gridnodes* withHistory(Src& s, Ctx& c, Subject& S)
{
    gridnodes* gn = toGridnodes(S.n, S.t);
    int nop = s.weighted({3, 2, 1, 1});
    for (int k = 0; k < nop; ++k) {
        gridnodes* g2 = nullptr;
        switch (s.range(0, 3)) {
        case 0:
            gridnodes_validate(gn);
            S.n = modelValidate(S.n, S.t);
            c.desc << "validate, ";
            break;
        case 1: {
            int step = S.t == NT_DD ? 2 : 1, n1 = (S.n.nx - 1) / step, n2 = (S.n.ny - 1) / step;
            int w = s.range(1, n1) * step + 1, h = s.range(1, n2) * step + 1;
            int i0 = s.range(0, S.n.nx - w), j0 = s.range(0, S.n.ny - h);
            g2 = gridnodes_subgrid(gn, i0, i0 + w - 1, j0, j0 + h - 1);
            Nodes m(w, h);
            for (int j = 0; j < h; ++j)
                for (int i = 0; i < w; ++i) { m.X(i, j) = S.n.X(i0 + i, j0 + j); m.Y(i, j) = S.n.Y(i0 + i, j0 + j); }
            S.n = m;
            c.desc << strf("subgrid %d:%d %d:%d, ", i0, i0 + w - 1, j0, j0 + h - 1);
            c.label("subgrid");
            break;
        }
        case 2:
            g2 = gridnodes_copy(gn);
            c.desc << "copy, ";
            break;
        default:
            g2 = gridnodes_transform(gn, S.t);
            S.n = modelValidate(S.n, S.t);
            c.desc << "convert to the same type, ";
        }
        if (g2 != nullptr) {
            gridnodes_destroy(gn);
            gn = g2;
        }
    }
    if (nop)
        S.disk = S.t == NT_COR && diskCO(S.n);
    return gn;
}

static void libCase(Src& s, Ctx& c)
{
    Subject S = subject(s, c, 40);
    gridnodes* gn = withHistory(s, c, S);
    NODETYPE to = target(s, S.t);
    bool kd = !S.disk || s.chance(1, 2);
    bool pre = s.chance(1, 3);
    c.desc << nodetype2str[S.t] << " -> " << nodetype2str[to] << (kd ? ", kd-tree" : ", binary") << (pre ? ", validated before" : "") << "\n" << brief(S.n, 400);
    Nodes v = modelValidate(S.n, S.t);
    int nv = 0;
    for (double x : v.x) nv += !std::isnan(x);
    c.nontrivial = nv > 4 && S.t != to && to != NT_NONE;
    c.label(strf("%s -> %s", nodetype2str[S.t], nodetype2str[to]));
    c.label(kd ? "kd-tree" : "binary");
    c.label(nv == 0, "nothing-valid");
    gridnodes_setmaptype(gn, kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    if (pre)
        gridnodes_validate(gn);
    gridnodes* g2 = gridnodes_transform(gn, to);
    Nodes got = fromGridnodes(g2);
    compare(got, v, S.t, to, "result");
    std::string d = diffNodes(fromGridnodes(gn), v, 0);
    CHECK(d == "", "source after the conversion: %s", d.c_str());
    // same cells
    NODETYPE tt = to == NT_NONE ? S.t : to;
    int n1 = S.t == NT_DD ? S.n.nx / 2 : S.n.nx - 1, n2 = S.t == NT_DD ? S.n.ny / 2 : S.n.ny - 1;
    CHECK(gridnodes_getnce1(g2) == n1 && gridnodes_getnce2(g2) == n2, "the result has %d x %d cells instead of %d x %d", gridnodes_getnce1(g2), gridnodes_getnce2(g2), n1, n2);
    CHECK(gridnodes_getmaptype(g2) == gridnodes_getmaptype(gn), "the type of map changed");
    // and back
    if (S.t == NT_COR && tt == NT_DD) {
        gridnodes* g3 = gridnodes_transform(g2, NT_COR);
        d = diffNodes(fromGridnodes(g3), v, 0);
        CHECK(d == "", "corner -> double density -> corner: %s", d.c_str());
        gridnodes* g4 = gridnodes_transform(g2, NT_CEN);
        d = diffNodes(fromGridnodes(g4), modelDD2CE(got), 0);
        CHECK(d == "", "corner -> double density -> center: %s", d.c_str());
        gridnodes_destroy(g3);
        gridnodes_destroy(g4);
    }
    if (S.t == NT_DD && tt == NT_COR) {         // the corners do not need any further validation
        d = diffNodes(modelValidateCO(got), got, 0);
        CHECK(d == "", "corners of a valid double density grid are not valid: %s", d.c_str());
    }
    gridnodes_destroy(gn);
    gridnodes_destroy(g2);
}

static void cliCase(Src& s, Ctx& c)
{
    Subject S = subject(s, c, 0);
    static const NODETYPE all[] = {NT_DD, NT_CEN, NT_COR};
    NODETYPE to = all[s.draw(3)];
    if (S.t == NT_COR && to != NT_COR && !S.disk)
        discard();              // the program uses the binary tree map
    S.n = rounded15(S.n);
    c.desc << "getnodes " << nodetype2str[S.t] << " -> " << nodetype2str[to] << "\n" << brief(S.n, 400);
    Nodes v = modelValidate(S.n, S.t);
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 8)), "-"};
    if (S.t != NT_DD || s.chance(1, 2)) { av.push_back("-i"); av.push_back(tname(s, S.t)); }
    if (to != NT_DD || s.chance(1, 2)) { av.push_back("-o"); av.push_back(tname(s, to)); }
    RunResult r = runSafe(av, gridText(S.n));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes got, w = modelTransform(v, S.t, to);
    std::string why;
    CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
    double M = maxAbs(v);
    std::string d = diffNodes(got, w, exactPair(S.t, to) ? 0 : 32 * DBL_EPSILON * M + 6e-15 * M);
    CHECK(d == "", "%s", d.c_str());
    c.nontrivial = M > 0 && S.t != to;
}

Property THE_PROPERTY = {"C03", "the types differ and the grid has valid nodes",
    {{"library", libCase, 30000, 800000}, {"program", cliCase, 4000, 80000}, {"huge-library", libCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}},
    {"with the binary tree map the grid is simply connected, as documented"}};
