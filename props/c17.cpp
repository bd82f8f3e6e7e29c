// C17: inserting a grid in another one
#include "model.h"

static Nodes arbitrary(Src& s, Ctx& c, int odd, double base)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    int nx = odd ? 2 * n1 + 1 : n1 + 1, ny = odd ? 2 * n2 + 1 : n2 + 1;
    if (s.chance(1, 10)) nx = 1;
    if (s.chance(1, 10)) ny = 1;
    Nodes n(nx, ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            n.X(i, j) = base + i;
            n.Y(i, j) = base + j + 0.5;
        }
    killPattern(s, c, n);
    return n;
}

static void cliCase(Src& s, Ctx& c)
{
    NODETYPE t = (NODETYPE) s.weighted({3, 4, 2, 3});
    t = t == 0 ? NT_NONE : t == 1 ? NT_DD : t == 2 ? NT_CEN : NT_COR;
    int odd = t == NT_DD ? !s.chance(1, 6) : s.chance(1, 3);
    Nodes m = arbitrary(s, c, odd, 0), g = arbitrary(s, c, odd, 1000);
    int i0, j0;
    auto pos = [&](int n1, int n2) {
        switch (s.weighted({4, 2, 1, 1, 1})) {
        case 4: return -s.range(2, 8);          // (-1 stands for no position)
        case 0: return s.range(0, n1 - 1);
        case 1: return std::max(0, n1 - n2);                    // up to the last node
        case 2: return n1 + s.range(-1, 2) > 0 ? n1 + s.range(-1, 2) : 0;
        default: return 0;
        }
    };
    i0 = pos(m.nx, g.nx);
    j0 = pos(m.ny, g.ny);
    if (odd && !s.chance(1, 8)) { i0 &= ~1; j0 &= ~1; }
    if (HUGE_MODE && (double) (std::max(0, -i0) + std::max(m.nx, i0 + g.nx)) * (std::max(0, -j0) + std::max(m.ny, j0 + g.ny)) > 3e6) discard();
    bool merge = s.chance(1, 2);
    int in = s.weighted({4, 1, 1});                             // which of the files comes from the standard input
    std::vector<std::string> pa = {in == 1 ? "-" : writeFile("m", gridText(m)), in == 2 ? "-" : writeFile("g", gridText(g)), (i0 < 0 ? " " : "") + spellInt(s, i0), (j0 < 0 ? " " : "") + spellInt(s, j0)}, opt, av;
    av.push_back(tool("insertgrid", s.chance(1, 8)));
    if (merge) opt.push_back("-m");
    if (t != NT_NONE) opt.push_back("-i");
    bool verbose = s.chance(1, 8);
    if (verbose) opt.push_back("-v");
    // options in between of the arguments
    size_t k = 0;
    for (auto& o : opt) {
        while (k < pa.size() && s.chance(1, 2)) av.push_back(pa[k++]);
        av.push_back(o);
        if (o == "-i") av.push_back(tname(s, t));
    }
    while (k < pa.size()) av.push_back(pa[k++]);
    c.desc << "insertgrid";
    for (size_t q = 1; q < av.size(); ++q) c.desc << " " << av[q];
    c.desc << "\nmaster:\n" << brief(m, 300) << "grid:\n" << brief(g, 300);
    RunResult r = runSafe(av, in == 1 ? gridText(m) : in == 2 ? gridText(g) : "");
    int mi = std::max(0, -i0), mj = std::max(0, -j0);            // place of the master grid in the result
    int gi = std::max(0, i0), gj = std::max(0, j0);
    Nodes w(std::max(mi + m.nx, gi + g.nx), std::max(mj + m.ny, gj + g.ny));
    int fromG = 0, fromM = 0, kept = 0, none = 0;
    for (int j = 0; j < w.ny; ++j)
        for (int i = 0; i < w.nx; ++i) {
            bool ig = i >= gi && j >= gj && i < gi + g.nx && j < gj + g.ny, im = i >= mi && j >= mj && i < mi + m.nx && j < mj + m.ny;
            if (ig && !(merge && im && !g.v(i - gi, j - gj))) {
                w.X(i, j) = g.X(i - gi, j - gj);
                w.Y(i, j) = g.Y(i - gi, j - gj);
                fromG++;
            } else if (im) {
                w.X(i, j) = m.X(i - mi, j - mj);
                w.Y(i, j) = m.Y(i - mi, j - mj);
                fromM++;
                kept += ig;
            } else none++;
        }
    if (t == NT_DD && (w.nx % 2 == 0 || w.ny % 2 == 0)) {
        CHECK(r.code != 0 && r.out.empty() && !r.err.empty(), "exit code %d for a double density grid of %d x %d nodes", r.code, w.nx, w.ny);
        c.label("impossible-size");
        c.nontrivial = true;
        return;
    }
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    w = modelValidate(w, t);
    Nodes got;
    std::string why;
    CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
    why = diffNodes(got, w, 0);
    CHECK(why == "", "%s", why.c_str());
    c.nontrivial = fromG && fromM;
    c.label(none > 0, "neither");
    c.label(i0 < 0 || j0 < 0, "negative-position");
    c.label(kept > 0, "merged-invalid-node");
    c.label(w.nx > m.nx || w.ny > m.ny, "extended");
    c.label(merge ? "merge" : "insert");
    c.label(nodetype2str[t]);
}

Property THE_PROPERTY = {"C17", "the result takes nodes from both grids",
    {{"program", cliCase, 9000, 150000}, {"huge-program", cliCase, 8, 400, 1}}, {"negative positions have to be given with a leading space, as they are taken for options otherwise"}};
