// C19: masks
#include "model.h"

typedef std::vector<int> Mask;

static Nodes modelMask(const Nodes& n0, NODETYPE t, const Mask& m)
{
    Nodes n = n0;
    if (t == NT_CEN) {
        for (size_t k = 0; k < n.n(); ++k)
            if (!m[k]) n.x[k] = n.y[k] = QNAN;
        return n;
    }
    int n1 = n.nx / 2, n2 = n.ny / 2;
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            if (!m[j * n1 + i]) n.kill(2 * i + 1, 2 * j + 1);
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i)
            if (!n.v(2 * i - 1, 2 * j - 1) && !n.v(2 * i + 1, 2 * j - 1) && !n.v(2 * i - 1, 2 * j + 1) && !n.v(2 * i + 1, 2 * j + 1))
                n.kill(2 * i, 2 * j);
    return modelValidateDD(n);
}

static Mask genMask(Src& s, Ctx& c, int n1, int n2)
{
    Mask m(n1 * n2, 1);
    if (m.empty()) return m;
    switch (s.weighted({3, 2, 2, 1, 1})) {
    case 0: { int p = s.range(1, 11); for (auto& v : m) v = !(s.draw(12) < (uint64_t) p); break; }
    case 1: for (int k = s.range(1, 3); k > 0; --k) m[s.draw(m.size())] = 0; break;
    case 2: {
        int a = s.range(0, n1 - 1), b = s.range(a, n1 - 1), e = s.range(0, n2 - 1), d = s.range(e, n2 - 1), in = s.range(0, 1);
        for (int j = 0; j < n2; ++j)
            for (int i = 0; i < n1; ++i) m[j * n1 + i] = (i >= a && i <= b && j >= e && j <= d) == in;
        break;
    }
    case 3: break;
    default: for (auto& v : m) v = 0;
    }
    (void) c;
    return m;
}
static std::string maskText(const Mask& m)
{
    std::string t;
    for (int v : m) t += v ? "1\n" : "0\n";
    return t;
}

static Nodes arbitrary(Src& s, Ctx& c, NODETYPE t, int n1, int n2)
{
    int nx = t == NT_DD ? 2 * n1 + 1 : t == NT_COR ? n1 + 1 : n1, ny = t == NT_DD ? 2 * n2 + 1 : t == NT_COR ? n2 + 1 : n2;
    Nodes n(nx, ny);
    uint64_t seed = s.draw(1000);
    for (size_t k = 0; k < n.n(); ++k) {
        n.x[k] = r15(100 * noise(seed, 2 * k));
        n.y[k] = r15(1e6 * noise(seed, 2 * k + 1));
    }
    if (t == NT_DD) {
        int k = s.range(0, 3);
        if (k & 1) killPattern(s, c, n, 2, 0);
        if (k & 2) killPattern(s, c, n, 2, 1);
        if (s.chance(1, 4)) killPattern(s, c, n);
    } else if (s.chance(2, 3))
        killPattern(s, c, n);
    return n;
}

static void classify(Ctx& c, const Nodes& n, const Nodes& w)
{
    int killed = 0, kept = 0;
    for (size_t k = 0; k < n.n(); ++k) {
        killed += !std::isnan(n.x[k]) && std::isnan(w.x[k]);
        kept += !std::isnan(w.x[k]);
    }
    c.nontrivial = killed && kept;
    c.label(!kept, "nothing-left");
    c.label(!killed, "nothing-masked");
}

static void libCase(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    NODETYPE t = s.chance(2, 3) ? NT_DD : NT_CEN;
    Mask m = genMask(s, c, n1, n2);
    int err = s.weighted({20, 1, 1});
    if (err) t = err == 1 ? NT_COR : NT_NONE;
    Nodes n = arbitrary(s, c, t, n1, n2);
    bool pre = s.chance(1, 2);                  // validated before
    c.desc << (pre ? "validate and " : "") << "apply the mask to " << nodetype2str[t] << " nodes:\n" << brief(n, 300) << "mask:\n" << maskText(m);
    std::string f = writeFile("m", maskText(m));
    gridnodes* g = toGridnodes(n, t);
    if (pre) {
        gridnodes_validate(g);
        n = modelValidate(n, t);
    }
    int** mm = gu_readmask((char*) f.c_str(), n1, n2);
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            CHECK(mm[j][i] == m[j * n1 + i], "mask of cell (%d,%d) is read as %d", i, j, mm[j][i]);
    bool q = false;
    try { gridnodes_applymask(g, mm); } catch (Quit&) { q = true; }
    c.label(nodetype2str[t]);
    if (err) {
        CHECK(q, "mask is accepted for nodes of type \"%s\"", nodetype2str[t]);
        c.nontrivial = true;
    } else {
        CHECK(!q, "mask is refused");
        Nodes w = modelMask(n, t, m);
        std::string d = diffNodes(fromGridnodes(g), w, 0);
        CHECK(d == "", "%s", d.c_str());
        for (int j = 0; j < n2; ++j)
            for (int i = 0; i < n1; ++i)
                CHECK(mm[j][i] == m[j * n1 + i], "the mask is changed for cell (%d,%d)", i, j);
        classify(c, n, w);
    }
    gu_free2d(mm);
    gridnodes_destroy(g);
}

static std::string spoil(Src& s, Ctx& c, const Mask& m)
{
    std::string t = maskText(m);
    size_t k = s.draw(m.size());
    static const char* B[] = {"2", "", " 1", "1 ", "01", "-1", "x", "NaN", "1 0", "# 1", "10", "0.0"};
    switch (s.weighted({4, 2, 1})) {
    case 0: {
        std::string b = B[s.draw(12)];
        t = t.substr(0, 2 * k) + b + t.substr(2 * k + 1);
        c.label("bad-line");
        break;
    }
    case 1: t = t.substr(0, 2 * k); c.label("short-file"); break;
    default: t = t.substr(0, 2 * k) + t.substr(2 * k + 2); c.label("short-by-one");
    }
    return t;
}

static void badMask(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    Mask m = genMask(s, c, n1, n2);
    std::string t = spoil(s, c, m), f = writeFile("m", t);
    c.desc << strf("read a mask for %d x %d cells from\n", n1, n2) << t;
    bool q = false;
    try { gu_free2d(gu_readmask((char*) f.c_str(), n1, n2)); } catch (Quit&) { q = true; }
    CHECK(q, "the mask is accepted");
    c.nontrivial = true;
}

static void cliCase(Src& s, Ctx& c)
{
    static const NODETYPE P[][2] = {{NT_DD, NT_DD}, {NT_DD, NT_CEN}, {NT_CEN, NT_CEN}, {NT_COR, NT_DD}, {NT_COR, NT_CEN}, {NT_DD, NT_COR}, {NT_COR, NT_COR}};
    int p = s.weighted({4, 3, 3, 2, 2, 1, 1});
    NODETYPE ti = P[p][0], to = P[p][1];
    Nodes n, w;
    int n1, n2;
    double tol = 0;
    if (p == 3 || p == 4) {
        GeomOpts o;
        Grid G = genGrid(s, c, o, 0);
        n = rounded15(G.n);
        n1 = G.nce1();
        n2 = G.nce2();
        tol = 64 * DBL_EPSILON * maxAbs(n);
        w = modelValidateCO(n);
        w = to == NT_DD ? modelCO2DD(w) : modelCO2CE(w);
    } else {
        genSize(s, n1, n2, 0);
        n = arbitrary(s, c, ti, n1, n2);
        w = modelValidate(n, ti);
        if (ti == NT_DD && to == NT_CEN) w = modelDD2CE(w);
    }
    Mask m = genMask(s, c, n1, n2);
    bool bad = s.chance(1, 6), both = false;
    std::string mt = bad ? spoil(s, c, m) : maskText(m);
    if (!bad && s.chance(1, 6)) mt.pop_back();  // no newline at the end
    std::string gf = writeFile("g", gridText(n)), mf = writeFile("m", mt);
    int in = s.weighted({3, 1, 1});
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 8)), in == 1 ? "-" : gf, "-m", in == 2 ? "-" : mf};
    if (ti != NT_DD) av.insert(av.end(), {"-i", tname(s, ti)});
    if (to != NT_DD) av.insert(av.end(), {"-o", tname(s, to)});
    if (s.chance(1, 8)) av.push_back("-v");
    (void) both;
    c.desc << "getnodes -m, " << nodetype2str[ti] << " to " << nodetype2str[to] << ":\n" << brief(n, 300) << "mask:\n" << mt;
    RunResult r = runSafe(av, in == 1 ? gridText(n) : in == 2 ? mt : "");
    if (bad || to == NT_COR) {
        CHECK(r.code != 0 && r.out.empty() && !r.err.empty(), "exit code %d", r.code);
        c.label(!bad, "corner-nodes");
        c.nontrivial = true;
        return;
    }
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes got;
    std::string why;
    CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
    Nodes ww = modelMask(w, to, m);
    why = diffNodes(got, ww, tol);
    CHECK(why == "", "%s", why.c_str());
    classify(c, w, ww);
}

Property THE_PROPERTY = {"C19", "the mask invalidates some nodes and leaves some valid, or has to be refused",
    {{"library", libCase, 30000, 800000}, {"bad-mask", badMask, 8000, 200000}, {"program", cliCase, 5000, 80000}, {"huge-library", libCase, 8, 400, 1}, {"huge-bad-mask", badMask, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}}, {}};
