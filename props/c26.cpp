// C26: equivalent command lines
#include "locate.h"
#include "model.h"

struct Arg {
    std::vector<std::string> a;         // option and its values
    int file = -1;                      // position of a file name in a
    int type = -1;                      // position of a node type in a
    bool dd = false;                    // means the default
    int pos = -1;                       // positional arguments go in this order
};
struct Cmd {
    std::string prog;
    std::vector<Arg> args;
    std::map<std::string, std::string> text;    // of files
    bool xy = false;                    // has -x and -y
};

static std::string anyCase(Src& s, std::string t)
{
    for (auto& ch : t) if (s.chance(1, 2)) ch = toupper((unsigned char) ch);
    return t;
}
// one of the ways to give the command
static std::vector<std::string> spell(Src& s, const Cmd& m, std::string& in, int& nways)
{
    std::vector<Arg> a = m.args, r, p;
    in = "";
    std::vector<size_t> files;
    for (size_t k = 0; k < a.size(); ++k) if (a[k].file >= 0 && m.text.count(a[k].a[a[k].file])) files.push_back(k);
    if (!files.empty() && s.chance(1, 2)) {
        Arg& f = a[files[s.draw(files.size())]];
        in = m.text.at(f.a[f.file]);
        f.a[f.file] = s.chance(1, 2) ? "stdin" : "-";
        nways++;
    }
    for (auto& f : a) {
        if (f.dd && s.chance(1, 2)) { nways++; continue; }
        if (f.type >= 0) f.a[f.type] = anyCase(s, f.a[f.type]);
        (f.pos >= 0 ? p : r).push_back(f);
    }
    if (s.chance(1, 3)) { r.push_back({{"-v"}}); nways++; }
    for (size_t k = r.size(); k > 1; --k) std::swap(r[k - 1], r[s.draw(k)]);
    std::sort(p.begin(), p.end(), [](const Arg& x, const Arg& y) { return x.pos < y.pos; });
    for (auto& f : p) f.pos = -1;
    std::vector<std::string> out = {tool(m.prog, s.chance(1, 12))};
    size_t i = 0, j = 0;
    while (i < r.size() || j < p.size()) {
        const Arg& f = j >= p.size() || (i < r.size() && s.chance(1, 2)) ? r[i++] : p[j++];
        out.insert(out.end(), f.a.begin(), f.a.end());
    }
    return out;
}

static std::string show(const std::vector<std::string>& v) { std::string r = v[0].substr(v[0].rfind('/') + 1); for (size_t k = 1; k < v.size(); ++k) r += " " + v[k]; return r; }
static std::string typeName(NODETYPE t) { return t == NT_DD ? "dd" : t == NT_CEN ? "ce" : "co"; }

static std::string maskText(Src& s, int n)
{
    std::string t;
    for (int k = 0; k < n; ++k) t += s.chance(1, 5) ? "0\n" : "1\n";
    return t;
}
// spoils a file now and then
static std::string spoil(Src& s, std::string t)
{
    if (!s.chance(1, 12) || t.size() < 3) return t;
    switch (s.range(0, 3)) {
    case 0: return t.substr(0, s.draw(t.size()));
    case 1: return "";
    case 2: t[s.draw(t.size())] = "x \n-9#"[s.draw(6)]; return t;
    default: return t.substr(t.find('\n') + 1);
    }
}

static Nodes nodesOf(const Grid& G, NODETYPE t)
{
    if (t == NT_COR) return G.n;
    if (t == NT_DD) return modelCO2DD(G.n);
    return modelCO2CE(G.n);
}

static void gen(Src& s, Ctx& c, Cmd& m)
{
    static const char* PR[] = {"getnodes", "getbound", "subgrid", "insertgrid", "setbathy", "xy2ij", "gridbathy"};
    int p = s.weighted({4, 2, 2, 2, 2, 3, 3});
    m.prog = PR[p];
    c.label(m.prog);
    GeomOpts o;
    Grid G = genGrid(s, c, o, 0);
    auto file = [&](const char* name, const std::string& t) { std::string f = writeFile(name, t); m.text[f] = t; if (s.chance(1, 40)) { m.text.erase(f); f += "-absent"; } return f; };
    auto grid = [&](const char* name, NODETYPE t) {
        if (p < 3 && s.chance(1, 10)) {         // nearly nothing
            Nodes n(s.range(1, 4), s.range(1, 4));
            for (size_t k = 0; k < n.n(); ++k) if (s.chance(1, 6)) n.x[k] = n.y[k] = QNAN; else { n.x[k] = s.range(-9, 9); n.y[k] = s.range(-9, 9); }
            c.label("tiny");
            return file(name, gridText(n));
        }
        return file(name, spoil(s, gridText(nodesOf(G, t))));
    };
    static const NODETYPE T[] = {NT_DD, NT_COR, NT_CEN};
    auto opt = [&](std::vector<std::string> a, int f = -1, int t = -1) { Arg r; r.a = a; r.file = f; r.type = t; m.args.push_back(r); };
    auto type = [&](const char* l, NODETYPE t) { opt({l, typeName(t)}, -1, 1); m.args.back().dd = t == NT_DD; };
    auto pos = [&](std::string a, int k, bool isfile) { Arg r; r.a = {a}; r.pos = k; r.file = isfile ? 0 : -1; m.args.push_back(r); };
    switch (p) {
    case 0: {
        NODETYPE a = T[s.draw(3)], b = T[s.draw(3)];
        pos(grid("g", a), 0, true);
        type("-i", a);
        type("-o", b);
        if (s.chance(1, 4)) opt({"-m", file("m", spoil(s, maskText(s, G.nce1() * G.nce2())))}, 1);
        if (s.chance(1, 4)) opt({"-p"});
        m.xy = true;
        break;
    }
    case 1: {
        NODETYPE a = T[s.draw(2)];
        pos(grid("g", a), 0, true);
        type("-i", a);
        if (s.chance(1, 2)) opt({"-c"});
        if (s.chance(1, 2)) opt({"-r"});
        break;
    }
    case 2: {
        NODETYPE a = T[s.draw(3)];
        pos(grid("g", a), 0, true);
        Nodes n = nodesOf(G, a);
        int i = s.range(0, n.nx - 1), j = s.range(0, n.ny - 1);
        if (s.chance(2, 3)) opt({"-i", strf("%d:%d", i, i + s.range(0, n.nx))});
        if (s.chance(2, 3)) opt({"-j", strf("%d:%d", j, j + s.range(0, n.ny))});
        m.xy = true;
        break;
    }
    case 3: {
        NODETYPE a = T[s.draw(3)];
        Nodes n = nodesOf(G, a);
        pos(file("g", spoil(s, gridText(n))), 0, true);
        int w = s.range(1, n.nx), h = s.range(1, n.ny);
        if (a == NT_DD) { w |= 1; h |= 1; }
        Nodes q(w, h);
        for (size_t k = 0; k < q.n(); ++k) if (!s.chance(1, 4)) { q.x[k] = 1000 + k; q.y[k] = 2000 + k; } else { q.x[k] = q.y[k] = QNAN; }
        pos(file("q", spoil(s, gridText(q))), 1, true);
        int f = a == NT_DD ? 2 : 1;
        pos(strf("%d", f * s.range(0, n.nx / f)), 2, false);
        pos(strf("%d", f * s.range(0, n.ny / f)), 3, false);
        if (s.chance(1, 2)) opt({"-m"});
        if (s.chance(2, 3)) opt({"-i", typeName(a)}, -1, 1);
        break;
    }
    case 4: {
        int n1 = s.range(1, 7), n2 = s.range(1, 7), off = s.range(0, 3);
        std::string t;
        for (int k = 0; k < off; ++k) t += "skip\n";
        bool head = s.chance(1, 2);
        if (head) t += strf("BATHY %d\n", n1 * n2), t = spoil(s, t);
        for (int k = 0; k < n1 * n2; ++k) t += strf("%d.5\n", k);
        pos(file("b", spoil(s, t)), 0, true);
        opt({"-z", strf("%d", s.range(0, 99))});
        if (off) opt({"-o", strf("%d", off)});
        if (!head || s.chance(1, 2)) opt({"-d", strf("%dx%d", n1, n2)});
        if (s.chance(2, 3)) { int i = s.range(0, n1); opt({"-i", strf("%d:%d", i, s.range(i, n1))}); }
        if (s.chance(2, 3)) { int j = s.range(0, n2); opt({"-j", strf("%d:%d", j, s.range(j, n2))}); }
        break;
    }
    case 5: {
        NODETYPE a = T[s.draw(2)];
        opt({"-g", grid("g", a)}, 1);
        type("-i", a);
        std::string t;
        bool rev = s.chance(1, 2);
        Locator L(G.n);
        for (int k = s.range(0, 12); k > 0; --k) {
            double x, y;
            const char* q;
            if (s.chance(1, 5)) { t += "# text\n"; continue; }
            if (rev) { x = s.real(-0.2, G.nce1() + 0.2); y = s.real(-0.2, G.nce2() + 0.2); } else genPoint(s, L, G.g.h, x, y, &q);
            t += strf("%.17g %.17g %d\n", x, y, k);
        }
        if (s.chance(1, 12) && !t.empty()) {            // many points
            std::string u = t;
            for (int k = s.range(900, 1100), l = lines(u).size(); (int) (t.size() / u.size()) * l <= k;) t += u;
            c.label("many-points");
        }
        opt({"-o", file("p", t)}, 1);
        if (rev) opt({"-r"});
        if (!s.chance(1, 3)) opt({"-f"});
        if (s.chance(1, 3)) opt({"-k"});
        break;
    }
    default: {
        NODETYPE a = T[s.draw(2)];
        opt({"-g", grid("g", a)}, 1);
        type("-i", a);
        std::string t;
        for (int k = s.range(3, 25); k > 0; --k) {
            auto q = G.cells[s.draw(G.cells.size())];
            long double x, y;
            bilin(cellOf(G.n, q.first, q.second), s.unit(), s.unit(), x, y);
            t += strf("%.17Lg %.17Lg %d\n", x, y, s.range(-50, 50));
        }
        opt({"-b", file("b", spoil(s, t))}, 1);
        int rule = s.range(0, 4);
        if (rule != 2 || s.chance(1, 2)) opt({"-a", strf("%d", rule)});
        if (s.chance(1, 2)) opt({"-n", strf("%d", s.range(1, 5))});
        if (s.chance(1, 2)) opt({"-r", strf("%d", s.range(-60, 0)), strf("%d", s.range(1, 60))});
        if (s.chance(1, 3)) opt({"-c", strf("%d", s.range(0, G.nce1() - 1)), strf("%d", s.range(0, G.nce2() - 1))});
        if (s.chance(1, 2)) opt({"-x"});
        if (s.chance(1, 4)) opt({"-m", file("m", spoil(s, maskText(s, G.nce1() * G.nce2())))}, 1);
    }
    }
    if (s.chance(1, 30)) opt({"-i", "zz"}, -1, 1);
}

static void equivCase(Src& s, Ctx& c)
{
    Cmd m;
    gen(s, c, m);
    int col = m.xy ? s.weighted({1, 1, 1}) : 0;
    Cmd m2 = m;
    if (col) { Arg a; a.a = {col == 1 ? "-x" : "-y"}; m2.args.push_back(a); }
    int nways = 0;
    std::string in1, in2;
    std::vector<std::string> a = spell(s, m, in1, nways), b = spell(s, m2, in2, nways);
    c.desc << show(a) << "\n" << show(b) << "\n";
    for (auto& f : m.text) c.desc << f.first << ":\n" << (f.second.size() > 1500 ? f.second.substr(0, 1500) + "..." : f.second);
    RunResult r = runSafe(a, in1), q = runSafe(b, in2);
    CHECK(r.code == q.code, "exit codes %d and %d", r.code, q.code);
    std::string want = r.out;
    if (col && r.code == 0) {
        want = "";
        bool first = true;
        for (auto& l : lines(r.out)) {
            if (first) want += l + "\n";
            else {
                size_t e = l.find(' ');
                CHECK(e != std::string::npos, "\"%s\" in the output", l.c_str());
                want += (col == 1 ? l.substr(0, e) : l.substr(e + 1)) + "\n";
            }
            first = false;
        }
    }
    CHECK(q.out == want, "%s gives\n%.3000s\nand %s gives\n%.3000s", show(a).c_str(), r.out.c_str(), show(b).c_str(), q.out.c_str());
    auto tail = [](std::vector<std::string> v) { v.erase(v.begin()); return v; };
    c.nontrivial = r.ok() && !r.out.empty() && tail(a) != tail(b);
    c.label(!r.ok(), "error");
    c.label(col > 0, "one-column");
    c.label(in1 != in2, "standard-input");
}

Property THE_PROPERTY = {"C26", "two different command lines that mean the same give the same non-empty output",
    {{"equivalent", equivCase, 12000, 250000}, {"huge-equivalent", equivCase, 8, 400, 1}},
    {"no option is given twice with different values (the last one counts then), and -x not with -y", "gridbathy is linked with the stand-ins for libnn and libcsa"}};
