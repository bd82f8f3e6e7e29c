// C30: command lines that make no sense are refused
#include "model.h"

struct Prog { const char* name; const char* valued; const char* flags; };
static const Prog PR[] = {{"getnodes", "iom", "pxyv"}, {"getbound", "i", "crv"}, {"subgrid", "ij", "xyv"}, {"insertgrid", "i", "mv"}, {"setbathy", "ijdoz", "v"}, {"xy2ij", "gio", "fkrv"}, {"gridbathy", "abcgimnr", "vx"}};

static std::string letters(Src& s, const char* not1, const char* not2)
{
    for (;;) {
        static const char A[] = "abcdefgijklmnopqrstuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_=+?-";
        char c = A[s.draw(sizeof A - 1)];
        if (!strchr(not1, c) && !strchr(not2, c)) return std::string("-") + c + (s.chance(1, 4) ? "x" : "");
    }
}

static void argsCase(Src& s, Ctx& c)
{
    int p = s.draw(7);
    const Prog& P = PR[p];
    GeomOpts o;
    o.exact = true;
    Geom gm;
    int n1 = s.range(1, 4), n2 = s.range(1, 4);
    bool dd = s.chance(1, 2);
    Nodes n = genGeometry(s, c, dd ? 2 * n1 + 1 : n1 + 1, dd ? 2 * n2 + 1 : n2 + 1, o, gm);
    std::string g = writeFile("g", gridText(n)), b = writeFile("b", "0 0 1\n1 0 2\n0 1 3\n2 3 4\n"), ty = dd ? "dd" : "co";
    // a command line that works, in parts that can be put in any order
    std::vector<std::vector<std::string>> a;
    if (p == 5) { a = {{"-g", g}, {"-o", b}, {"-f"}}; }
    else if (p == 6) a = {{"-g", g}, {"-b", b}, {"-a", "4"}};
    else if (p == 3) a = {{g, g, strf("%d", 2 * s.range(0, 3)), strf("%d", 2 * s.range(0, 3))}};
    else if (p == 4) a = {{g}, {"-z", "1"}};
    else a = {{g}};
    if (strchr(P.valued, 'i') && p != 2 && p != 4 && (!dd || s.chance(1, 2))) a.push_back({"-i", ty});
    if (p != 5 && s.chance(1, 3)) a.push_back({"-v"});
    // options that do not matter
    for (int k = s.weighted({4, 3, 2, 1}); k > 0; --k) {
        if (s.chance(2, 3)) {
            char f = P.flags[s.draw(strlen(P.flags))];
            if (f == 'v' || (f == 'f' && p == 5)) continue;
            a.push_back({std::string("-") + f});
        } else if (p == 0) a.push_back({"-o", s.chance(1, 2) ? "co" : "DD"});
        else if (p == 2) a.push_back({s.chance(1, 2) ? "-i" : "-j", "0:1"});
        else if (p == 4) a.push_back(s.chance(1, 3) ? std::vector<std::string>{"-i", "0:1"} : s.chance(1, 2) ? std::vector<std::string>{"-j", "0:1"} : std::vector<std::string>{"-d", "2x2"});
        else if (p == 6) a.push_back(s.chance(1, 3) ? std::vector<std::string>{"-n", "3"} : s.chance(1, 2) ? std::vector<std::string>{"-r", "1", "5"} : std::vector<std::string>{"-c", "0", "0"});
    }
    for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[s.draw(k)]);
    auto flat = [&](bool san) {
        std::vector<std::string> r = {tool(P.name, san)};
        for (auto& v : a) r.insert(r.end(), v.begin(), v.end());
        return r;
    };
    // what is wrong
    enum { HELP, UNKNOWN, NOVALUE, NOARG, TYPE, VERSION, SUPERFLUOUS, VALUE, BARE, NKIND };
    int kind = s.draw(NKIND);
    std::string odd;
    std::vector<std::string> av;
    bool san = s.chance(1, 8);
    static const char* KIND[] = {"help", "unknown-option", "no-value", "missing-argument", "node-type", "version", "superfluous-argument", "malformed-value", "nothing"};
    switch (kind) {
    case HELP:
        a.insert(a.begin() + s.draw(a.size() + 1), {"-h"});
        av = flat(san);
        break;
    case UNKNOWN:
        a.insert(a.begin() + s.draw(a.size() + 1), {letters(s, P.valued, P.flags)});
        av = flat(san);
        break;
    case NOVALUE:
        odd = std::string("-") + P.valued[s.draw(strlen(P.valued))];
        av = flat(san);
        av.push_back(odd);
        if ((odd == "-r" || odd == "-c") && p == 6 && s.chance(1, 2)) av.push_back("1");      // one of two values
        break;
    case NOARG: {
        std::vector<size_t> need;
        for (size_t k = 0; k < a.size(); ++k)
            if (a[k][0] == g || a[k][0] == "-z" || a[k][0] == "-g" || (a[k][0] == "-o" && p == 5) || a[k][0] == "-b") need.push_back(k);
        size_t k = need[s.draw(need.size())];
        if (p == 3) a[k].resize(s.range(1, 3));
        else a.erase(a.begin() + k);
        if (a.size() == 1 && a[0][0] == "-v") discard();         // asks for the version
        av = flat(san);
        break;
    }
    case TYPE: {
        if (p == 2 || p == 4) discard();
        a.erase(std::remove_if(a.begin(), a.end(), [](const std::vector<std::string>& v) { return v[0] == "-i"; }), a.end());
        static const char* T[] = {"d", "ddd", "xx", "", "corner", "0", "1", "centre", "dd ", "c"};
        std::string t = T[s.draw(10)];
        if ((p == 1 || p == 5 || p == 6) && s.chance(1, 3)) t = s.chance(1, 2) ? "ce" : "CE";
        a.insert(a.begin() + s.draw(a.size() + 1), {p == 0 && s.chance(1, 2) ? "-o" : "-i", t});
        av = flat(san);
        break;
    }
    case VERSION: av = {tool(P.name, san), "-v"}; break;
    case SUPERFLUOUS:
        if (p == 3) a.insert(a.begin() + s.draw(a.size() + 1), {"3"});
        else if (p == 5 || p == 6) a.insert(a.begin() + s.draw(a.size() + 1), {s.chance(1, 2) ? g : "3"});
        else discard();
        av = flat(san);
        break;
    case VALUE: {
        static const char* W[] = {"", "x", "nx", ".", "-", "=3", "abc", "e5"};
        std::string w = W[s.draw(8)], ok = strf("%d", s.range(0, 3));
        auto put = [&](std::vector<std::string> v) {
            a.erase(std::remove_if(a.begin(), a.end(), [&](const std::vector<std::string>& u) { return u[0] == v[0]; }), a.end());
            a.insert(a.begin() + s.draw(a.size() + 1), v);
        };
        if (p == 6) {
            switch (s.draw(6)) {
            case 0: put({"-r", ok, w}); break;
            case 1: put({"-r", w, ok}); break;
            case 2: put({"-c", ok, w}); break;
            case 3: put({"-c", w, ok}); break;
            case 4: put({"-n", w}); break;
            default: put({"-a", s.chance(1, 2) ? strf("%d", s.range(5, 1000)) : strf("-%d", s.range(1, 1000))}); break;
            }
        } else if (p == 4) {
            static const char* D[] = {"2", "2x", "x2", "2 2", "2:2", "2*2", "nxm", "2x-", ""};
            put({"-d", D[s.draw(9)]});
        } else if (p == 3) {
            // a position at which the grid would have more nodes than an integer can count
            static const char* H[] = {"2147483647", "2147483640", "1000000000", "2147483000"};
            for (auto& v : a)
                if (v.size() == 4) { int k = s.range(2, 3); v[k] = H[s.draw(4)]; if (v[k] == "1000000000" || s.chance(1, 2)) v[5 - k] = H[s.draw(4)]; }
        } else discard();
        av = flat(san);
        break;
    }
    default: av = {tool(P.name, san)};
    }
    c.desc << P.name;
    for (size_t k = 1; k < av.size(); ++k) c.desc << " '" << av[k] << "'";
    c.desc << "\n" << brief(n, 100);
    c.label(P.name);
    c.label(KIND[kind]);
    RunResult r = runSafe(av);
    bool usage = r.out.find("Usage: " + std::string(P.name)) != std::string::npos;
    // nothing but text for the user is printed on the standard output
    for (auto& l : lines(r.out)) CHECK(l.empty() || !strchr("#-+.0123456789N", l[0]), "data are printed: \"%s\"", l.c_str());
    switch (kind) {
    case VERSION: CHECK(r.code == 0 && r.out.find(std::string(P.name) + "/libgu version ") != std::string::npos && !usage, "exit code %d, \"%.300s\"", r.code, r.out.c_str()); break;
    case HELP: CHECK(r.code == 0 && usage && r.out.size() > 400, "exit code %d, \"%.300s\"", r.code, r.out.c_str()); break;
    case NOVALUE:
    case TYPE:
        CHECK((r.code > 0 && !r.err.empty() && r.out.empty()) || usage, "exit code %d, \"%.300s\"", r.code, r.out.c_str());
        break;
    default: CHECK(usage || (r.code > 0 && !r.err.empty()), "exit code %d, \"%.300s\"", r.code, r.out.c_str());
    }
    c.nontrivial = true;
}

Property THE_PROPERTY = {"C30", "every case", {{"program", argsCase, 5000, 60000}}, {}};
