// C22: malformed input
#include "locate.h"
#include "model.h"
extern "C" {
#include "gridaverager.h"
}
#include <unistd.h>

// ---------------------------------------------------------------- material
// nodes of a grid with anything wrong with it
static double oddNumber(Src& s)
{
    static const double V[] = {0, -0.0, 1, -1, 1e-300, 4.9e-324, 1e150, -1e150, 1e308, -1.7976931348623157e308, 0.5, 1e16, INFINITY, -INFINITY, QNAN, 1e-16};
    return V[s.draw(16)];
}
static Nodes messyNodes(Src& s, Ctx& c, int nx, int ny, bool inf)
{
    Nodes n(nx, ny);
    Geom g;
    GeomOpts o;
    int kind = s.weighted({5, 2, 2, 1, 2, 1});
    c.label(strf("messy-%d", kind));
    switch (kind) {
    case 0: n = genGeometry(s, c, nx, ny, o, g); break;
    case 1: for (size_t k = 0; k < n.n(); ++k) { n.x[k] = (int) s.draw(4); n.y[k] = (int) s.draw(4); } break;    // coinciding nodes, folds
    case 2: for (size_t k = 0; k < n.n(); ++k) { n.x[k] = s.real(-1, 1); n.y[k] = s.real(-1, 1); } break;
    case 3: for (size_t k = 0; k < n.n(); ++k) n.x[k] = n.y[k] = 3; break;
    case 4: {                                    // everything on a line
        int a = s.range(-2, 2), b = s.range(-2, 2);
        for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { n.X(i, j) = a * i + b * j; n.Y(i, j) = s.chance(1, 2) ? 0 : n.X(i, j); }
        break;
    }
    default: for (size_t k = 0; k < n.n(); ++k) { n.x[k] = oddNumber(s); n.y[k] = oddNumber(s); }
    }
    killPattern(s, c, n);
    if (kind != 5 && s.chance(1, 3))
        for (int k = s.range(1, 4); k > 0; --k) {
            int i = s.range(0, nx - 1), j = s.range(0, ny - 1), a = s.range(0, nx - 1), b = s.range(0, ny - 1);
            if (s.chance(1, 2)) { n.X(i, j) = n.X(a, b); n.Y(i, j) = n.Y(a, b); }
            else { (s.chance(1, 2) ? n.X(i, j) : n.Y(i, j)) = oddNumber(s); }
        }
    for (size_t k = 0; k < n.n(); ++k) {
        if (!inf && std::isinf(n.x[k])) n.x[k] = 1e308;
        if (!inf && std::isinf(n.y[k])) n.y[k] = -1e308;
        if (std::isnan(n.x[k]) || std::isnan(n.y[k])) n.x[k] = n.y[k] = QNAN;
    }
    return n;
}

static std::string oddLine(Src& s)
{
    static const char* T[] = {"", "NaN NaN", "nan 1", "1 nan", "inf inf", "1e999 -1e999", "1", "x", "# comment", "1 2 3 4", "0x1p3 0x10", "1e-400 5", "  \t", "1,2", "-", "\r", "%s%n", "## 3 x 3", "1e308 1e308", "5 5"};
    if (s.chance(1, 20)) return std::string(s.range(10000, 25000), "1 #"[s.draw(3)]);
    return T[s.draw(20)];
}
static std::string oddHeader(Src& s, int nx, int ny)
{
    switch (s.range(0, 15)) {
    case 0: return strf("## %d x %d", nx + s.range(-2, 2), ny + s.range(-2, 2));
    case 1: return strf("## %d x %d", ny, nx);
    case 2: return strf("##%dx%d", nx, ny);
    case 3: return strf("# %d x %d", nx, ny);
    case 4: return strf("## %d x", nx);
    case 5: return strf("## %d %d", nx, ny);
    case 6: return strf("## %d x %d", -nx, ny);
    case 7: return strf("## %d x %d", nx, s.range(-1, 0));
    case 8: return "## 2147483647 x 2147483647";
    case 9: return "## 65536 x 65536";
    case 10: return "## 99999999999 x 99999999999";
    case 11: return "";
    case 12: return "## 1 x 1";
    case 13: return strf("## %d x %d", nx * ny, 1);
    case 14: return strf("## 1 x %d", nx * ny);
    default: return strf("##  %d  x  %d  garbage", nx, ny);
    }
}
// text with some of its lines changed; `big' if it has lines that do not fit the buffers of the programs
static std::string mutate(Src& s, std::vector<std::string> L, bool header, int nx, int ny, bool& big)
{
    int nm = s.weighted({2, 5, 3, 2});
    for (int k = 0; k < nm && !L.empty(); ++k) {
        size_t at = s.draw(L.size());
        switch (s.weighted({4, 4, 2, 2, 2, header ? 4 : 0, 2})) {
        case 0: L[at] = oddLine(s); break;
        case 1: L.erase(L.begin() + at, L.begin() + std::min(L.size(), at + 1 + s.draw(3))); break;
        case 2: L.insert(L.begin() + at, oddLine(s)); break;
        case 3: L.insert(L.begin() + at, L[s.draw(L.size())]); break;
        case 4: L.resize(at); break;
        case 5: L[0] = oddHeader(s, nx, ny); break;
        default:                                // bytes
            if (L[at].empty()) break;
            for (int m = s.range(1, 3); m > 0; --m) L[at][s.draw(L[at].size())] = "\0 \t.-+eENnxX#%9\xff\n"[s.draw(18)];
        }
    }
    std::string t;
    big = false;
    for (auto& l : L) { t += l + "\n"; big = big || l.size() > 5000; }
    if (!t.empty() && s.chance(1, 4)) t.resize(t.size() - 1 - s.draw(std::min<size_t>(t.size(), 12)));
    return t;
}
// whether the text has a header for a grid and a line for each of its nodes
static bool complete(const std::string& t, bool dd)
{
    int nx, ny;
    if (sscanf(t.c_str(), "## %d x %d", &nx, &ny) != 2 || nx < 1 || ny < 1 || (double) nx * ny > INT32_MAX) return false;
    if (dd && (nx % 2 == 0 || ny % 2 == 0)) return false;
    return lines(t).size() >= (size_t) nx * ny + 1;
}
// a header that needs a lot of memory (or the text may be taken for such)
static bool heavy(const std::string& t)
{
    size_t p = 0;
    while ((p = t.find("##", p)) != std::string::npos) {
        int nx, ny;
        if (sscanf(t.c_str() + p, "## %d x %d", &nx, &ny) == 2 && nx > 0 && ny > 0 && (double) nx * ny > 1e6 && (double) nx * ny <= INT32_MAX) return true;
        p += 2;
    }
    return false;
}

static void clean(const RunResult& r)
{
    CHECK(r.code >= 0, "exit code %d", r.code);
    CHECK(r.code == 0 || !r.err.empty(), "exit code %d without a message", r.code);
}

// ---------------------------------------------------------------- files
static void fileCase(Src& s, Ctx& c)
{
    static const char* PROG[] = {"getnodes", "getbound", "subgrid", "insertgrid", "setbathy", "xy2ij", "gridbathy"};
    int p = s.draw(7), type = s.weighted({3, 5, p == 0 ? 3 : 0});       // dd, co, ce
    int nx = s.range(1, 9), ny = s.range(1, 9);
    if (type == 0) { nx |= 1; ny |= 1; }
    Nodes n = messyNodes(s, c, nx, ny, true);
    bool big = false, big2 = false, isdd = type == 0 && p != 2 && p != 3 && p != 4;
    std::string g = mutate(s, lines(gridText(n)), true, nx, ny, big);
    static const char* TN[] = {"dd", "co", "ce"};
    std::vector<std::string> a;
    std::string extra;
    bool fixed = false;                          // something else is certainly wrong or not
    int n1 = type == 0 ? nx / 2 : type == 1 ? nx - 1 : nx, n2 = type == 0 ? ny / 2 : type == 1 ? ny - 1 : ny;
    auto maskText = [&]() {
        std::vector<std::string> L;
        for (int k = 0; k < n1 * n2; ++k) L.push_back(s.chance(1, 4) ? "0" : "1");
        return s.chance(1, 2) ? mutate(s, L, false, 0, 0, big2) : mutate(s, std::vector<std::string>(), false, 0, 0, big2) + [&]() { std::string t; for (auto& l : L) t += l + "\n"; return t; }();
    };
    auto pointsText = [&](int cols) {
        std::vector<std::string> L;
        for (int k = s.range(0, 12); k > 0; --k) {
            std::string l;
            for (int m = 0; m < cols; ++m) {
                size_t q = s.draw(n.n());
                double v = s.chance(1, 8) ? oddNumber(s) : m == 2 ? s.real(-10, 10) : s.chance(1, 2) ? (m ? n.y[q] : n.x[q]) : s.real(-2, 12);
                l += num(v) + (m + 1 < cols ? " " : "");
            }
            if (s.chance(1, 10)) l += " " + std::string(s.range(1, s.chance(1, 2) ? 300 : 12000), "r 1"[s.draw(3)]);
            L.push_back(l);
        }
        return mutate(s, L, false, 0, 0, big2);
    };
    switch (p) {
    case 0:
        a = {"-i", TN[type], "-o", TN[s.draw(3)]};
        if (s.chance(1, 3)) { extra = maskText(); a.insert(a.end(), {"-m", writeFile("x", extra)}); }
        if (s.chance(1, 3)) a.push_back("-p");
        if (s.chance(1, 3)) a.push_back(s.chance(1, 2) ? "-x" : "-y");
        break;
    case 1:
        a = {"-i", TN[type]};
        if (s.chance(1, 2)) a.push_back("-c");
        if (s.chance(1, 2)) a.push_back("-r");
        break;
    case 2:
        a = {"-i", strf("%d:%d", s.range(-2, nx), s.range(-2, nx + 2)), "-j", strf("%d:%d", s.range(-2, ny), s.range(-2, ny + 2))};
        break;
    case 3: {
        Nodes m = messyNodes(s, c, s.range(1, 6), s.range(1, 6), true);
        extra = mutate(s, lines(gridText(m)), true, m.nx, m.ny, big2);
        a = {"-i", TN[type]};
        if (s.chance(1, 2)) a.push_back("-m");
        break;
    }
    case 4:
        a = {"-z", "5", "-i", strf("%d:%d", s.range(-2, nx), s.range(-2, nx + 2))};
        if (s.chance(1, 4)) { a.insert(a.end(), {"-d", strf("%dx%d", nx, ny)}); fixed = true; }
        if (s.chance(1, 4)) { a.insert(a.end(), {"-o", strf("%d", s.range(-1, 12))}); fixed = true; }
        break;
    case 5:
        extra = pointsText(2);
        a = {"-i", TN[type], "-o", writeFile("x", extra)};
        if (s.chance(1, 2)) a.push_back("-k");
        if (s.chance(1, 2)) a.push_back("-r");
        if (s.chance(1, 2)) a.push_back("-f");
        break;
    default:
        extra = pointsText(3);
        a = {"-i", TN[type], "-b", writeFile("x", extra), "-a", strf("%d", s.range(0, 4)), "-n", strf("%d", s.range(1, 3))};
        if (s.chance(1, 3)) a.push_back("-x");
        if (s.chance(1, 4)) { std::string m = maskText(); extra += m; a.insert(a.end(), {"-m", writeFile("y", m)}); }
        if (s.chance(1, 4)) a.insert(a.end(), {"-c", strf("%d", s.range(0, nx)), strf("%d", s.range(0, ny))});
    }
    if (heavy(g) || heavy(extra)) discard();
    if (s.chance(1, 3)) a.push_back("-v");
    bool st = s.chance(1, 5);
    std::string gf = st ? "-" : writeFile("g", g);
    if (p == 3) { a.insert(a.end(), {gf, writeFile("x", extra), strf("%d", s.range(0, 10)), strf("%d", s.range(0, 10))}); }
    else if (p >= 5) a.insert(a.end(), {"-g", gf});
    else a.insert(a.begin(), gf);
    std::vector<std::string> av = {tool(PROG[p], s.chance(1, 3))};
    av.insert(av.end(), a.begin(), a.end());
    c.desc << PROG[p];
    for (auto& x : a) c.desc << " " << x;
    c.desc << "\ngrid file:\n" << (g.size() > 2000 ? g.substr(0, 2000) + "..." : g) << "\nother file:\n" << (extra.size() > 2000 ? extra.substr(0, 2000) + "..." : extra);
    c.label(PROG[p]);
    RunResult r = runSafe(av, st ? g : "");
    clean(r);
    if (!big && !fixed && g.find('\0') == std::string::npos) {
        bool ok = complete(g, isdd);
        if (p == 3 && !big2 && extra.find('\0') == std::string::npos) ok = ok && complete(extra, false);
        if (!ok) CHECK(r.code != 0, "a grid file without a header or a line for each node is accepted");
        c.label(!ok, "incomplete");
    }
    c.label(r.code ? "error" : "success");
    c.nontrivial = true;
}

// ---------------------------------------------------------------- missing and short files
static void shortCase(Src& s, Ctx& c)
{
    static const char* PROG[] = {"getnodes", "getbound", "subgrid", "insertgrid", "insertgrid", "setbathy", "xy2ij", "xy2ij", "gridbathy", "gridbathy", "gridbathy", "getnodes"};
    int p = s.draw(12), nx = 2 * s.range(1, 4) + 1, ny = 2 * s.range(1, 4) + 1;
    Geom gm;
    GeomOpts o;
    Nodes n = genGeometry(s, c, nx, ny, o, gm);
    if (s.chance(1, 2)) killPattern(s, c, n);
    bool dd = s.chance(1, 2);
    int how = s.range(0, 3);
    if (p == 7) how = 0;                          // (points may be any number)
    std::string g = gridText(n), m, b = "0 0 1\n1 0 2\n0 1 3\n5 5 1\n", bad;
    int n1 = dd ? nx / 2 : nx - 1, n2 = dd ? ny / 2 : ny - 1;
    for (int k = 0; k < n1 * n2; ++k) m += s.chance(1, 4) ? "0\n" : "1\n";
    const std::string& victim = p == 9 ? b : p == 10 || p == 11 ? m : g;
    size_t need = p == 9 ? 3 : lines(victim).size(), keep = s.draw(need);
    std::string cut;
    std::vector<std::string> L = lines(victim);
    for (size_t k = 0; k < keep; ++k) cut += L[k] + "\n";
    if (how == 0) bad = scratch() + "/absent";
    else if (how == 1) bad = scratch();           // a directory
    else bad = writeFile("bad", cut);
    std::string gf = writeFile("g", g), mf = writeFile("m", m), bf = writeFile("b", b);
    std::vector<std::string> a, ty = {"-i", dd ? "dd" : "co"};
    switch (p) {
    case 0: a = {bad, "-i", dd ? "dd" : s.chance(1, 2) ? "co" : "ce"}; break;
    case 1: a = {bad, "-i", dd ? "dd" : "co"}; break;
    case 2: a = {bad, "-i", "0:0"}; break;
    case 3: a = {bad, gf, "0", "0"}; break;
    case 4: a = {gf, bad, "0", "0"}; break;
    case 5: a = {bad, "-z", "1"}; break;
    case 6: a = {"-g", bad, "-o", bf, "-i", dd ? "dd" : "co"}; break;
    case 7: a = {"-g", gf, "-o", bad, "-i", dd ? "dd" : "co"}; break;
    case 8: a = {"-g", bad, "-b", bf, "-i", dd ? "dd" : "co", "-a", "4"}; break;
    case 9: a = {"-g", gf, "-b", bad, "-i", dd ? "dd" : "co", "-a", strf("%d", s.range(0, 4))}; break;
    case 10: a = {"-g", gf, "-b", bf, "-m", bad, "-i", dd ? "dd" : "co", "-a", "4"}; break;
    default: a = {gf, "-m", bad, "-i", dd ? "dd" : "co", "-o", dd ? "dd" : "co"};
    }
    if (p == 5 && how == 1 && 0) discard();
    if (s.chance(1, 3)) a.push_back("-v");
    std::vector<std::string> av = {tool(PROG[p], s.chance(1, 8))};
    av.insert(av.end(), a.begin(), a.end());
    c.desc << PROG[p];
    for (auto& x : a) c.desc << " " << x;
    c.desc << "\nthe bad file " << (how == 0 ? "is absent" : how == 1 ? "is a directory" : "has:\n" + cut) << "\ngrid:\n" << g << "\nmask:\n" << m;
    RunResult r = runSafe(av);
    clean(r);
    CHECK(r.code != 0, "%s is accepted", how == 0 ? "a missing file" : how == 1 ? "a directory" : "a short file");
    c.label(strf("%s-%d", PROG[p], how));
    c.nontrivial = true;
}

// ---------------------------------------------------------------- arguments
static void argsCase(Src& s, Ctx& c)
{
    static const char* PROG[] = {"getnodes", "getbound", "subgrid", "insertgrid", "setbathy", "xy2ij", "gridbathy"};
    static const char* TOK[] = {"-a", "-b", "-c", "-d", "-f", "-g", "-h", "-i", "-j", "-k", "-m", "-n", "-o", "-p", "-r", "-v", "-x", "-y", "-z", "-", "--", "-?", "stdin", "dd", "co", "ce", "CO", "0", "1", "-1", "3", "7", "2147483647", "-2147483648", "99999999999999",
        "nan", "inf", "1e300", "0:1", "1:0", ":", "0:", "2147483647:2147483647", "-2147483648:2147483647", "3x3", "2x", "-5x-5", "5", "", " ", "%s%n", "\xff"};
    int p = s.draw(7), nx = 2 * s.range(0, 3) + 1, ny = 2 * s.range(0, 3) + 1;
    Geom gm;
    GeomOpts o;
    o.exact = true;
    Nodes n = genGeometry(s, c, nx, ny, o, gm);
    if (s.chance(1, 2)) killPattern(s, c, n);
    std::string g = writeFile("g", gridText(n)), b = writeFile("b", "0 0 1\n1 0 2\n0 1 3\n2 3 4\n"), m = writeFile("m", "1\n1\n1\n1\n0\n1\n1\n1\n1\n");
    std::vector<std::string> a;
    if (s.chance(2, 3))                           // something that works, and more
        switch (p) {
        case 5: a = {"-g", g, "-o", b}; break;
        case 6: a = {"-g", g, "-b", b}; break;
        case 3:
            a = {g, g, strf("%d", s.range(0, 3)), strf("%d", s.range(0, 3))};
            if (s.chance(1, 4)) { static const char* B[] = {"2147483647", "2147483646", "99999999999999", "4294967296", "1x", "x", "1e9"}; a[2 + s.draw(2)] = B[s.draw(7)]; }
            break;
        case 4: a = {g, "-z", "1"}; break;
        default: a = {g};
        }
    for (int k = s.range(a.empty() ? 0 : 1, 6); k > 0; --k) {
        int q = s.weighted({10, 1, 1, 1});
        std::string t = q == 0 ? TOK[s.draw(52)] : q == 1 ? g : q == 2 ? b : m;
        a.insert(a.begin() + s.draw(a.size() + 1), t);
    }
    std::string in = s.chance(1, 2) ? "" : s.chance(1, 2) ? gridText(n) : "0 0 1\n1 0 2\n0 1 3\n2 3 4\n";
    // positions that need a lot of memory: the programs run with a memory limit, which the sanitizer does not stand
    bool heavy = false;
    for (auto& t : a) heavy = heavy || (p == 3 && atoi(t.c_str()) > 100000 && t != "2147483647");
    std::vector<std::string> av = {tool(PROG[p], s.chance(1, 4) && !heavy)};
    av.insert(av.end(), a.begin(), a.end());
    c.desc << PROG[p];
    for (auto& x : a) c.desc << " '" << x << "'";
    c.desc << "\nstandard input:\n" << in << "\ngrid:\n" << gridText(n);
    c.label(PROG[p]);
    RunResult r = runSafe(av, in);
    clean(r);
    CHECK(r.code || !r.out.empty() || p == 5 || p == 6, "no output and no error");
    c.label(r.code ? "error" : r.out.find("Usage") != std::string::npos ? "usage" : "success");
    c.nontrivial = true;
}

// arguments of gridbathy that make no sense: an index or count that is not an integer that exists, a word that is not an option
static void bathyArgs(Src& s, Ctx& c)
{
    Nodes n(3, 3);
    for (int j = 0; j < 3; ++j)
        for (int i = 0; i < 3; ++i) { n.X(i, j) = i; n.Y(i, j) = j; }
    std::string g = writeFile("g", gridText(n)), b = writeFile("b", "0 0 1\n2 0 2\n0 2 3\n2 2 4\n1 1 3\n");
    std::vector<std::string> a = {"-g", g, "-b", b, "-i", "co"}, w;
    static const char* HUGE_[] = {"2147483648", "-2147483649", "99999999999999", "-99999999999999", "4294967296", "4294967297", "-4294967295"};
    static const char* WORD[] = {"", " ", "x", "xx", "xxx", "vv", "vx", "0", "?x", "+x", "1v"};
    int what = s.range(0, 3);
    std::string h = HUGE_[s.draw(7)], ok = strf("%d", s.range(0, 1));
    if (what == 0) w = {"-c", h, ok};
    else if (what == 1) w = {"-c", ok, h};
    else if (what == 2) w = {"-n", h};
    else for (int k = s.range(1, 3); k > 0; --k) w.push_back(WORD[s.draw(11)]);
    size_t at = 2 * s.draw(4);
    a.insert(a.begin() + at, w.begin(), w.end());
    std::vector<std::string> av = {tool("gridbathy", s.chance(1, 4))};
    av.insert(av.end(), a.begin(), a.end());
    c.desc << "gridbathy";
    for (auto& x : a) c.desc << " '" << x << "'";
    RunResult r = runSafe(av, "");
    clean(r);
    CHECK(r.code || r.out.find("Usage") != std::string::npos, "the arguments are accepted");
    c.label(strf("bathy-%d", what));
    c.nontrivial = true;
}

static void resample(Src& s, poly* pl, double hi)
{
    double eps = s.real(0, hi), len = 0;
    for (int k = 1; k < pl->n; ++k) len += hypot(pl->x[k] - pl->x[k - 1], pl->y[k] - pl->y[k - 1]);
    if (len / eps < 1e4) poly_resample(pl, eps);    // (the number of points that are inserted)
}

// ---------------------------------------------------------------- the library with grids that satisfy no condition
static void libCase(Src& s, Ctx& c)
{
    int nx = s.range(2, s.chance(1, 10) ? 30 : 10), ny = s.range(2, s.chance(1, 10) ? 30 : 10);
    Nodes n = messyNodes(s, c, nx, ny, true);
    c.desc << gridText(n);
    gridnodes* gn = toGridnodes(n, NT_COR);
    size_t nop = 0;
    static FILE* null = fopen("/dev/null", "w");
    try {
        gridnodes_validate(gn);
        int what = s.range(0, 3);
        c.label(strf("lib-%d", what));
        if (what == 0) {
            gridnodes_calcstats(gn);
            poly* pl = s.chance(1, 2) ? poly_formbound(nx - 1, ny - 1, gridnodes_getx(gn), gridnodes_gety(gn)) : poly_formboundij(nx - 1, ny - 1, gridnodes_getx(gn));
            if (s.chance(1, 2)) poly_compact(pl, pow(10, s.range(-12, 0)));
            for (int k = s.range(0, 10); k > 0; --k) poly_containspoint(pl, s.chance(1, 4) ? oddNumber(s) : s.real(-3, 12), s.chance(1, 4) ? oddNumber(s) : s.real(-3, 12));
            if (s.chance(1, 3)) poly_despike(pl, s.real(0, 2));
            if (s.chance(1, 3)) resample(s, pl, 2);
            poly_write(pl, null);
            poly_destroy(pl);
            nop = 1;
        } else if (what == 1) {
            gridnodes* o = gridnodes_transform(gn, s.chance(1, 2) ? NT_DD : NT_CEN);
            gridnodes_validate(o);
            gridnodes_calcstats(o);
            gridnodes_destroy(o);
            if (nx > 2 && ny > 2) {
                gridnodes* ce = toGridnodes(n, NT_CEN);
                o = gridnodes_transform(ce, NT_COR);
                gridnodes_destroy(o);
                gridnodes_destroy(ce);
            }
            nop = 1;
        } else {
            int type = what == 2 ? GRIDMAP_TYPE_BINARY : GRIDMAP_TYPE_KDTREE;
            gridmap* gm = gridmap_build(nx - 1, ny - 1, gridnodes_getx(gn), gridnodes_gety(gn), type);
            for (int k = s.range(0, 20); k > 0; --k) {
                size_t q = s.draw(n.n()), w = s.draw(n.n());
                double x, y;
                switch (s.range(0, 3)) {
                case 0: x = n.x[q]; y = n.y[q]; break;
                case 1: { double f = s.unit(); x = n.x[q] * f + n.x[w] * (1 - f); y = n.y[q] * f + n.y[w] * (1 - f); break; }
                case 2: x = s.real(-3, 12); y = s.real(-3, 12); break;
                default: x = oddNumber(s); y = oddNumber(s);
                }
                double u = 0, v = 0;
                int i = -5, j = -5;
                c.desc << strf("point (%.17g, %.17g)\n", x, y);
                switch (s.range(0, 2)) {
                case 0:
                    if (gridmap_xy2ij(gm, x, y, &i, &j)) {
                        CHECK(i >= 0 && j >= 0 && i < nx - 1 && j < ny - 1, "the point is found in cell (%d,%d), which does not exist", i, j);
                        nop++;
                    } else CHECK(i == -1 && j == -1, "the point is not found, but the indices are (%d,%d)", i, j);
                    break;
                case 1: nop += gridmap_xy2fij(gm, x, y, &u, &v); break;
                default: gridmap_fij2xy(gm, x, y, &u, &v);
                }
            }
            gridmap_destroy(gm);
        }
    } catch (Quit& q) {
        CHECK(!q.msg.empty(), "quits without a message");
        c.label("quits");
    }
    gridnodes_destroy(gn);
    c.nontrivial = nop > 0;
}

// sequences of operations with grids that satisfy no condition
static void chainCase(Src& s, Ctx& c)
{
    static const NODETYPE T[] = {NT_DD, NT_CEN, NT_COR};
    static const char* N[] = {"double density", "centre", "corner"};
    int t = s.range(0, 2), nx = s.range(t == 1 ? 1 : 2, s.chance(1, 10) ? 21 : 9), ny = s.range(t == 1 ? 1 : 2, s.chance(1, 10) ? 21 : 9);
    if (t == 0) { nx += 1 - nx % 2; ny += 1 - ny % 2; }
    Nodes m = messyNodes(s, c, std::max(nx, 2), std::max(ny, 2), true), n(nx, ny);
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { n.X(i, j) = m.X(i, j); n.Y(i, j) = m.Y(i, j); }
    c.desc << N[t] << " nodes:\n" << gridText(n);
    gridnodes* gn = toGridnodes(n, T[t]);
    gridmap* gm = NULL;
    int nop = 0;
    try {
        if (s.chance(3, 4)) { gridnodes_validate(gn); c.desc << "validate\n"; }
        if (s.chance(1, 2)) { gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE); c.desc << "kd-tree maps\n"; }
        for (int k = s.range(1, 5); k > 0; --k, ++nop) {
            gridnodes* o = NULL;
            switch (s.weighted({6, 2, 2, 1, 1, 1})) {
            case 0: {
                int u = s.range(0, 2);
                if (s.chance(1, 3)) u = 2;
                c.desc << "transform to " << N[u] << " nodes\n";
                o = gridnodes_transform(gn, T[u]);
                break;
            }
            case 1: {
                int w = gridnodes_getnx(gn), h = gridnodes_getny(gn), a = s.range(-1, w - 1), b = s.range(a, w), e = s.range(-1, h - 1), f = s.range(e, h);
                c.desc << strf("subgrid %d:%d %d:%d\n", a, b, e, f);
                o = gridnodes_subgrid(gn, a, b, e, f);
                break;
            }
            case 2: c.desc << "validate\n"; gridnodes_validate(gn); break;
            case 3: c.desc << "copy\n"; o = gridnodes_copy(gn); break;
            case 4: c.desc << "statistics\n"; gridnodes_calcstats(gn); break;
            default: c.desc << "write\n"; gridnodes_write(gn, (char*) "/dev/null", (COORDTYPE) s.range(0, 2));
            }
            if (o) { gridnodes_destroy(gn); gn = o; }
        }
        c.desc << "transform to corner nodes and map\n";
        gridnodes* o = gridnodes_transform(gn, NT_COR);
        gridnodes_destroy(gn);
        gn = o;
        gridnodes_validate(gn);
        if (s.chance(1, 2)) gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE);
        int w = gridnodes_getnx(gn), h = gridnodes_getny(gn);
        double **gx = gridnodes_getx(gn), **gy = gridnodes_gety(gn);
        poly* pl = poly_formbound(w - 1, h - 1, gx, gy);
        poly_area(pl);
        poly_compact(pl, 1e-10);
        poly_destroy(pl);
        if (w > 1 && h > 1) {
            gm = gridmap_build2(gn);
            for (int k = s.range(2, 12); k > 0; --k) {
                double x, y, u, v;
                int q = s.range(0, w * h - 1), r = s.range(0, w * h - 1), i = -5, j = -5;
                double f = s.unit();
                switch (s.range(0, 2)) {
                case 0: x = gx[q / w][q % w]; y = gy[r / w][r % w]; break;
                case 1: x = gx[q / w][q % w] * f + gx[r / w][r % w] * (1 - f); y = gy[q / w][q % w] * f + gy[r / w][r % w] * (1 - f); break;
                default: x = s.real(-3, 12); y = s.real(-3, 12);
                }
                c.desc << strf("point (%.17g, %.17g)\n", x, y);
                if (gridmap_xy2ij(gm, x, y, &i, &j)) {
                    CHECK(i >= 0 && j >= 0 && i < w - 1 && j < h - 1, "the point is found in cell (%d,%d), which does not exist", i, j);
                    c.label("found");
                } else CHECK(i == -1 && j == -1, "the point is not found, but the indices are (%d,%d)", i, j);
                gridmap_xy2fij(gm, x, y, &u, &v);
                gridmap_fij2xy(gm, x, y, &u, &v);
            }
            nop++;
            c.label("mapped");
        }
    } catch (Quit& q) {
        CHECK(!q.msg.empty(), "quits without a message");
        c.label("quits");
    }
    if (gm) gridmap_destroy(gm);
    gridnodes_destroy(gn);
    c.nontrivial = nop > 1;
}

// polylines from text
static void polyCase(Src& s, Ctx& c)
{
    std::vector<std::string> L;
    for (int k = s.range(0, 12); k > 0; --k) L.push_back(num(s.chance(1, 8) ? oddNumber(s) : s.range(-3, 3)) + " " + num(s.chance(1, 8) ? oddNumber(s) : s.range(-3, 3)));
    bool big;
    std::string t = mutate(s, L, false, 0, 0, big);
    c.desc << "polyline:\n" << (t.size() > 2000 ? t.substr(0, 2000) + "..." : t);
    FILE* f = t.empty() ? fopen("/dev/null", "r") : fmemopen((void*) t.data(), t.size(), "r");
    poly* pl = poly_create();
    try {
        int n, total = 0;
        do {
            n = poly_read(pl, f);
            CHECK(n == pl->n || n == 0, "%d points are reported, %d are in the polyline", n, pl->n);
        } while (n > 0 && pl->n > total && (total = pl->n) < 1000);
        poly_containspoint(pl, s.range(-3, 3), s.range(-3, 3));
        if (s.chance(1, 2)) poly_compact(pl, 1e-10);
        if (s.chance(1, 2)) poly_close(pl);
        if (s.chance(1, 2)) poly_despike(pl, s.real(0, 3));
        if (s.chance(1, 2)) resample(s, pl, 3);
        poly_area(pl);
        poly_isclosed(pl, 1e-5);
        c.nontrivial = total > 2;
    } catch (Quit&) {}
    fclose(f);
    poly_destroy(pl);
}

// a large grid filled with the same position where there are no cells
static void coinciding(Src& s, Ctx& c)
{
    int n1 = s.range(200, 420), n2 = s.range(200, 420), w = s.range(1, 40), h = s.range(1, 40), i0 = s.range(0, n1 - w - 1), j0 = s.range(0, n2 - h - 1);
    bool line = s.chance(1, 3), up = s.chance(1, 2);
    Nodes n(n1, n2);
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i) {
            bool in = i >= i0 && i <= i0 + w && j >= j0 && j <= j0 + h;
            n.X(i, j) = in ? i + 1 : line ? (up ? j : -j) : 0;
            n.Y(i, j) = in ? j + 1 : 0;
        }
    c.desc << strf("%d x %d nodes, all at %s, except those with indices %d:%d and %d:%d, which form a square mesh", n1, n2, line ? up ? "(j,0)" : "(-j,0)" : "(0,0)", i0, i0 + w, j0, j0 + h);
    CNodes A(n);
    gridmap* gm = gridmap_build(n1 - 1, n2 - 1, A.gx, A.gy, GRIDMAP_TYPE_KDTREE);
    for (int k = 0; k < 3; ++k) {
        int i = s.range(i0, i0 + w - 1), j = s.range(j0, j0 + h - 1), a, b;
        double x = i + 1.5, y = j + 1.5;
        if (k == 2) { x = s.real(0, n1); y = s.real(0, n2); }
        int r = gridmap_xy2ij(gm, x, y, &a, &b);
        if (k < 2) CHECK(r, "a point in cell (%d,%d) is not found", i, j);   // (maybe in a different one: cells overlap)
        gridmap_xy2ij(gm, -0.5, 0.5, &a, &b);
    }
    gridmap_destroy(gm);
    c.nontrivial = true;
}

Property THE_PROPERTY = {"C22", "any input of a program; library: some operation on the messy grid succeeds; polylines: more than two points are read",
    {{"library", libCase, 20000, 1000000}, {"sequences", chainCase, 12000, 600000}, {"polylines", polyCase, 10000, 300000}, {"files", fileCase, 6000, 120000}, {"coinciding-nodes", coinciding, 12, 300}, {"short-files", shortCase, 2000, 20000}, {"arguments", argsCase, 3000, 60000}, {"bathy-arguments", bathyArgs, 200, 3000}},
    {"grid dimensions in headers are below 1e6 nodes or beyond INT_MAX (memory)", "infinite polylines are not resampled"}};
