// C18: setbathy
#include "model.h"

static std::string anyLine(Src& s, int k)
{
    static const char* T[] = {"NaN", "", "# comment", "  1 2 3  ", "10 20 -5.5", "-z 3", "## 3 x 3", "%s %d %%", "-99\t7", "abc\r"};
    switch (HUGE_MODE ? (k % 100 == 0 ? s.range(0, 2) : 0) : s.weighted({6, 2, 1})) {
    case 0: return strf("%d", k);
    case 1: return T[s.draw(10)];
    default: return s.chance(1, 5) ? strf("%d", k) + longTail(s, 3) : std::string(s.range(1, 3000), 'a' + k % 26);
    }
}
static void genRange(Src& s, int n, int& lo, int& hi)
{
    switch (s.weighted({5, 2, 2, 1})) {
    case 0: lo = s.range(0, n - 1); hi = s.range(lo, n - 1); break;
    case 1: lo = s.range(-3, n); hi = s.range(lo, n + 3); break;
    case 2: lo = hi = s.range(0, n - 1); break;
    default: lo = s.range(-3, n + 3); hi = s.range(-3, n + 3);
    }
}

static void cliCase(Src& s, Ctx& c)
{
    int nx = s.range(1, 12), ny = s.range(1, 12);
    if (HUGE_MODE) hugeSize(s, nx, ny);
    int off = s.chance(1, 2) ? s.range(1, s.chance(1, 4) ? 40 : 5) : 0, extra = s.chance(1, 3) ? s.range(1, 4) : 0, a = INT32_MIN, b = INT32_MAX, e = INT32_MIN, d = INT32_MAX;
    bool dims = s.chance(1, 3), oi = !s.chance(1, 4), oj = !s.chance(1, 4), vb = s.chance(1, 6);
    static const char* Z[] = {"-50", "NaN", "1.25e3", "", "two words", "0", "%d"};
    std::string z = Z[s.draw(7)];
    // what is wrong with it, if anything
    int bad = s.weighted({12, 2, 1, 1, 1, 1});
    int hx = nx, hy = ny;       // the size as specified
    if (bad == 5) (s.chance(1, 2) ? hx : hy) = dims ? 0 : s.range(-2, 0);
    std::vector<std::vector<std::string>> opt;
    if (bad != 2) opt.push_back({"-z", z});
    if (oi) { genRange(s, nx, a, b); opt.push_back({"-i", spellInt(s, a) + ":" + spellInt(s, b)}); }
    if (oj) { genRange(s, ny, e, d); opt.push_back({"-j", spellInt(s, e) + ":" + spellInt(s, d)}); }
    if (dims) opt.push_back({"-d", spellInt(s, hx) + "x" + spellInt(s, hy)});
    if (off) opt.push_back({"-o", spellInt(s, off)});
    if (vb) opt.push_back({"-v"});
    std::string txt, want;
    int L = 0, nset = 0, nkeep = 0;
    for (int k = 0; k < off; ++k) txt += anyLine(s, ++L) + "\n";
    if (!dims) {
        int h = s.draw(4);
        if (bad == 3) txt += s.chance(1, 2) ? "1\n" : strf("# %d x %d\n", nx, ny);
        else txt += h == 0 ? strf("## %d x %d\n", hx, hy) : h == 1 ? strf("##  %d x %d \n", hx, hy) : h == 2 ? strf("## %d x %d # depths\n", hx, hy) : strf("##%dx%d%s\n", hx, hy, s.chance(1, 10) ? longTail(s, 8).c_str() : "");
    } else if (bad == 3)
        bad = 0;
    want = txt;
    int n = nx * ny;
    if (bad == 1) { n -= s.range(1, n); extra = 0; }
    for (int k = 0; k < n; ++k) {
        std::string l = anyLine(s, ++L);
        int i = k % nx, j = k / nx;
        bool in = i >= a && i <= b && j >= e && j <= d, last = k == n - 1 && !extra && s.chance(1, 6) && !l.empty();
        txt += l + (last ? "" : "\n");
        want += in ? z + "\n" : l + (last ? "" : "\n");
        (in ? nset : nkeep)++;
    }
    for (int k = 0; k < extra; ++k) {
        std::string l = anyLine(s, ++L) + (k == extra - 1 && s.chance(1, 4) ? "#" : "\n");
        txt += l;
        want += l;
    }
    std::string f;
    bool stdin_ = s.chance(1, 2);
    if (bad == 4) f = scratch() + "/absent";
    else f = stdin_ ? (s.chance(1, 2) ? "-" : "stdin") : writeFile("b", txt);
    opt.insert(opt.begin() + s.draw(opt.size() + 1), {f});
    std::swap(opt[s.draw(opt.size())], opt[s.draw(opt.size())]);
    std::vector<std::string> av = {tool("setbathy", s.chance(1, 8))};
    for (auto& o : opt) av.insert(av.end(), o.begin(), o.end());
    c.desc << "setbathy";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " '" << av[k] << "'";
    c.desc << "\n" << (txt.size() > 3000 ? txt.substr(0, 3000) + "..." : txt);
    RunResult r = runSafe(av, stdin_ ? txt : "");
    if (bad) {
        static const char* B[] = {"", "too-few-lines", "no-value", "no-header", "no-file", "empty-size"};
        c.label(B[bad]);
        CHECK(r.code != 0 && r.code != -1 && !r.err.empty(), "exit code %d; %s", r.code, B[bad]);
        c.nontrivial = true;
        return;
    }
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    CHECK(r.out == want, "the output is\n%.3000s\ninstead of\n%.3000s", r.out.c_str(), want.c_str());
    c.nontrivial = nset && nkeep;
    c.label(!nset, "nothing-set");
    c.label(!nkeep, "everything-set");
    c.label(extra > 0, "lines-after-data");
    c.label(dims ? "dimensions-given" : "header");
    c.label(off > 0, "offset");
}

Property THE_PROPERTY = {"C18", "some lines are set and some are kept, or the input is erroneous",
    {{"program", cliCase, 9000, 150000}, {"huge", cliCase, 15, 600, 1}}, {"lines have no zero bytes"}};
