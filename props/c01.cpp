// C01: reading and writing of grid files
#include "model.h"

static double coordinate(Src& s)
{
    double v;
    switch (s.weighted({4, 4, 3, 3, 2, 1})) {
    case 0: return s.range(-100, 100);
    case 1: v = s.real(-200, 200); break;
    case 2: v = s.range(-99999, 99999) / 1000.0; break;
    case 3: v = s.real(-1, 1) * pow(10.0, s.range(-12, 15)); break;
    case 4: v = s.real(-1, 1) * pow(10.0, s.range(-300, 300)); break;
    default: {
        static const double sp[] = {0.0, -0.0, 1e-310, 4.9406564584124654e-324, 1.7e308, -1.7e308, 0.1, 1.0 / 3, 123456789012345678.0, 99999999999999.95, 999999999999999.5, 0.99999999999999994};
        v = sp[s.draw(12)];
    }
    }
    return v;
}
static void sizes(Src& s, int& nx, int& ny)
{
    genSize(s, nx, ny, s.chance(1, 8) ? 60 : 0);
    nx += s.range(0, 1);
}

// ---------------------------------------------------------------- node arrays -> text -> node arrays -> text
static Nodes anyNodes(Src& s, int nx, int ny)
{
    Nodes n(nx, ny);
    uint64_t seed = s.draw(1u << 30);
    int p = s.range(0, 3);
    for (size_t k = 0; k < n.n(); ++k) {
        bool dead = nx * ny <= 200 ? s.draw(4) < (uint64_t) p : noise(seed, k) < p * 0.3 - 1;
        if (dead)
            continue;
        n.x[k] = nx * ny <= 200 ? coordinate(s) : 1000 * noise(seed, 3 * k + 1);
        n.y[k] = nx * ny <= 200 ? coordinate(s) : 1e-3 * noise(seed, 3 * k + 2);
    }
    return n;
}

static void roundTrip(Src& s, Ctx& c)
{
    int nx, ny;
    sizes(s, nx, ny);
    Nodes n = anyNodes(s, nx, ny);
    NODETYPE t = (NODETYPE) s.range(0, 3);
    if (t == NT_DD && (nx % 2 == 0 || ny % 2 == 0))
        t = NT_COR;
    c.desc << "write, read, write, type " << nodetype2str[t] << "\n" << brief(n);
    gridnodes* gn = toGridnodes(n, t);
    std::string f1 = scratch() + "/w1.txt", f2 = scratch() + "/w2.txt";
    gridnodes_write(gn, (char*) f1.c_str(), CT_XY);
    std::string why, text = readFile(f1);
    CHECK(diffNodes(fromGridnodes(gn), n, 0) == "", "writing changed the grid");
    Nodes got;
    CHECK(parseGrid(text, got, &why), "the file written is not in the grid format: %s", why.c_str());
    Nodes want = rounded15(n);
    std::string d = diffNodes(got, want, 0);
    CHECK(d == "", "the file written: %s", d.c_str());
    // the values have 15 significant digits, not more
    {
        std::vector<std::string> L = lines(text);
        for (size_t k = 0; k < n.n(); ++k) {
            std::string w = std::isnan(n.x[k]) ? "NaN NaN" : strf("%.15g %.15g", n.x[k], n.y[k]);
            CHECK(L[k + 1] == w, "line %zu of the file written is \"%s\" instead of \"%s\"", k + 2, L[k + 1].c_str(), w.c_str());
        }
    }
    // columns
    for (int a = 0; a < 2; ++a) {
        gridnodes_write(gn, (char*) f2.c_str(), a ? CT_Y : CT_X);
        std::string w = strf("## %d x %d\n", nx, ny);
        for (size_t k = 0; k < n.n(); ++k)
            w += std::isnan(n.x[k]) ? std::string("NaN\n") : strf("%.15g\n", a ? n.y[k] : n.x[k]);
        std::string t2 = readFile(f2);
        CHECK(t2 == w, "%c coordinates only: got\n%.400s\ninstead of\n%.400s", a ? 'Y' : 'X', t2.c_str(), w.c_str());
    }
    gridnodes* g2 = gridnodes_read((char*) f1.c_str(), t);
    d = diffNodes(fromGridnodes(g2), want, 0);
    CHECK(d == "", "what was written is read differently: %s", d.c_str());
    gridnodes_write(g2, (char*) f2.c_str(), CT_XY);
    CHECK(readFile(f2) == text, "write - read - write does not reproduce the text");
    gridnodes_destroy(gn);
    gridnodes_destroy(g2);
    int nv = 0;
    for (size_t k = 0; k < n.n(); ++k)
        nv += !std::isnan(n.x[k]);
    c.label(nv < (int) n.n(), "has-invalid-nodes");
    c.nontrivial = nx > 1 && ny > 1 && nv > 0;
}

// ---------------------------------------------------------------- text with its meaning
static std::string number(Src& s, double& v)
{
    char b[64];
    v = coordinate(s);
    static const char* fm[] = {"%.17g", "%g", "%.15g", "%f", "%e", "%.10E", "%+.6g", "%.3f", "%012.4f", "%.0f."};
    const char* f = fm[s.draw(10)];
    if (fabs(v) > 1e20)
        f = "%.17g";
    snprintf(b, sizeof b, f, v);
    v = strtod(b, nullptr);
    return b;
}
static const char* const SPACES[] = {" ", "\t", "  ", " \t ", "        "};
static std::string space(Src& s) { return SPACES[s.draw(5)]; }

static std::string nodeLine(Src& s, double& x, double& y, bool& odd)
{
    x = y = QNAN;
    double v;
    odd = true;
    switch (s.weighted({16, 3, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: {
        std::string l = s.chance(1, 4) ? space(s) : "";
        l += number(s, x) + space(s) + number(s, y);
        odd = false;
        switch (s.weighted({8, 1, 1, 1, 1, 1})) {
        case 1: l += space(s); break;
        case 2: l += space(s) + number(s, v); break;
        case 3: l += space(s) + "# comment 1 2"; break;
        case 4: l += "abc"; break;
        case 5: l += "\r"; break;
        }
        if (s.chance(1, 60)) l += longTail(s, l.size());
        return l;
    }
    case 1: return s.chance(1, 2) ? "NaN NaN" : "nan nan";
    case 2: return s.chance(1, 2) ? "" : space(s);
    case 3: {
        std::string l = "#" + std::string(s.chance(1, 2) ? " " : "") + number(s, v) + " " + number(s, v);
        return s.chance(1, 10) ? l + longTail(s, l.size()) : l;
    }
    case 4: return number(s, v) + (s.chance(1, 2) ? " NaN" : " -nan");
    case 5: return "NaN " + number(s, v);
    case 6: return number(s, v);
    case 7: return s.chance(1, 2) ? "land" : "- -";
    case 8: return number(s, v) + ", " + number(s, v);
    default: return number(s, v) + " # " + number(s, v);
    }
}

static void readText(Src& s, Ctx& c)
{
    int nx, ny;
    genSize(s, nx, ny, 0);
    NODETYPE t = (NODETYPE) s.range(0, 3);
    if (t == NT_DD) {
        nx = nx / 2 * 2 + 1;
        ny = ny / 2 * 2 + 1;
    }
    Nodes want(nx, ny);
    std::string text;
    switch (s.weighted({60, 10, 10, 10, 10, 1})) {
    case 0: text = strf("## %d x %d\n", nx, ny); break;
    case 1: text = strf("##   %d   x   %d\n", nx, ny); break;
    case 2: text = strf("## %d x %d # grid\n", nx, ny); break;
    case 3: text = strf("##%dx%d\n", nx, ny); break;
    case 5: text = strf("## %d x %d", nx, ny); text += longTail(s, text.size()) + "\n"; break;
    case 4: text = "## " + spellInt(s, nx) + " x " + spellInt(s, ny) + "\n"; break;
    }
    bool odd, anyodd = false;
    for (size_t k = 0; k < want.n(); ++k) {
        text += nodeLine(s, want.x[k], want.y[k], odd) + "\n";
        anyodd = anyodd || odd;
    }
    size_t L = text.size();
    bool nonl = false;
    if (s.chance(1, 6) && L > 1 && text[L - 2] != '\n') {
        text.resize(L - 1);
        nonl = true;
        c.label("no-last-newline");
    } else if (s.chance(1, 6)) {
        text += s.chance(1, 2) ? "1 2\n3 4\n" : "\n";
        c.label("text-after-nodes");
    }
    (void) nonl;
    bool longer = false;
    for (auto& l : lines(text)) longer = longer || l.size() > 9000;
    c.label(longer, "long-lines");
    c.desc << "read as " << nodetype2str[t] << ":\n" << (longer ? text.substr(0, 5000) + "..." + strf(" (%zu bytes)", text.size()) : text) << "\n";
    c.label(anyodd, "has-invalid-lines");
    c.nontrivial = nx > 1 && ny > 1 && anyodd;
    int how = s.weighted({6, 1, 1, 1});
    Nodes got;
    if (how == 0) {
        std::string f = writeFile("g.txt", text);
        gridnodes* gn = gridnodes_read((char*) f.c_str(), t);
        got = fromGridnodes(gn);
        if (t != NT_NONE) {
            int n1 = t == NT_DD ? nx / 2 : t == NT_CEN ? nx : nx - 1, n2 = t == NT_DD ? ny / 2 : t == NT_CEN ? ny : ny - 1;
            CHECK(gridnodes_getnce1(gn) == n1 && gridnodes_getnce2(gn) == n2, "the number of cells is %d x %d instead of %d x %d", gridnodes_getnce1(gn), gridnodes_getnce2(gn), n1, n2);
        }
        gridnodes_destroy(gn);
        std::string d = diffNodes(got, want, 0);
        CHECK(d == "", "%s", d.c_str());
    } else {
        bool file = s.chance(1, 2), san = s.chance(1, 8);
        std::string name = file ? writeFile("g.txt", text) : s.chance(1, 2) ? "-" : "stdin";
        std::vector<std::string> av;
        if (how == 1)
            av = {tool("subgrid", san), name};
        else
            av = {tool("getnodes", san), name, "-i", "ce", "-o", "ce"};
        int ct = how == 3 ? s.range(0, 2) : 0;
        if (ct)
            av.push_back(ct == 1 ? "-x" : "-y");
        RunResult r = runSafe(av, file ? "" : text);
        CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
        Nodes w15 = rounded15(want);
        if (ct == 0) {
            std::string why;
            CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
            std::string d = diffNodes(got, w15, 0);
            CHECK(d == "", "%s: %s", av[0].c_str(), d.c_str());
        } else {
            std::string w = strf("## %d x %d\n", nx, ny);
            for (size_t k = 0; k < want.n(); ++k)
                w += std::isnan(want.x[k]) ? std::string("NaN\n") : strf("%.15g\n", ct == 1 ? want.x[k] : want.y[k]);
            CHECK(r.out == w, "got\n%s\ninstead of\n%s", r.out.c_str(), w.c_str());
        }
    }
}

// ---------------------------------------------------------------- point by point
static void pointwise(Src& s, Ctx& c)
{
    int nx, ny;
    genSize(s, nx, ny, 0);
    nx += s.range(0, 1);
    gridnodes* gn = gridnodes_create(nx, ny, NT_COR);
    CHECK(gridnodes_getnx(gn) == nx && gridnodes_getny(gn) == ny, "size is %d x %d instead of %d x %d", gridnodes_getnx(gn), gridnodes_getny(gn), nx, ny);
    Nodes w(nx, ny);
    int total = nx * ny, extra = s.chance(1, 2) ? s.range(0, total) : 0;
    c.desc << strf("%d x %d grid filled by %d points\n", nx, ny, total + extra);
    for (int k = 0; k < total + extra; ++k) {
        double x = s.range(-1000, 1000), y = k;
        w.x[k % total] = x;
        w.y[k % total] = y;
        gridnodes_readnextpoint(gn, x, y);
    }
    std::string d = diffNodes(fromGridnodes(gn), w, 0);
    CHECK(d == "", "%s", d.c_str());
    gridnodes_destroy(gn);
    c.nontrivial = nx > 1 && ny > 1;
}

// ---------------------------------------------------------------- sizes and truncation
static void badInput(Src& s, Ctx& c)
{
    int nx, ny;
    genSize(s, nx, ny, 0);
    nx += s.range(0, 1);
    Nodes n = anyNodes(s, nx, ny);
    for (size_t k = 0; k < n.n(); ++k)
        if (std::isnan(n.x[k]))
            n.x[k] = n.y[k] = 1;
    std::string text = gridText(n);
    NODETYPE t = NT_COR;
    std::vector<std::string> L = lines(text);
    switch (s.weighted({3, 2, 2, 2})) {
    case 0: {                   // too few lines
        size_t keep = s.draw(L.size());
        text = "";
        for (size_t k = 0; k < keep; ++k)
            text += L[k] + "\n";
        c.label("short");
        break;
    }
    case 1:                     // even size
        if (nx % 2 && ny % 2)
            discard();
        t = NT_DD;
        c.label("even-size");
        break;
    case 2: {                   // bad header
        static const char* h[] = {"## 3 3", "# 3 x 3", "3 x 3", "## -1 x 3", "## 0 x 2", "## 2 x 0", "## x 3", "## 3 x", "", "## 3 by 3", "## 100000 x 100000"};
        text = std::string(h[s.draw(11)]) + text.substr(text.find('\n'));
        c.label("bad-header");
        break;
    }
    default:
        c.label("no-file");
        text = "<no file>";
    }
    c.desc << "must be refused as " << nodetype2str[t] << ":\n" << text;
    c.nontrivial = true;
    std::string f = text == "<no file>" ? scratch() + "/none/none" : writeFile("g.txt", text);
    if (s.chance(1, 4)) {
        RunResult r = runSafe({tool("getnodes", s.chance(1, 8)), f, "-i", t == NT_DD ? "dd" : "ce", "-o", t == NT_DD ? "dd" : "ce"});
        CHECK(r.code != 0 && r.err != "", "getnodes: exit code %d, messages \"%s\"", r.code, r.err.c_str());
        CHECK(r.out == "", "getnodes: an error is reported but some nodes are printed");
        return;
    }
    bool q = false;
    try {
        gridnodes_read((char*) f.c_str(), t);
    } catch (Quit&) {
        q = true;
    }
    CHECK(q, "no error");
}

Property THE_PROPERTY = {"C01", "the grid has several rows and columns with valid nodes (written) or invalid or odd lines (read), or the file must be refused",
    {{"write-read-write", roundTrip, 9000, 250000}, {"text", readText, 8000, 200000}, {"point-by-point", pointwise, 1500, 40000}, {"refused", badInput, 2500, 50000}, {"huge-write-read-write", roundTrip, 8, 400, 1}, {"huge-text", readText, 8, 400, 1}, {"huge-point-by-point", pointwise, 8, 400, 1}},
    {"the numbers are within the first 10 KB of a line"}};
