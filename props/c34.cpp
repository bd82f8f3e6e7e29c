// C34: failures of input and output are reported
#include "model.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

struct Cmd {
    std::vector<std::string> a;         // a[0] is the program
    std::vector<size_t> files;          // positions of names of input files
    std::map<std::string, std::string> text;
    std::map<std::string, size_t> need; // lines that have to be read for the result; 0: all there is
};

static std::string gridOf(Src& s, NODETYPE t, int nx, int ny, bool holes)
{
    double a = s.real(-50, 50), b = s.real(0.5, 3), h = s.real(-0.4, 0.4);
    Nodes n(nx, ny);
    double u = t == NT_DD ? 0.5 : 1;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            n.X(i, j) = a + b * u * (i + h * j);
            n.Y(i, j) = a - b * u * (j - h * i);
            if (holes && s.chance(1, 8)) n.X(i, j) = n.Y(i, j) = QNAN;
        }
    return gridText(n);
}

static Cmd genCmd(Src& s, Ctx& c, int only = -1)
{
    Cmd m;
    int big = s.weighted({6, 2, 1}), e = big == 0 ? 4 : big == 1 ? 12 : 26;
    int n1 = s.range(1, e), n2 = s.range(1, e), p = only >= 0 ? only : s.range(0, 7);
    c.label(big == 2, "large");
    NODETYPE t = s.chance(1, 2) ? NT_DD : NT_COR;
    int nx = t == NT_DD ? 2 * n1 + 1 : n1 + 1, ny = t == NT_DD ? 2 * n2 + 1 : n2 + 1;
    auto file = [&](const std::string& name, const std::string& text, size_t need) {
        m.files.push_back(m.a.size());
        m.a.push_back(name);
        m.text[name] = text;
        m.need[name] = need;
    };
    auto opt = [&](std::vector<std::string> a) { m.a.insert(m.a.end(), a.begin(), a.end()); };
    auto type = [&] { if (t != NT_DD || s.chance(1, 2)) opt({"-i", t == NT_DD ? "dd" : "co"}); };
    auto points = [&](bool ix) {
        std::string r;
        int n = s.range(0, big == 0 ? 9 : big == 1 ? 100 : 900);
        for (int k = 0; k < n; ++k) {
            if (s.chance(1, 8)) r += "# comment\n";
            r += ix ? strf("%.6g %.6g\n", s.real(0, n1), s.real(0, n2)) : strf("%.6g %.6g %d\n", s.real(-60, 60), s.real(-60, 60), k);
        }
        if (!r.empty() && s.chance(1, 6)) r.pop_back();
        return r;
    };
    size_t gl = (size_t) nx * ny + 1;
    switch (p) {
    case 0: {
        static const char* const O[] = {"dd", "co", "ce"};
        m.a = {"getnodes"};
        file("g", gridOf(s, t, nx, ny, false), gl);
        type();
        int o = s.range(0, 2);
        opt({"-o", O[o]});
        if (o != 1 && t == NT_DD && s.chance(1, 2)) {
            std::string mt;
            for (int k = 0; k < n1 * n2; ++k) mt += s.chance(1, 5) ? "0\n" : "1\n";
            opt({"-m"});
            file("m", mt, (size_t) n1 * n2);
        }
        if (s.chance(1, 3)) opt({s.chance(1, 2) ? "-x" : "-y"});
        break;
    }
    case 1:
        m.a = {"getbound"};
        file("g", gridOf(s, t, nx, ny, false), gl);
        type();
        if (s.chance(1, 4)) opt({"-c"});
        if (s.chance(1, 4)) opt({"-r"});
        break;
    case 2:
        m.a = {"subgrid"};
        file("g", gridOf(s, t, nx, ny, true), gl);
        if (s.chance(1, 2)) opt({"-i", strf("0:%d", s.range(0, nx))});
        if (s.chance(1, 4)) opt({s.chance(1, 2) ? "-x" : "-y"});
        break;
    case 3:
        m.a = {"insertgrid"};
        file("g", gridOf(s, t, nx, ny, true), gl);
        file("q", gridOf(s, t, nx, ny, true), gl);
        opt({strf("%d", 2 * s.range(0, n1 / 2)), "0"});
        if (s.chance(1, 2)) opt({"-m"});
        break;
    case 4: {
        std::string x;
        bool head = s.chance(1, 2);
        int off = s.chance(1, 3) ? s.range(1, 4) : 0;
        for (int k = 0; k < off; ++k) x += "line\n";
        if (head) x += strf("## %d x %d\n", n1, n2);
        for (int k = 0; k < n1 * n2; ++k) x += strf("%d.%d\n", k, k % 10);
        int tail = s.chance(1, 2) ? s.range(0, big == 0 ? 5 : 1500) : 0;
        for (int k = 0; k < tail; ++k) x += strf("tail %d\n", k);
        if (s.chance(1, 6)) x.pop_back();
        m.a = {"setbathy"};
        file("b", x, 0);
        opt({"-z", "77"});
        if (s.chance(1, 2)) opt({"-i", strf("0:%d", n1 / 2)});
        if (!head) opt({"-d", strf("%dx%d", n1, n2)});
        if (off) opt({"-o", strf("%d", off)});
        break;
    }
    case 5: {
        bool r = s.chance(1, 2);
        m.a = {"xy2ij", "-g"};
        file("g", gridOf(s, t, nx, ny, false), gl);
        opt({"-o"});
        file("p", points(r), 0);
        type();
        opt({"-f"});
        if (r) opt({"-r"});
        if (s.chance(1, 3)) opt({"-k"});
        break;
    }
    case 6: {
        std::string b;
        int n = s.range(5, 12);
        for (int k = 0; k < n; ++k) b += strf("%.6g %.6g %d\n", s.real(-60, 60), s.real(-60, 60), s.range(1, 99));
        m.a = {"gridbathy", "-b", writeFile("bathy", b), "-a", "0", "-g"};
        file("g", gridOf(s, t, nx, ny, false), gl);
        type();
        if (s.chance(1, 3)) {
            std::string mt;
            for (int k = 0; k < n1 * n2; ++k) mt += s.chance(1, 5) ? "0\n" : "1\n";
            opt({"-m"});
            file("m", mt, (size_t) n1 * n2);
        }
        break;
    }
    default: {
        m.a = {"kd", "-n", "2", "-p", strf("%.4g", s.real(-60, 60)), strf("%.4g", s.real(-60, 60)), "-i"};
        std::string pt = points(false);
        file("p", "1 2\n" + pt, 0);
        if (s.chance(1, 2)) opt({"-r", strf("%.4g", s.real(1, 200))});
        if (s.chance(1, 2)) opt({"-s"});
    }
    }
    if (p != 7 && s.chance(1, 10)) opt({"-v"});
    c.label(m.a[0]);
    return m;
}

// the command line; files are written, `in' is the one that comes from the standard input (-1: none)
static std::vector<std::string> lay(Src& s, const Cmd& m, int in, bool san)
{
    std::vector<std::string> v = m.a;
    v[0] = tool(m.a[0], san);
    for (size_t k = 0; k < m.files.size(); ++k) {
        std::string name = m.a[m.files[k]];
        v[m.files[k]] = (int) k == in ? (s.chance(1, 2) ? "-" : "stdin") : writeFile(name, m.text.at(name));
    }
    return v;
}
static std::string show(const Cmd& m) { std::string r; for (auto& a : m.a) r += a.substr(a.rfind('/') + 1) + " "; return r; }
static void describe(Ctx& c, const Cmd& m)
{
    c.desc << show(m) << "\n";
    for (auto& t : m.text) c.desc << t.first << ":\n" << (t.second.size() > 1500 ? t.second.substr(0, 1500) + strf("... (%zu bytes)\n", t.second.size()) : t.second);
}
static bool prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

// no room for the output
static void writeCase(Src& s, Ctx& c)
{
    Cmd m = genCmd(s, c);
    bool san = s.chance(1, 12);
    int in = s.chance(1, 4) ? (int) s.draw(m.files.size()) : -1;
    auto v = lay(s, m, in, san);
    std::string it = in >= 0 ? m.text[m.a[m.files[in]]] : "";
    RunResult R = runSafe(v, it);
    describe(c, m);
    CHECK(R.ok(), "%s fails: exit code %d, \"%.300s\"", show(m).c_str(), R.code, R.err.c_str());
    long n = R.out.size(), lim;
    switch (s.weighted({4, 1, 1, 1, 1})) {
    case 0: lim = (long) s.draw(n + 1); break;
    case 1: lim = 0; break;
    case 2: lim = n - 1; break;
    case 3: lim = n; break;
    default: lim = n + s.range(1, 5000);
    }
    if (lim < 0) lim = 0;
    c.desc << "room for " << lim << " bytes out of " << n << "\n";
    RunResult r = runFault(v, it, lim, false);
    if (lim >= n) {
        CHECK(r.ok(), "there is room for all the output, but the exit code is %d: \"%.300s\"", r.code, r.err.c_str());
        CHECK(r.out == R.out, "the output is different");
        c.label("enough-room");
    } else {
        CHECK(r.code > 0, "%ld of %ld bytes could be written, but the exit code is %d", lim, n, r.code);
        CHECK(r.err.find("error") != std::string::npos, "%ld of %ld bytes could be written, but there is no error message: \"%.300s\"", lim, n, r.err.c_str());
        CHECK(prefix(r.out, R.out), "what is written is not the beginning of the output");
        c.nontrivial = lim > 0;
        c.label(n > 4096, "several-buffers");
    }
}

// an error of input
static void readCase(Src& s, Ctx& c)
{
    Cmd m = genCmd(s, c);
    bool san = s.chance(1, 12);
    int in = (int) s.draw(m.files.size());
    std::string name = m.a[m.files[in]], all = m.text[name];
    auto v = lay(s, m, in, san);
    if (all.size() > 90000) discard();
    RunResult R = runSafe(v, all);
    describe(c, m);
    CHECK(R.ok(), "%s fails: exit code %d, \"%.300s\"", show(m).c_str(), R.code, R.err.c_str());
    size_t k;
    switch (s.weighted({4, 2, 1, 2})) {
    case 0: k = s.draw(all.size() + 1); break;
    case 1: {                                   // at an end of a line
        k = all.empty() ? 0 : all.find('\n', s.draw(all.size()));
        k = k == std::string::npos ? all.size() : k + 1;
        break;
    }
    case 2: k = all.empty() ? 0 : all.size() - 1; break;
    default: k = all.size();
    }
    c.desc << "an error in reading " << name << " after " << k << " bytes out of " << all.size() << "\n";
    size_t got = 0, need = m.need[name];
    for (size_t q = 0; q < k; ++q) got += all[q] == '\n';
    RunResult r = runFault(v, all.substr(0, k), -1, true);
    bool must = need == 0 || got < need;
    if (must || r.code != 0) {
        CHECK(r.code > 0, "reading failed after %zu of %zu bytes, but the exit code is %d", k, all.size(), r.code);
        CHECK(r.err.find("error") != std::string::npos, "reading failed after %zu of %zu bytes, but there is no error message: \"%.300s\"", k, all.size(), r.err.c_str());
        CHECK(m.a[0] == "kd" || prefix(r.out, R.out), "what is written is not the beginning of the output");
        CHECK(need == 0 || r.out.empty(), "there is output: \"%.300s\"", r.out.c_str());
        c.nontrivial = k > 0;
        c.label("failed");
    } else {
        CHECK(r.out == R.out, "the exit code is 0, but the output is different");
        c.label("not-needed");
    }
    c.label(need == 0, "stream");
}

// a directory in place of a file: it can be opened, but not read
static void dirCase(Src& s, Ctx& c)
{
    Cmd m = genCmd(s, c);
    bool san = s.chance(1, 12);
    auto v = lay(s, m, -1, san);
    size_t k = s.draw(m.files.size());
    v[m.files[k]] = scratch();
    describe(c, m);
    c.desc << "a directory for " << m.a[m.files[k]] << "\n";
    RunResult r = runSafe(v, "");
    CHECK(r.code > 0, "a directory is given for %s, but the exit code is %d", m.a[m.files[k]].c_str(), r.code);
    CHECK(r.err.find("error") != std::string::npos && r.err.find(scratch()) != std::string::npos, "no error message for the directory: \"%.300s\"", r.err.c_str());
    CHECK(m.a[0] == "kd" || r.out.empty(), "there is output: \"%.300s\"", r.out.c_str());
    c.nontrivial = true;
}

// gridnodes_write()
static void libCase(Src& s, Ctx& c)
{
    int big = s.weighted({4, 2, 1}), e = big == 0 ? 5 : big == 1 ? 20 : 70;
    int nx = s.range(1, e), ny = s.range(1, e);
    gridnodes* g = gridnodes_create(nx, ny, NT_COR);
    for (int q = 0; q < nx * ny; ++q) gridnodes_readnextpoint(g, s.chance(1, 8) ? QNAN : q / 7.0, q);
    COORDTYPE ct = (COORDTYPE) s.range(0, 2);
    std::string f = scratch() + "/out", full;
    unlink(f.c_str());
    gridnodes_write(g, (char*) f.c_str(), ct);
    full = readFile(f);
    bool dev = s.chance(1, 6);
    long n = full.size(), lim = s.chance(1, 4) ? n + s.range(-2, 2) : (long) s.draw(n + 1);
    c.desc << nx << " x " << ny << " nodes, " << n << " bytes, " << (dev ? "/dev/full" : strf("room for %ld", lim)) << "\n";
    struct rlimit o, l;
    getrlimit(RLIMIT_FSIZE, &o);
    auto was = signal(SIGXFSZ, SIG_IGN);
    l = o;
    l.rlim_cur = lim;
    std::string to = dev ? "/dev/full" : f, msg;
    if (!dev) setrlimit(RLIMIT_FSIZE, &l);
    bool q = false;
    try { gridnodes_write(g, (char*) to.c_str(), ct); } catch (Quit& e) { q = true; msg = e.msg; }
    setrlimit(RLIMIT_FSIZE, &o);
    signal(SIGXFSZ, was);
    bool fits = !dev && lim >= n;
    std::string got = dev ? "" : readFile(f);
    if (fits) {
        CHECK(!q, "there is room for all, but an error is reported: %s", msg.c_str());
        CHECK(got == full, "the file is different");
    } else {
        CHECK(q, "no error is reported");
        CHECK(msg.find(to) != std::string::npos, "the message \"%s\" does not name the file", msg.c_str());
        CHECK(prefix(got, full), "what is written is not the beginning of the grid");
        c.nontrivial = true;
    }
    // once again, with room
    gridnodes_write(g, (char*) f.c_str(), ct);
    CHECK(readFile(f) == full, "the file written after that is different");
    gridnodes_destroy(g);
    // reading
    std::string d = scratch();
    int k = s.range(0, 2);
    q = false;
    try {
        if (k == 0) gridnodes_read((char*) d.c_str(), NT_COR);
        else if (k == 1) gu_readmask((char*) d.c_str(), nx, ny);
        else {
            poly* p = poly_create();
            poly_addpoint(p, 1, 2);
            FILE* fp = fopen(d.c_str(), "r");
            poly_read(p, fp);
            CHECK(p->n == 1 && p->x[0] == 1 && p->y[0] == 2 && ferror(fp), "polyline read from a directory");
            fclose(fp);
            poly_destroy(p);
        }
    } catch (Quit& e) { q = true; msg = e.msg; }
    CHECK(k == 2 || q, "a directory is read as a %s", k ? "mask" : "grid");
    CHECK(!q || msg.find(d) != std::string::npos, "the message \"%s\" does not name the directory", msg.c_str());
}

Property THE_PROPERTY = {"C34", "output cut after the first byte, reading failed after the first byte, a directory in place of a file",
    {{"output", writeCase, 1500, 40000}, {"input", readCase, 1500, 40000}, {"directory", dirCase, 400, 8000}, {"library", libCase, 6000, 150000}},
    {"once writing has failed, it goes on to fail", "the file of bathymetry of gridbathy is read by libnn, which is not in the sandbox"}};
