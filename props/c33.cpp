// C33: errors of the library go to the function set by the application
#include "model.h"
#include <climits>
#include <cstdarg>
#include <sys/stat.h>

extern "C" {
typedef void (*gu_quitfn)(char* format, ...);
void gu_setquitfn(gu_quitfn quitfn);
extern gu_quitfn gu_quit;
}

struct Told { int who; std::string msg; };
static int NCALL;
static void told(int who, char* f, va_list a)
{
    char b[16384];
    vsnprintf(b, sizeof b, f, a);
    NCALL++;
    throw Told{who, b};
}
static void quitA(char* f, ...) { va_list a; va_start(a, f); told(0, f, a); }
static void quitB(char* f, ...) { va_list a; va_start(a, f); told(1, f, a); }
static void quitC(char* f, ...) { va_list a; va_start(a, f); told(2, f, a); }
static const gu_quitfn QUIT[] = {quitA, quitB, quitC};

// is the number one of those in the message (outside of the file name)
static bool mentions(std::string m, const std::string& path, long long v)
{
    size_t p = path.empty() ? std::string::npos : m.find(path);
    if (p != std::string::npos) m.erase(p, path.size());
    std::string t = strf("%lld", v);
    for (size_t k = m.find(t); k != std::string::npos; k = m.find(t, k + 1)) {
        bool l = k == 0 || !(isdigit(m[k - 1]) || m[k - 1] == '-'), r = k + t.size() >= m.size() || !isdigit(m[k + t.size()]);
        if (l && r) return true;
    }
    return false;
}

struct Err {
    std::string what, path;
    std::vector<long long> nums;                // the message has these numbers
    std::vector<std::string> words;             // and these words
    bool named = true;                          // the message names the file
    std::function<void()> act, after;
};

static Err genErr(Src& s)
{
    Err e;
    int k = s.range(0, 18);
    NODETYPE t = (NODETYPE) s.range(0, 3);
    int nx = s.range(1, 9), ny = s.range(1, 9);
    auto file = [](const std::string& f, NODETYPE ty) { return [=] { gridnodes_read((char*) f.c_str(), ty); }; };
    auto okTxt = [](int a, int b, int n) {
        std::string x = strf("## %d x %d\n", a, b);
        for (int q = 0; q < n; ++q) x += strf("%d %d\n", q % a, q / a);
        return x;
    };
    switch (k) {
    case 0: e.what = "reading of a file that does not exist"; e.path = scratch() + strf("/none%d", nx); e.words = {strerror(ENOENT)}; e.act = file(e.path, t); break;
    case 1: e.what = "empty file"; e.path = writeFile("empty", ""); e.act = file(e.path, t); break;
    case 2: {
        static const char* const H[] = {"", "#", "## 3", "## 3 x", "3 x 3", "# 3 x 3", "## x 3", "## 3 3", "##", "0 0"};
        e.what = "bad header"; e.path = writeFile("header", std::string(H[s.draw(10)]) + "\n0 0\n"); e.act = file(e.path, t); break;
    }
    case 3: {
        int z = s.chance(1, 2) ? 0 : -s.range(1, 1000);
        bool first = s.chance(1, 2);
        e.what = "size that is not positive"; e.path = writeFile("size", okTxt(1, 1, 1).replace(0, 8, first ? strf("## %d x %d", z, ny) : strf("## %d x %d", nx, z)));
        e.named = false; e.nums = {z}; e.act = file(e.path, t); break;
    }
    case 4: {
        int a = 2 * s.range(1, 5), b = 2 * s.range(1, 5) - 1;
        bool first = s.chance(1, 2);
        e.what = "even size of double density"; e.path = writeFile("even", okTxt(first ? a : b, first ? b : a, a * b)); e.named = false; e.nums = {a}; e.act = file(e.path, NT_DD); break;
    }
    case 5: {
        if (t == NT_DD) { nx |= 1; ny |= 1; }
        int n = s.range(0, nx * ny - 1);
        e.what = "short file"; e.path = writeFile("short", okTxt(nx, ny, n)); e.nums = {n + 1, nx, ny}; e.act = file(e.path, t); break;
    }
    case 6: {
        int a = s.range(46341, 2000000), b = s.range(46341, 2000000);
        e.what = "too big"; e.path = writeFile("big", strf("## %d x %d\n0 0\n", a, b)); e.named = false; e.nums = {a, b}; e.act = file(e.path, t == NT_DD ? NT_COR : t); break;
    }
    case 7: case 8: {
        int n = s.range(0, nx * ny - 1);
        std::string m;
        for (int q = 0; q < n; ++q) m += s.chance(1, 3) ? "0\n" : "1\n";
        e.nums = {n + 1};
        if (k == 7) { e.what = "short mask"; e.nums.push_back(nx); e.nums.push_back(ny); }
        else {
            static const char* const B[] = {"2", "", "x", "01", "1 ", " 0", "-1", "1.0", "NaN", "true"};
            std::string b = B[s.draw(10)];
            m += b + "\n";
            for (int q = n + 1; q < nx * ny; ++q) m += "1\n";
            e.what = "bad mask value"; e.words = {"\"" + b + "\""};
        }
        e.path = writeFile("mask", m);
        std::string f = e.path;
        e.act = [=] { gu_readmask((char*) f.c_str(), nx, ny); };
        break;
    }
    case 9: {
        e.what = "empty subgrid";
        int v = s.range(0, 3), a = 0, b = nx - 1, p = 0, q = ny - 1;
        if (v == 0) { a = nx + s.range(0, 3); b = a + s.range(0, 3); }
        else if (v == 1) { b = -1 - s.range(0, 3); a = b - s.range(0, 3); }
        else if (v == 2) { p = ny + s.range(0, 3); q = p + s.range(0, 3); }
        else { p = s.range(1, ny + 1); q = p - 1; if (q >= ny) p = q; }
        if (v == 3 && q < 0) p = 0;
        if (v == 3 && p <= q) { p = ny; q = ny; }
        gridnodes* g = gridnodes_create(nx, ny, t);
        for (int z = 0; z < nx * ny; ++z) gridnodes_readnextpoint(g, z, -z);
        e.act = [=] { gridnodes_subgrid(g, a, b, p, q); };
        e.after = [=] {
            CHECK(gridnodes_getnx(g) == nx && gridnodes_getny(g) == ny, "the grid was resized");
            for (int z = 0; z < nx * ny; ++z) CHECK(gridnodes_getx(g)[z / nx][z % nx] == z && gridnodes_gety(g)[z / nx][z % nx] == -z, "the grid was changed");
            gridnodes_destroy(g);
        };
        break;
    }
    case 10: {
        e.what = "undefined point of a polyline";
        poly* p = poly_create();
        int n = s.range(0, 9), how = s.range(0, 2);
        for (int z = 0; z < n; ++z) poly_addpoint(p, z, z * z);
        e.act = [=] { poly_addpoint(p, how ? QNAN : 1.0, how == 1 ? 1.0 : QNAN); };
        e.after = [=] {
            CHECK(p->n == n, "the polyline has %d points instead of %d", p->n, n);
            for (int z = 0; z < n; ++z) CHECK(p->x[z] == z && p->y[z] == z * z, "point %d was changed", z);
            if (n) CHECK(p->e.xmin == 0 && p->e.xmax == n - 1 && p->e.ymin == 0 && p->e.ymax == (n - 1) * (n - 1), "the extent was changed");
            poly_addpoint(p, 7, 8);
            CHECK(p->n == n + 1 && p->x[n] == 7 && p->y[n] == 8, "no point can be added");
            poly_destroy(p);
        };
        break;
    }
    case 11: case 12: {
        int ty = s.chance(1, 2) ? s.range(2, 100) : -s.range(1, 100);
        e.what = k == 11 ? "unknown map type, gridmap_build()" : "unknown map type, gridmap_build2()";
        e.nums = {ty};
        gridnodes* g = gridnodes_create(nx + 1, ny + 1, NT_COR);
        for (int z = 0; z < (nx + 1) * (ny + 1); ++z) gridnodes_readnextpoint(g, z % (nx + 1), z / (nx + 1));
        gridnodes_validate(g);
        if (k == 11) e.act = [=] { gridmap_build(nx, ny, gridnodes_getx(g), gridnodes_gety(g), ty); };
        else e.act = [=] { gridnodes_setmaptype(g, ty); gridmap_build2(g); };
        e.after = [=] {
            gridmap* gm = gridmap_build(nx, ny, gridnodes_getx(g), gridnodes_gety(g), ty & 1);
            int i = -1, j = -1;
            CHECK(gridmap_xy2ij(gm, nx - 0.5, ny - 0.5, &i, &j) && i == nx - 1 && j == ny - 1, "the map of the grid is wrong");
            gridmap_destroy(gm);
            gridnodes_destroy(g);
        };
        break;
    }
    case 13: {
        e.what = "mask for nodes that do not take it";
        NODETYPE ty = s.chance(1, 2) ? NT_COR : NT_NONE;
        gridnodes* g = gridnodes_create(nx, ny, ty);
        for (int z = 0; z < nx * ny; ++z) gridnodes_readnextpoint(g, z, -z);
        int** m = (int**) gu_alloc2d(ny, nx, sizeof(int));
        e.act = [=] { gridnodes_applymask(g, m); };
        e.after = [=] {
            for (int z = 0; z < nx * ny; ++z) CHECK(gridnodes_getx(g)[z / nx][z % nx] == z && gridnodes_gety(g)[z / nx][z % nx] == -z, "the grid was changed");
            gridnodes_destroy(g);
            gu_free2d(m);
        };
        break;
    }
    case 14: {
        e.what = "number of cells of nodes of no type";
        gridnodes* g = gridnodes_create(nx, ny, NT_NONE);
        bool first = s.chance(1, 2);
        e.act = [=] { if (first) gridnodes_getnce1(g); else gridnodes_getnce2(g); };
        e.after = [=] { gridnodes_destroy(g); };
        break;
    }
    case 15: case 16: {
        bool w = s.chance(1, 2);
        std::string d = scratch();
        e.what = "gu_fopen()"; e.path = w && s.chance(1, 2) ? d : d + "/nodir/file";
        e.words = {strerror(e.path == d ? EISDIR : ENOENT)};
        std::string f = e.path;
        if (k == 15) e.act = [=] { FILE* p = gu_fopen(f.c_str(), w ? "w" : "r"); if (p) fclose(p); };
        else {
            e.what = "output file that cannot be written";
            gridnodes* g = gridnodes_create(nx, ny, t);
            for (int z = 0; z < nx * ny; ++z) gridnodes_readnextpoint(g, z, -z);
            e.act = [=] { gridnodes_write(g, (char*) f.c_str(), CT_XY); };
            e.after = [=] { gridnodes_destroy(g); };
        }
        break;
    }
    case 17: {
        bool first = s.chance(1, 2);
        e.what = "grid without nodes";
        e.act = [=] { gridnodes_create(first ? 0 : nx, first ? ny : 0, t); };
        break;
    }
    default: {
        int a = 2 * s.range(1, 5), b = 2 * s.range(1, 5) - 1;
        bool first = s.chance(1, 2);
        gridnodes* g = gridnodes_create(first ? a : b, first ? b : a, NT_DD);
        e.what = "validation of even size of double density"; e.nums = {a};
        e.act = [=] { gridnodes_validate(g); };
        e.after = [=] { gridnodes_destroy(g); };
    }
    }
    return e;
}

static void errCase(Src& s, Ctx& c)
{
    int n = s.range(1, 4), who = -1, nsw = 0;
    for (int k = 0; k < n; ++k) {
        if (who < 0 || s.chance(1, 2)) {
            who = s.range(0, 2);
            gu_setquitfn(QUIT[who]);
            CHECK(gu_quit == QUIT[who], "the function is not set");
            c.desc << "error function " << who << "\n";
            nsw++;
        }
        Err e = genErr(s);
        c.desc << e.what << " " << e.path << "\n";
        c.label(e.what);
        NCALL = 0;
        bool t = false;
        gu_verbose = s.chance(1, 4);
        try { e.act(); } catch (Told& q) {
            gu_verbose = 0;
            t = true;
            CHECK(q.who == who, "%s: reported to function %d, while it is function %d that is set", e.what.c_str(), q.who, who);
            CHECK(!q.msg.empty(), "%s: no message", e.what.c_str());
            CHECK(!e.named || q.msg.find(e.path) != std::string::npos, "%s: the message \"%.300s\" does not name the file", e.what.c_str(), q.msg.c_str());
            for (long long v : e.nums) CHECK(mentions(q.msg, e.path, v), "%s: the message \"%.300s\" does not tell %lld", e.what.c_str(), q.msg.c_str(), v);
            for (auto& w : e.words) CHECK(q.msg.find(w) != std::string::npos, "%s: the message \"%.300s\" does not tell \"%s\"", e.what.c_str(), q.msg.c_str(), w.c_str());
        }
        gu_verbose = 0;
        CHECK(t && NCALL == 1, "%s: %d errors are reported", e.what.c_str(), NCALL);
        if (e.after) e.after();
    }
    // the library is still good for something
    Nodes m(s.range(2, 5), s.range(2, 5));
    for (int j = 0; j < m.ny; ++j)
        for (int i = 0; i < m.nx; ++i)
            if (!s.chance(1, 6)) { m.X(i, j) = i + 0.25 * j; m.Y(i, j) = j; }
            else m.X(i, j) = m.Y(i, j) = QNAN;
    gridnodes* g = gridnodes_read((char*) writeFile("good", gridText(m)).c_str(), NT_COR);
    std::string d = diffNodes(fromGridnodes(g), m, 0);
    CHECK(d.empty(), "a grid read after that: %s", d.c_str());
    gridnodes_destroy(g);
    c.nontrivial = true;
    c.label(nsw > 1, "function-replaced");
}

// the programs: the function of the library itself
static void progCase(Src& s, Ctx& c)
{
    int nx = 2 * s.range(1, 5) + 1, ny = 2 * s.range(1, 5) + 1, n = s.range(0, nx * ny - 1);
    std::string x = strf("## %d x %d\n", nx, ny);
    for (int q = 0; q < n; ++q) x += strf("%d %d\n", q % nx, q / nx);
    std::string f = writeFile("short", x), good;
    bool in = s.chance(1, 4);
    std::string a = in ? (s.chance(1, 2) ? "-" : "stdin") : f;
    Nodes m(nx, ny);
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { m.X(i, j) = i; m.Y(i, j) = j; }
    good = writeFile("good", gridText(m));
    bool san = s.chance(1, 8);
    std::vector<std::vector<std::string>> V = {{"getnodes", a, "-i", "dd", "-o", "co"}, {"getbound", a, "-i", "dd"}, {"subgrid", a, "-i", "0:1"}, {"insertgrid", a, good, "0", "0"}, {"insertgrid", good, a, "0", "0"}, {"xy2ij", "-g", a, "-o", good, "-i", "dd"}, {"setbathy", a, "-z", "1"}};
    auto v = V[s.draw(V.size())];
    c.desc << "short file, " << n << " nodes of " << nx << " x " << ny << ":";
    for (auto& w : v) c.desc << " " << w;
    c.desc << "\n";
    c.label(v[0]);
    bool bathy = v[0] == "setbathy";
    v[0] = tool(v[0], san);
    RunResult r = runSafe(v, in ? x : "");
    CHECK(r.code == 1, "exit code %d, expected 1", r.code);
    CHECK(bathy || r.out.empty(), "output: \"%.200s\"", r.out.c_str());
    size_t p = r.err.find("error");
    CHECK(p != std::string::npos, "no error message: \"%.300s\"", r.err.c_str());
    CHECK(mentions(r.err, a, n + 1) && mentions(r.err, a, nx) && mentions(r.err, a, ny), "the message \"%.300s\" does not tell about node %d of %d x %d", r.err.c_str(), n + 1, nx, ny);
    CHECK(r.err.find(a) != std::string::npos, "the message \"%.300s\" does not name the file", r.err.c_str());
    c.nontrivial = n > 0;
}

Property THE_PROPERTY = {"C33", "any error; programs: a file with some nodes",
    {{"library", errCase, 20000, 600000}, {"programs", progCase, 800, 10000}},
    {"the error function does not return"}};
