// C28: the programs agree with each other
#include "locate.h"
#include "model.h"

static std::string show(const std::vector<std::string>& av)
{
    std::string t;
    for (size_t k = 0; k < av.size(); ++k) t += (k ? " " : "") + (k ? av[k] : av[k].substr(av[k].rfind('/') + 1));
    return t;
}
// output of a program that is expected to succeed
static std::string out(Src& s, Ctx& c, const char* prog, std::vector<std::string> a, const std::string& in = "")
{
    a.insert(a.begin(), tool(prog, s.chance(1, 12)));
    c.desc << show(a) << "\n";
    RunResult r = runSafe(a, in);
    CHECK(r.ok(), "%s: exit code %d: %s", show(a).c_str(), r.code, r.err.c_str());
    return r.out;
}
static void sameText(const std::string& a, const std::string& b, const char* what)
{
    if (a == b) return;
    std::vector<std::string> A = lines(a), B = lines(b);
    for (size_t k = 0; k < std::max(A.size(), B.size()); ++k)
        if (k >= A.size() || k >= B.size() || A[k] != B[k])
            fail("%s: line %zu is \"%s\" one way and \"%s\" the other way", what, k + 1, k < A.size() ? A[k].c_str() : "(none)", k < B.size() ? B[k].c_str() : "(none)");
    fail("%s: output differs in the end of the last line", what);
}
// comparison of grids that went through different calculations
static void sameGrid(const std::string& a, const std::string& b, double tol, const char* what)
{
    Nodes A, B;
    std::string why;
    CHECK(parseGrid(a, A, &why) && parseGrid(b, B, &why), "%s: %s", what, why.c_str());
    why = diffNodes(A, B, tol);
    CHECK(why == "", "%s: %s", what, why.c_str());
}
static int nvalid(const Nodes& n) { int k = 0; for (double x : n.x) k += !std::isnan(x); return k; }

static Nodes anyNodes(Src& s, Ctx& c, int nx, int ny)
{
    Geom g;
    GeomOpts o;
    o.exact = s.chance(1, 3);
    Nodes n = genGeometry(s, c, nx, ny, o, g);
    killPattern(s, c, n);
    return rounded15(n);
}
// corner or double density nodes of a simply connected grid
static Nodes diskNodes(Src& s, Ctx& c, bool dd, Grid& G)
{
    GeomOpts o;
    G = genGrid(s, c, o, 0);
    G.n = rounded15(G.n);
    if (!dd) return G.n;
    Nodes r(2 * G.n.nx - 1, 2 * G.n.ny - 1), m = modelCO2DD(G.n);
    for (size_t k = 0; k < r.n(); ++k)
        if (!std::isnan(m.x[k]) && !std::isnan(m.y[k]) && !s.chance(1, 20)) { r.x[k] = r15(m.x[k] + 0.01 * G.g.h); r.y[k] = r15(m.y[k]); }
    for (int j = 0; j < G.n.ny; ++j)
        for (int i = 0; i < G.n.nx; ++i) { r.X(2 * i, 2 * j) = G.n.X(i, j); r.Y(2 * i, 2 * j) = G.n.Y(i, j); }
    return r;
}

// ---- cutting a grid in pieces and putting them together again
static void piecesCase(Src& s, Ctx& c)
{
    int nx = s.range(1, 14), ny = s.range(1, 14);
    if (HUGE_MODE) hugeSize(s, nx, ny);
    Nodes n = anyNodes(s, c, nx, ny);
    std::vector<int> ci = {0}, cj = {0};
    for (int i = 1; i < nx; ++i) if (s.chance(1, 4)) ci.push_back(i);
    for (int j = 1; j < ny; ++j) if (s.chance(1, 4)) cj.push_back(j);
    if (ci.size() * cj.size() > 12) {
        if (HUGE_MODE)                  // pieces of any size
            for (auto v : {&ci, &cj}) while (v->size() > 4) v->erase(v->begin() + 1 + s.draw(v->size() - 1));
        ci.resize(std::min<size_t>(ci.size(), 3)); cj.resize(std::min<size_t>(cj.size(), 3)); }
    bool merge = s.chance(1, 2);
    int over = s.chance(1, 3) ? s.range(1, 3) : 0;      // pieces may overlap
    c.desc << brief(n, 300);
    std::string g = writeFile("g", gridText(n)), all;
    std::string want = out(s, c, "subgrid", {g});
    std::vector<std::pair<int, int>> order;
    for (size_t b = 0; b < cj.size(); ++b) for (size_t a = 0; a < ci.size(); ++a) order.push_back({(int) a, (int) b});
    for (size_t k = order.size(); k > 2; --k) std::swap(order[k - 1], order[1 + s.draw(k - 1)]);       // the first one has to be at the origin
    for (auto& o : order) {
        int i0 = ci[o.first], j0 = cj[o.second], i1 = (o.first + 1 < (int) ci.size() ? ci[o.first + 1] : nx) - 1 + over, j1 = (o.second + 1 < (int) cj.size() ? cj[o.second + 1] : ny) - 1 + over;
        std::string p = out(s, c, "subgrid", {g, "-i", strf("%d:%d", i0, i1), "-j", strf("%d:%d", j0, j1)});
        if (all == "") { all = p; continue; }
        std::vector<std::string> a = {"-", writeFile("p", p), strf("%d", i0), strf("%d", j0)};
        if (merge) a.push_back("-m");
        all = out(s, c, "insertgrid", a, all);
    }
    sameText(all, want, "grid put together from pieces");
    c.nontrivial = order.size() > 1 && nvalid(n) > 0;
    c.label(order.size() > 4, "more-than-4-pieces");
}

// ---- extraction and conversion in either order
static void commuteCase(Src& s, Ctx& c)
{
    int n1 = s.range(1, 9), n2 = s.range(1, 9);
    if (HUGE_MODE) hugeSize(s, n1, n2);
    bool dd = s.chance(2, 3);
    Nodes n = anyNodes(s, c, dd ? 2 * n1 + 1 : n1 + 1, dd ? 2 * n2 + 1 : n2 + 1);
    int a = s.range(0, n1 - 1), b = s.range(a, n1 - 1), e = s.range(0, n2 - 1), d = s.range(e, n2 - 1);         // cells
    NODETYPE ti = dd ? NT_DD : NT_COR, to = dd ? (NODETYPE) s.range(NT_DD, NT_COR) : NT_COR;
    auto range = [&](NODETYPE t, int lo, int hi) { return t == NT_DD ? strf("%d:%d", 2 * lo, 2 * hi + 2) : t == NT_COR ? strf("%d:%d", lo, hi + 1) : strf("%d:%d", lo, hi); };
    c.desc << brief(n, 300);
    std::string g = gridText(n);
    std::string one = out(s, c, "getnodes", {"-", "-i", tname(s, ti), "-o", tname(s, to)}, out(s, c, "subgrid", {"-", "-i", range(ti, a, b), "-j", range(ti, e, d)}, g));
    std::string two = out(s, c, "getnodes", {"-", "-i", tname(s, ti), "-o", tname(s, to)}, g);
    two = out(s, c, "subgrid", {"-", "-i", range(to, a, b), "-j", range(to, e, d)}, two);
    two = out(s, c, "getnodes", {"-", "-i", tname(s, to), "-o", tname(s, to)}, two);
    sameText(one, two, "conversion of a subgrid and subgrid of the converted grid");
    c.nontrivial = nvalid(n) > 0 && (a > 0 || e > 0 || b < n1 - 1 || d < n2 - 1);
    c.label(strf("%s -> %s", nodetype2str[ti], nodetype2str[to]));
}

// ---- chains of conversions
static void chainCase(Src& s, Ctx& c)
{
    Grid G;
    bool dd = s.chance(1, 2);
    Nodes n = diskNodes(s, c, dd, G);
    std::string g = gridText(n);
    c.desc << brief(n, 300);
    auto conv = [&](const std::string& t, NODETYPE a, NODETYPE b) { return out(s, c, "getnodes", {"-", "-i", tname(s, a), "-o", tname(s, b)}, t); };
    double tol = 4e-15 * (G.g.M + G.g.h);
    std::string co = conv(g, dd ? NT_DD : NT_COR, NT_COR);
    sameText(conv(co, NT_COR, NT_COR), co, "corner nodes converted to the same type");
    std::string d2 = conv(co, NT_COR, NT_DD);
    sameText(conv(d2, NT_DD, NT_COR), co, "corner nodes -> double density nodes -> corner nodes");
    sameText(conv(d2, NT_DD, NT_DD), d2, "double density nodes converted to the same type");
    std::string ce = conv(co, NT_COR, NT_CEN);
    sameGrid(conv(d2, NT_DD, NT_CEN), ce, tol, "corner nodes -> double density nodes -> centre nodes");
    sameText(conv(ce, NT_CEN, NT_CEN), ce, "centre nodes converted to the same type");
    if (s.chance(1, 2)) sameText(conv(conv(ce, NT_CEN, NT_DD), NT_DD, NT_COR), conv(ce, NT_CEN, NT_COR), "centre nodes -> double density nodes -> corner nodes");
    // nodes by forward mapping
    bool at = s.chance(1, 2);
    Nodes D;
    std::string why;
    CHECK(parseGrid(d2, D, &why), "%s", why.c_str());
    std::string ind, x;
    std::vector<std::pair<int, int>> q;
    for (int k = s.range(1, 20); k > 0; --k) {
        int i = s.draw(D.nx), j = s.draw(D.ny);
        if (at) { i &= ~1; j &= ~1; }
        ind += strf("%g %g\n", i / 2.0, j / 2.0);
        q.push_back({i, j});
    }
    std::vector<std::string> av = {"-g", writeFile("g", at && s.chance(1, 2) ? d2 : co), "-o", "-", "-r"};
    av.insert(av.end(), {"-i", readFile(av[1]) == d2 ? "dd" : "co"});
    if (s.chance(1, 2)) av.push_back("-k");
    std::vector<std::string> L = lines(out(s, c, "xy2ij", av, ind));
    CHECK(L.size() == q.size(), "%zu lines from xy2ij for %zu points", L.size(), q.size());
    for (size_t k = 0; k < q.size(); ++k) {
        double a, b, X = D.X(q[k].first, q[k].second), Y = D.Y(q[k].first, q[k].second);
        CHECK(sscanf(L[k].c_str(), "%lf %lf", &a, &b) == 2 && std::isnan(a) == std::isnan(X) && !(fabs(a - X) > tol) && !(fabs(b - Y) > tol), "node (%g, %g) is \"%.15g %.15g\" by getnodes and \"%s\" by xy2ij", q[k].first / 2.0, q[k].second / 2.0, X, Y, L[k].c_str());
    }
    c.nontrivial = G.cells.size() > 1;
    c.label(dd ? "from-dd" : "from-co");
}

// ---- programs that take grids of either type
static void typesCase(Src& s, Ctx& c)
{
    Grid G;
    Nodes n = diskNodes(s, c, true, G);
    std::string g = writeFile("g", gridText(n));
    c.desc << brief(n, 300);
    std::string co = writeFile("co", out(s, c, "getnodes", {g, "-i", "dd", "-o", "co"}));
    std::vector<std::string> opt;
    int p = s.range(0, 2);
    const char* prog = p == 0 ? "getbound" : p == 1 ? "xy2ij" : "gridbathy";
    std::string in, a1, a2;
    Locator L(G.n);
    if (p == 0) {
        if (s.chance(1, 2)) opt.push_back("-r");
        if (s.chance(1, 2)) opt.push_back("-c");
        opt.insert(opt.begin(), {"", "-i", ""});
    } else if (p == 1) {
        bool rev = s.chance(1, 2);
        for (int k = s.range(1, 20); k > 0; --k) {
            double x, y;
            const char* kind;
            if (rev) { x = s.real(-1, G.nce1() + 1); y = s.real(-1, G.nce2() + 1); }
            else genPoint(s, L, G.g.h, x, y, &kind);
            in += strf("%.17g %.17g rest\n", x, y);
        }
        opt = {"-g", "", "-i", "", "-o", "-", "-f"};
        if (rev) opt.push_back("-r");
        if (s.chance(1, 2)) opt.push_back("-k");
    } else {
        for (int k = s.range(4, 30); k > 0; --k) {
            double x, y;
            const char* kind;
            do genPoint(s, L, G.g.h, x, y, &kind); while (!std::isfinite(x + y));
            in += strf("%.17g %.17g %d\n", x, y, s.range(-99, 99));
        }
        opt = {"-g", "", "-i", "", "-b", "-", "-a", "4"};
    }
    auto with = [&](const std::string& f, const char* t) { std::vector<std::string> o = opt; o[p != 0] = f; o[p ? 3 : 2] = t; return o; };
    a1 = out(s, c, prog, with(g, "dd"), in);
    a2 = out(s, c, prog, with(co, "co"), in);
    sameText(a1, a2, strf("%s of double density nodes and of their corner nodes", prog).c_str());
    c.nontrivial = G.cells.size() > 1;
    c.label(prog);
}

// ---- a mask applied before or after the conversion
static void maskCase(Src& s, Ctx& c)
{
    int n1 = s.range(1, 9), n2 = s.range(1, 9);
    if (HUGE_MODE) hugeSize(s, n1, n2);
    Nodes n = anyNodes(s, c, 2 * n1 + 1, 2 * n2 + 1);
    std::string m;
    int zeros = 0;
    for (int k = 0; k < n1 * n2; ++k) { int b = s.draw(3) > 0; zeros += !b; m += b ? "1\n" : "0\n"; }
    std::string f = writeFile("m", m);
    c.desc << brief(n, 300) << "mask:\n" << m;
    std::string one = out(s, c, "getnodes", {"-", "-i", "dd", "-o", "ce", "-m", f}, gridText(n));
    std::string dd = out(s, c, "getnodes", {"-", "-i", "dd", "-o", "dd", "-m", f}, gridText(n));
    sameText(one, out(s, c, "getnodes", {"-", "-i", "dd", "-o", "ce"}, dd), "masked centre nodes and centre nodes of the masked double density nodes");
    sameText(one, out(s, c, "getnodes", {"-", "-i", "ce", "-o", "ce", "-m", f}, one), "centre nodes masked once and twice");
    sameText(dd, out(s, c, "getnodes", {"-", "-i", "dd", "-o", "dd", "-m", f}, dd), "double density nodes masked once and twice");
    c.nontrivial = zeros > 0 && zeros < n1 * n2 && nvalid(n) > 0;
}

// ---- gridded averages and mapped data points
static void bathyCase(Src& s, Ctx& c)
{
    GeomOpts go;
    Grid G = genGrid(s, c, go, 0);
    G.n = rounded15(G.n);
    Locator L(G.n);
    int n1 = G.nce1(), n2 = G.nce2();
    std::string data;
    for (int k = s.range(4, 40); k > 0; --k) {
        double x, y;
        const char* kind;
        do genPoint(s, L, G.g.h, x, y, &kind); while (!std::isfinite(x + y));
        data += strf("%.17g %.17g %g\n", x, y, s.range(-400, 400) / 4.0);
    }
    std::string g = writeFile("g", gridText(G.n)), b = writeFile("b", data);
    c.desc << brief(G.n, 300) << "data:\n" << data;
    std::vector<std::string> I = lines(out(s, c, "xy2ij", {"-g", g, "-i", "co", "-o", b, "-f"})), B = lines(out(s, c, "gridbathy", {"-g", g, "-i", "co", "-b", b, "-a", "4"})), D = lines(data);
    CHECK(I.size() == D.size(), "%zu lines from xy2ij for %zu points", I.size(), D.size());
    CHECK((int) B.size() == n1 * n2, "%zu lines from gridbathy for %d cells", B.size(), n1 * n2);
    std::vector<long double> sum(n1 * n2);
    std::vector<int> num(n1 * n2);
    std::vector<char> unsure(n1 * n2);
    int several = 0;
    for (auto& l : I) {
        double i, j, z;
        CHECK(sscanf(l.c_str(), "%lf %lf %lf", &i, &j, &z) == 3, "xy2ij: line \"%s\"", l.c_str());
        if (std::isnan(i)) continue;
        CHECK(i >= 0 && j >= 0 && i <= n1 && j <= n2, "xy2ij: line \"%s\"", l.c_str());
        if (fabs(i - rint(i)) < 1e-6 || fabs(j - rint(j)) < 1e-6) {     // which of the cells?
            for (int a = (int) floor(i - 1e-6); a <= (int) floor(i + 1e-6); ++a)
                for (int b = (int) floor(j - 1e-6); b <= (int) floor(j + 1e-6); ++b)
                    if (a >= 0 && b >= 0 && a < n1 && b < n2) unsure[b * n1 + a] = 1;
            continue;
        }
        int k = (int) j * n1 + (int) i;
        sum[k] += z;
        several += num[k]++ > 0;
    }
    int nval = 0;
    for (int k = 0; k < n1 * n2; ++k) {
        if (unsure[k]) continue;
        if (!num[k]) CHECK(B[k] == "NaN", "cell (%d,%d) without data by xy2ij has \"%s\" by gridbathy", k % n1, k / n1, B[k].c_str());
        else {
            char* e;
            double v = strtod(B[k].c_str(), &e);
            CHECK(e != B[k].c_str() && !*e && fabsl(v - sum[k] / num[k]) <= 0.0050001L, "cell (%d,%d) has \"%s\" by gridbathy, but the average of the data in it by xy2ij is %.4Lf", k % n1, k / n1, B[k].c_str(), sum[k] / num[k]);
            nval++;
        }
    }
    // a single cell
    int ci = s.range(0, n1 - 1), cj = s.range(0, n2 - 1);
    sameText(out(s, c, "gridbathy", {"-g", g, "-i", "co", "-b", b, "-a", "4", "-c", strf("%d", ci), strf("%d", cj)}), B[cj * n1 + ci] + "\n", "one cell and the same cell of all");
    // a part of the cells replaced
    std::string all, rep;
    int w = s.range(0, n1 - 1), h = s.range(0, n2 - 1);
    for (int k = 0; k < n1 * n2; ++k) {
        all += B[k] + "\n";
        rep += (k % n1 >= ci && k % n1 <= ci + w && k / n1 >= cj && k / n1 <= cj + h ? "-9.5" : B[k]) + "\n";
    }
    sameText(out(s, c, "setbathy", {"-", "-d", strf("%dx%d", n1, n2), "-z", "-9.5", "-i", strf("%d:%d", ci, ci + w), "-j", strf("%d:%d", cj, cj + h)}, all), rep, "depths set in a part of the grid");
    c.nontrivial = nval > 0 && several;
}

// ---- cells printed alone and all cells, with any options
static void aloneCase(Src& s, Ctx& c)
{
    Grid G;
    bool dd = s.chance(1, 2);
    Nodes n = diskNodes(s, c, dd, G);
    Locator L(G.n);
    int n1 = G.nce1(), n2 = G.nce2(), rule = s.range(0, 4);
    std::string data;
    for (int k = s.range(4, 30); k > 0; --k) {
        double x, y;
        const char* kind;
        do genPoint(s, L, G.g.h, x, y, &kind); while (!std::isfinite(x + y));
        data += strf("%.17g %.17g %g\n", x, y, s.range(-400, 400) / 4.0);
    }
    std::vector<std::string> a = {"-g", writeFile("g", gridText(n)), "-i", dd ? "dd" : "co", "-b", writeFile("b", data), "-a", strf("%d", rule)};
    c.desc << brief(n, 300) << "data:\n" << data;
    bool masked = s.chance(1, 2);
    if (masked) {
        std::string m;
        for (int k = 0; k < n1 * n2; ++k) m += s.chance(1, 2) ? "1\n" : "0\n";
        c.desc << "mask:\n" << m;
        a.insert(a.end(), {"-m", writeFile("m", m)});
    }
    if (s.chance(1, 2)) a.insert(a.end(), {"-n", strf("%d", s.range(1, 4))});
    if (s.chance(1, 2)) a.insert(a.end(), {"-r", "-50", "50"});
    if (rule != 4 && s.chance(1, 4)) {
        // (in index space there have to be data left)
        std::vector<std::string> I = lines(out(s, c, "xy2ij", {"-g", a[1], "-i", a[3], "-o", a[5], "-f"}));
        int k = 0;
        for (auto& l : I) k += l.compare(0, 3, "NaN") != 0;
        if (k >= 3) a.push_back("-x");
    }
    std::vector<std::string> B = lines(out(s, c, "gridbathy", a));
    CHECK((int) B.size() == n1 * n2, "%zu lines from gridbathy for %d cells", B.size(), n1 * n2);
    int nval = 0;
    for (int k = s.range(1, 3); k > 0; --k) {
        int ci = s.range(0, n1 - 1), cj = s.range(0, n2 - 1);
        std::vector<std::string> o = a;
        o.insert(o.begin() + 2 * s.draw(4), {"-c", strf("%d", ci), strf("%d", cj)});
        sameText(out(s, c, "gridbathy", o), B[cj * n1 + ci] + "\n", "one cell and the same cell of all");
        nval += B[cj * n1 + ci] != "NaN";
    }
    c.nontrivial = n1 * n2 > 1 && (masked || nval);
    c.label(masked ? "masked" : "not-masked");
}

Property THE_PROPERTY = {"C28", "several pieces, part of the cells, several cells, a mask of both kinds, or cells with several data points",
    {{"pieces", piecesCase, 700, 20000}, {"subgrid-and-conversion", commuteCase, 1500, 40000}, {"chains", chainCase, 500, 15000}, {"types", typesCase, 1500, 40000}, {"mask", maskCase, 700, 20000}, {"bathymetry", bathyCase, 1000, 30000}, {"single-cells", aloneCase, 500, 15000}, {"huge-pieces", piecesCase, 8, 400, 1}, {"huge-subgrid-and-conversion", commuteCase, 8, 400, 1}, {"huge-chains", chainCase, 8, 400, 1}, {"huge-types", typesCase, 8, 400, 3000}, {"huge-mask", maskCase, 8, 400, 1}, {"huge-bathymetry", bathyCase, 8, 400, 3000}},
    {"grids are simply connected where a program has to build a map or a boundary", "data points within 1e-6 index units from a cell side may be counted for either cell"}};
