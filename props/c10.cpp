// C10: boundary polygon
#include "seams.h"

typedef std::pair<int, int> Ij;
typedef std::pair<Ij, Ij> Edge;

static std::set<Edge> outline(const Nodes& n)
{
    std::set<Edge> r;
    for (int j = 0; j < n.ny; ++j)
        for (int i = 0; i < n.nx; ++i) {
            if (i + 1 < n.nx && n.cell(i, j) != n.cell(i, j - 1))
                r.insert({{i, j}, {i + 1, j}});
            if (j + 1 < n.ny && n.cell(i, j) != n.cell(i - 1, j))
                r.insert({{i, j}, {i, j + 1}});
        }
    return r;
}

// judges a ring of node indices
static void judgeRing(const Nodes& n, const std::vector<Ij>& r)
{
    std::set<Edge> want = outline(n), got;
    CHECK(r.size() == want.size() + 1, "the polygon has %zu vertices, the outline has %zu edges", r.size(), want.size());
    CHECK(r.front() == r.back(), "the polygon is not closed: it starts at (%d,%d) and ends at (%d,%d)", r.front().first, r.front().second, r.back().first, r.back().second);
    for (size_t k = 0; k + 1 < r.size(); ++k) {
        Ij a = r[k], b = r[k + 1];
        CHECK(abs(a.first - b.first) + abs(a.second - b.second) == 1, "vertices %zu, (%d,%d), and %zu, (%d,%d), are not neighbour nodes", k, a.first, a.second, k + 1, b.first, b.second);
        Edge e = a < b ? Edge(a, b) : Edge(b, a);
        CHECK(want.count(e), "edge (%d,%d)-(%d,%d) does not belong to exactly one valid cell", a.first, a.second, b.first, b.second);
        CHECK(got.insert(e).second, "edge (%d,%d)-(%d,%d) is passed twice", a.first, a.second, b.first, b.second);
    }
}

static void judgeBoth(const Nodes& n, const std::vector<double>& x, const std::vector<double>& y, const std::vector<Ij>& r, double tol)
{
    CHECK(x.size() == r.size(), "the polygon has %zu vertices in physical and %zu in index space", x.size(), r.size());
    for (size_t k = 0; k < r.size(); ++k)
        CHECK(fabs(x[k] - n.X(r[k].first, r[k].second)) <= tol && fabs(y[k] - n.Y(r[k].first, r[k].second)) <= tol, "vertex %zu is node (%d,%d) in index space, but (%.17g, %.17g) in physical space", k, r[k].first, r[k].second, x[k], y[k]);
}

static std::vector<Ij> ring(poly* p)
{
    std::vector<Ij> r;
    for (int k = 0; k < p->n; ++k) {
        CHECK(p->x[k] == floor(p->x[k]) && p->y[k] == floor(p->y[k]), "index (%g, %g)", p->x[k], p->y[k]);
        r.push_back({(int) p->x[k], (int) p->y[k]});
    }
    return r;
}

static long double shoelace(const std::vector<double>& x, const std::vector<double>& y)
{
    long double a = 0;
    for (size_t k = 0; k < x.size(); ++k) {
        size_t l = (k + 1) % x.size();
        a += ((long double) x[k] - x[0]) * ((long double) y[l] - y[0]) - ((long double) x[l] - x[0]) * ((long double) y[k] - y[0]);
    }
    return a / 2;
}

static void judgeGrid(Src& s, Ctx& c, const Grid& G)
{
    const Nodes& n = G.n;
    c.desc << "boundary of\n" << brief(n, 400);
    c.nontrivial = G.cells.size() > 1 && G.cells.size() < (size_t) G.nce1() * G.nce2();
    CNodes A(n);
    poly *p = poly_formbound(G.nce1(), G.nce2(), A.gx, A.gy), *q = poly_formboundij(G.nce1(), G.nce2(), A.gx);
    std::vector<Ij> r = ring(q);
    judgeRing(n, r);
    std::vector<double> x(p->x, p->x + p->n), y(p->y, p->y + p->n);
    judgeBoth(n, x, y, r, 0);
    long double want = 0, per = 0;
    for (auto& ij : G.cells) {
        Cell k = cellOf(n, ij.first, ij.second);
        std::vector<double> cx(k.x, k.x + 4), cy(k.y, k.y + 4);
        want += fabsl(shoelace(cx, cy));
    }
    for (size_t k = 0; k + 1 < x.size(); ++k)
        per += hypot(x[k + 1] - x[k], y[k + 1] - y[k]);
    long double got = fabsl(shoelace(x, y));
    CHECK(fabsl(got - want) <= 64 * DBL_EPSILON * (want + G.g.M * per), "the polygon encloses area %.17Lg, the cells have %.17Lg", got, want);
    double pa = fabs(poly_area(p));
    CHECK(fabsl(pa - want) <= 16 * DBL_EPSILON * (G.g.M + 1e-300) * (per + G.g.M * 0) + 64 * DBL_EPSILON * x.size() * want, "poly_area() is %.17g, the cells have %.17Lg", pa, want);
    CHECK(fabs(poly_area(q)) == G.cells.size(), "the area in index space is %.17g for %zu cells", poly_area(q), G.cells.size());
    poly_destroy(p);
    poly_destroy(q);
}
static void libCase(Src& s, Ctx& c, int big)
{
    GeomOpts o;
    o.exact = s.chance(1, 3);
    judgeGrid(s, c, genGrid(s, c, o, big));
}
// (in index space these grids are simply connected)
static void seamCase(Src& s, Ctx& c)
{
    Grid G;
    G.n = genSeams(s).n;
    int nx = G.n.nx, ny = G.n.ny;
    if (s.chance(1, 2)) {
        std::vector<char> m = genDiskMask(s, c, nx, ny, s.chance(1, 2));
        applyMask(G.n, m);
    }
    for (int j = 0; j + 1 < ny; ++j)
        for (int i = 0; i + 1 < nx; ++i)
            if (G.n.cell(i, j)) G.cells.push_back({i, j});
    G.g.M = maxAbs(G.n);
    judgeGrid(s, c, G);
    c.nontrivial = G.cells.size() > 1;
}
static void smallCase(Src& s, Ctx& c) { libCase(s, c, 25); }
static void bigCase(Src& s, Ctx& c) { libCase(s, c, thorough() ? 200 : 80); }

static void emptyCase(Src& s, Ctx& c)
{
    int n1 = s.range(1, 8), n2 = s.range(1, 8);
    Nodes n(n1 + 1, n2 + 1);
    c.desc << "boundary of\n" << brief(n);
    CNodes A(n);
    poly *p = poly_formbound(n1, n2, A.gx, A.gy), *q = poly_formboundij(n1, n2, A.gx);
    CHECK(p->n == 0 && q->n == 0, "the boundary of a grid with no cells has %d and %d vertices", p->n, q->n);
    poly_destroy(p);
    poly_destroy(q);
    c.nontrivial = true;
}

static bool parsePoly(const std::string& t, std::vector<double>& x, std::vector<double>& y)
{
    std::vector<std::string> L = lines(t);
    int n, off = 0;
    if (L.empty() || sscanf(L[0].c_str(), "## %d%n", &n, &off) != 1 || off != (int) L[0].size() || (int) L.size() != n + 1)
        return false;
    for (int k = 1; k <= n; ++k) {
        double a, b;
        off = 0;
        if (sscanf(L[k].c_str(), "%lf %lf%n", &a, &b, &off) != 2 || off != (int) L[k].size())
            return false;
        x.push_back(a);
        y.push_back(b);
    }
    return true;
}

static void cliCase(Src& s, Ctx& c)
{
    GeomOpts o;
    Grid G = genGrid(s, c, o, 0);
    Nodes n = rounded15(G.n), in = n;
    bool dd = s.chance(1, 2);
    if (dd) {                   // corner nodes within double density nodes, with arbitrary other nodes
        in = Nodes(2 * n.nx - 1, 2 * n.ny - 1);
        bool bare = s.chance(1, 3);
        for (int j = 0; j < in.ny; ++j)
            for (int i = 0; i < in.nx; ++i) {
                if (i % 2 == 0 && j % 2 == 0) {
                    in.X(i, j) = n.X(i / 2, j / 2);
                    in.Y(i, j) = n.Y(i / 2, j / 2);
                } else if (!bare && s.chance(2, 3))
                    in.X(i, j) = in.Y(i, j) = i + j;
            }
    } else {                    // loose nodes, which validation removes
        for (int k = s.range(0, 4); k > 0; --k) {
            int i = s.range(0, n.nx - 1), j = s.range(0, n.ny - 1);
            Nodes t = in;
            t.X(i, j) = t.Y(i, j) = 1;
            if (!n.v(i, j) && diffNodes(modelValidateCO(t), n, 0) == "")
                in = t;
        }
    }
    c.desc << "getbound -i " << (dd ? "dd" : "co") << "\n" << brief(in, 400);
    c.nontrivial = G.cells.size() > 1 && G.cells.size() < (size_t) G.nce1() * G.nce2();
    std::vector<std::string> av = {tool("getbound", s.chance(1, 8)), "-"};
    if (!dd || s.chance(1, 2)) {
        av.push_back("-i");
        av.push_back(tname(s, dd ? NT_DD : NT_COR));
    }
    std::vector<std::string> av2 = av;
    av2.push_back("-r");
    RunResult a = runSafe(av, gridText(in)), b = runSafe(av2, gridText(in));
    CHECK(a.ok() && b.ok(), "exit codes %d and %d: %s%s", a.code, b.code, a.err.c_str(), b.err.c_str());
    std::vector<double> x, y, fi, fj;
    CHECK(parsePoly(a.out, x, y), "the output is not in the polygon format:\n%s", a.out.c_str());
    CHECK(parsePoly(b.out, fi, fj), "the output is not in the polygon format:\n%s", b.out.c_str());
    std::vector<Ij> r;
    for (size_t k = 0; k < fi.size(); ++k) {
        CHECK(fi[k] == floor(fi[k]) && fj[k] == floor(fj[k]), "index (%g, %g)", fi[k], fj[k]);
        r.push_back({(int) fi[k], (int) fj[k]});
    }
    judgeRing(n, r);
    judgeBoth(n, x, y, r, 0);
}

Property THE_PROPERTY = {"C10", "the grid has two valid cells or more and some invalid ones (no cells: the boundary must be empty)",
    {{"library", smallCase, 40000, 1000000}, {"big", bigCase, 1500, 30000}, {"seams", seamCase, 4000, 100000}, {"no-cells", emptyCase, 200, 2000}, {"program", cliCase, 2500, 50000}, {"huge-library", smallCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}},
    {"the union of valid cells is simply connected without pinch points"}};
