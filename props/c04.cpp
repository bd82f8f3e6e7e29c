// C04: recovery of corner nodes from centre nodes
#include "model.h"

// the bilinear function through the 2x2 block of nodes with the lower left node (i,j), at index (fi,fj)
static void blockAt(const Nodes& n, int i, int j, double fi, double fj, long double& x, long double& y)
{
    long double u = fi - i, v = fj - j;
    x = (1 - u) * (1 - v) * n.X(i, j) + u * (1 - v) * n.X(i + 1, j) + (1 - u) * v * n.X(i, j + 1) + u * v * n.X(i + 1, j + 1);
    y = (1 - u) * (1 - v) * n.Y(i, j) + u * (1 - v) * n.Y(i + 1, j) + (1 - u) * v * n.Y(i, j + 1) + u * v * n.Y(i + 1, j + 1);
}

// checks got against all admissible values; k: nodes per cell (1 corner, 2 double density)
static std::string judge(const Nodes& ce, const Nodes& got, int k, double tol)
{
    int nx = k * ce.nx + 1, ny = k * ce.ny + 1;
    if (got.nx != nx || got.ny != ny)
        return strf("the result is %d x %d instead of %d x %d", got.nx, got.ny, nx, ny);
    // which nodes are extrapolated
    Nodes has(nx, ny);
    std::vector<std::vector<std::pair<int, int>>> cand((size_t) nx * ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            // positions in index space of centre nodes, in units of 1/2k to be exact
            long best = 1L << 60;
            auto& cs = cand[(size_t) j * nx + i];
            int ic = i / k, jc = j / k;
            for (int b = std::max(0, jc - 4); b <= std::min(ce.ny - 2, jc + 4); ++b)
                for (int a = std::max(0, ic - 4); a <= std::min(ce.nx - 2, ic + 4); ++a) {
                    if (!ce.cell(a, b))
                        continue;
                    long dx = (2 * i - k) - (2 * a + 1) * k, dy = (2 * j - k) - (2 * b + 1) * k; // times 1/(2k)
                    long d2 = dx * dx + dy * dy;
                    if (d2 * 1 >= 9L * k * k)            // distance < 1.5
                        continue;
                    if (d2 < best) {
                        best = d2;
                        cs.clear();
                    }
                    if (d2 == best)
                        cs.push_back({a, b});
                }
            if (!cs.empty())
                has.X(i, j) = has.Y(i, j) = 0;
        }
    Nodes v = k == 1 ? modelValidateCO(has) : modelValidateDD(has);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double gx = got.X(i, j), gy = got.Y(i, j);
            if (!v.v(i, j)) {
                if (!std::isnan(gx) || !std::isnan(gy))
                    return strf("node (%d,%d) is (%.17g, %.17g) but must be invalid", i, j, gx, gy);
                continue;
            }
            bool ok = false;
            long double wx = 0, wy = 0;
            for (auto& q : cand[(size_t) j * nx + i]) {
                blockAt(ce, q.first, q.second, (double) i / k - 0.5, (double) j / k - 0.5, wx, wy);
                if (fabsl(wx - gx) <= tol && fabsl(wy - gy) <= tol)
                    ok = true;
            }
            if (!ok)
                return strf("node (%d,%d) is (%.17g, %.17g), the nearest block of centre nodes gives (%.17Lg, %.17Lg)", i, j, gx, gy, wx, wy);
        }
    return "";
}

static Nodes subject(Src& s, Ctx& c, int big, double& M)
{
    int n1, n2;
    genSize(s, n1, n2, big);
    Geom g;
    GeomOpts o;
    o.exact = s.chance(1, 4);
    Nodes n = genGeometry(s, c, n1, n2, o, g);
    killPattern(s, c, n);
    M = maxAbs(n);
    c.label(n1 == 1 || n2 == 1, "single-row-or-column");
    int nb = 0;
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            nb += n.cell(i, j);
    c.label(nb == 0 ? "no-blocks" : nb == 1 ? "one-block" : "blocks");
    c.nontrivial = nb > 1;
    return n;
}

static void libCase(Src& s, Ctx& c)
{
    double M;
    Nodes n = subject(s, c, s.chance(1, 30) ? 50 : 0, M);
    NODETYPE to = s.chance(1, 2) ? NT_COR : NT_DD;
    c.desc << "center -> " << nodetype2str[to] << "\n" << brief(n, 400);
    c.label(nodetype2str[to]);
    gridnodes* gn = toGridnodes(n, NT_CEN);
    gridnodes_setmaptype(gn, s.range(0, 1));
    gridnodes* g2 = gridnodes_transform(gn, to);
    std::string d = judge(n, fromGridnodes(g2), to == NT_DD ? 2 : 1, 200 * DBL_EPSILON * M);
    CHECK(d == "", "%s", d.c_str());
    d = diffNodes(fromGridnodes(gn), n, 0);
    CHECK(d == "", "the source changed: %s", d.c_str());
    CHECK(gridnodes_getnce1(g2) == n.nx && gridnodes_getnce2(g2) == n.ny, "the result has %d x %d cells", gridnodes_getnce1(g2), gridnodes_getnce2(g2));
    // the double density nodes contain the corner nodes and the centre nodes
    if (to == NT_DD) {
        Nodes dd = fromGridnodes(g2), ce = modelDD2CE(dd);
        for (size_t k = 0; k < ce.n(); ++k)
            if (!std::isnan(ce.x[k]) && !std::isnan(n.x[k]))
                CHECK(fabs(ce.x[k] - n.x[k]) <= 200 * DBL_EPSILON * M && fabs(ce.y[k] - n.y[k]) <= 200 * DBL_EPSILON * M, "centre node %zu is not retained", k);
    }
    gridnodes_destroy(gn);
    gridnodes_destroy(g2);
}

// affine grids are recovered exactly
static void affineCase(Src& s, Ctx& c)
{
    int n1, n2;
    genSize(s, n1, n2, 0);
    n1 = std::max(n1, 2);
    n2 = std::max(n2, 2);
    double a = s.range(-20, 20), b = s.range(-20, 20), p = s.range(-20, 20), q = s.range(-20, 20), x0 = s.range(-1000, 1000), y0 = s.range(-1000, 1000);
    if (a * q - b * p == 0)
        discard();
    Nodes n(n1, n2);
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i) {
            n.X(i, j) = x0 + a * (i + 0.5) + b * (j + 0.5);
            n.Y(i, j) = y0 + p * (i + 0.5) + q * (j + 0.5);
        }
    killPattern(s, c, n);
    NODETYPE to = s.chance(1, 2) ? NT_COR : NT_DD;
    int k = to == NT_DD ? 2 : 1;
    c.desc << "affine, center -> " << nodetype2str[to] << "\n" << brief(n, 400);
    gridnodes* gn = toGridnodes(n, NT_CEN);
    gridnodes* g2 = gridnodes_transform(gn, to);
    Nodes r = fromGridnodes(g2);
    std::string d = judge(n, r, k, 1e-9);
    CHECK(d == "", "%s", d.c_str());
    int nv = 0;
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i)
            if (r.v(i, j)) {
                nv++;
                double fi = (double) i / k, fj = (double) j / k;
                double wx = x0 + a * fi + b * fj, wy = y0 + p * fi + q * fj;
                CHECK(fabs(r.X(i, j) - wx) <= 1e-9 && fabs(r.Y(i, j) - wy) <= 1e-9, "node (%d,%d) is (%.17g, %.17g) instead of (%.17g, %.17g)", i, j, r.X(i, j), r.Y(i, j), wx, wy);
            }
    c.nontrivial = nv > 4;
    gridnodes_destroy(gn);
    gridnodes_destroy(g2);
}

static void cliCase(Src& s, Ctx& c)
{
    double M;
    Nodes n = rounded15(subject(s, c, 0, M));
    NODETYPE to = s.chance(1, 2) ? NT_COR : NT_DD;
    c.desc << "getnodes center -> " << nodetype2str[to] << "\n" << brief(n, 400);
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 8)), "-", "-i", tname(s, NT_CEN)};
    if (to != NT_DD || s.chance(1, 2)) { av.push_back("-o"); av.push_back(tname(s, to)); }
    RunResult r = runSafe(av, gridText(n));
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes got;
    std::string why;
    CHECK(parseGrid(r.out, got, &why), "the output is not in the grid format: %s", why.c_str());
    std::string d = judge(n, got, to == NT_DD ? 2 : 1, 200 * DBL_EPSILON * M + 1e-13 * M);
    CHECK(d == "", "%s", d.c_str());
}

Property THE_PROPERTY = {"C04", "there are several 2x2 blocks of valid centre nodes",
    {{"library", libCase, 25000, 700000}, {"affine", affineCase, 8000, 200000}, {"program", cliCase, 3000, 60000}, {"huge-library", libCase, 8, 400, 1}, {"huge-affine", affineCase, 8, 400, 1}, {"huge-program", cliCase, 8, 400, 1}},
    {"which of several equally near blocks is used is not specified"}};
