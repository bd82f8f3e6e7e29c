// C24: getnodes -p
#include "model.h"

static Nodes globe(Src& s, Ctx& c, int nx, int ny)
{
    Nodes n(nx, ny);
    // all the numbers are multiples of 1/8, so that the arithmetic is exact
    auto e = [](double v) { return floor(v * 8 + 0.5) / 8; };
    int kind = s.weighted({3, 3, 2, 2});
    c.label(strf("globe-%d", kind));
    double lon0 = s.range(-360, 360), lat0 = s.range(-80, 60);
    double di = s.range(-400, 400) / 8.0, dj = kind == 0 ? s.range(-16, 16) / 8.0 : s.range(-1300, 1300) / 8.0;
    double lj = s.range(-100, 100) / 8.0, li = s.range(-30, 30) / 8.0;
    double jit = s.chance(1, 2) ? s.range(0, 160) / 8.0 : 0;
    uint64_t seed = s.draw(1000);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double x = lon0 + di * i + dj * j + jit * noise(seed, 2 * (j * nx + i)), y = lat0 + lj * j + li * i + jit * noise(seed, 2 * (j * nx + i) + 1);
            if (kind == 2) { x = s.range(-720, 720); y = s.range(-90, 90); }
            if (kind == 3) {    // over the pole: the second half of the columns goes down on the other side
                double p = 90 - 3 * (j + 1) - (jit ? 1 + noise(seed, j) : 0);
                y = i < nx / 2 ? p : s.chance(1, 6) ? -p : p;
                x = i < nx / 2 ? lon0 : lon0 + (s.chance(1, 2) ? 180 : 190);
            }
            n.X(i, j) = e(x);
            n.Y(i, j) = std::min(90.0, std::max(-90.0, e(y)));
        }
    // the range in which longitudes are given
    int wrap = s.weighted({2, 3, 3, 2});
    c.label(strf("range-%d", wrap));
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double& x = n.X(i, j);
            if (wrap == 1) x -= 360 * floor(x / 360);
            if (wrap == 2) x -= 360 * floor((x + 180) / 360);
            if (wrap == 3) x += 360.0 * s.range(-2, 2);
        }
    return n;
}

static void polarCase(Src& s, Ctx& c)
{
    NODETYPE in = NT_DD, out = NT_DD;
    switch (s.weighted({3, 4, 3, 1, 1})) {
    case 0: break;
    case 1: in = out = NT_COR; break;
    case 2: in = out = NT_CEN; break;
    case 3: out = NT_COR; break;
    default: out = NT_CEN;
    }
    int nx = s.range(1, s.chance(1, 5) ? 40 : 9), ny = s.range(1, s.chance(1, 5) ? 40 : 9);
    if (in == NT_DD) { nx |= 1; ny |= 1; }
    if ((in != out) && (nx < 3 || ny < 3)) nx = ny = 3;
    Nodes n = globe(s, c, nx, ny);
    if (s.chance(1, 2)) killPattern(s, c, n);
    bool st = s.chance(1, 3);
    c.desc << "getnodes -p -i " << nodetype2str[in] << " -o " << nodetype2str[out] << "\n" << gridText(n);
    Nodes v = modelValidate(n, in);
    if (in == NT_DD && out == NT_COR) v = modelDD2CO(v);
    if (in == NT_DD && out == NT_CEN) v = modelDD2CE(v);
    // continuous along columns
    Nodes w = v;
    int nshift = 0, nkill = 0, nmulti = 0, nkept = 0;
    for (int i = 0; i < w.nx; ++i)
        for (int j = 1; j < w.ny; ++j) {
            if (!w.v(i, j) || !w.v(i, j - 1)) continue;
            double d = w.X(i, j - 1) - w.X(i, j);
            if (fabs(d) <= 180) continue;
            double k = rint(d / 360);
            if (fabs(d - 360 * k) == 180) discard();    // either way is right
            w.X(i, j) += 360 * k;
            nshift++;
            nmulti += fabs(k) > 1;
        }
    Nodes u = w;
    for (int j = 0; j < w.ny; ++j)
        for (int i = 1; i < w.nx; ++i)
            if (w.v(i, j) && w.v(i - 1, j) && fabs(w.X(i, j) - w.X(i - 1, j)) > 180) { u.kill(i - 1, j); nkill++; }
    w = u;
    for (int j = 0; j < w.ny; ++j)
        for (int i = 1; i < w.nx; ++i)
            if (w.v(i, j) && w.v(i - 1, j) && fabs(w.Y(i, j) - w.Y(i - 1, j)) > 90) { u.kill(i - 1, j); nkill++; c.label("latitude-jump"); }
    std::vector<std::vector<std::string>> a = {{"-p"}, {st ? "-" : writeFile("g", gridText(n))}};
    if (in != NT_DD || s.chance(1, 3)) a.push_back({"-i", tname(s, in)});
    if (out != NT_DD || s.chance(1, 3)) a.push_back({"-o", tname(s, out)});
    if (s.chance(1, 6)) a.push_back({"-v"});
    for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[s.draw(k)]);
    std::vector<std::string> av = {tool("getnodes", s.chance(1, 8))};
    for (auto& o : a) av.insert(av.end(), o.begin(), o.end());
    RunResult r = runSafe(av, st ? gridText(n) : "");
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes g;
    std::string why;
    CHECK(parseGrid(r.out, g, &why), "%s", why.c_str());
    std::string d = diffNodes(g, u, 0);
    CHECK(d.empty(), "%s", d.c_str());
    for (int j = 0; j < u.ny; ++j)
        for (int i = 0; i < u.nx; ++i) nkept += u.v(i, j);
    c.nontrivial = (nshift || nkill) && nkept > 1;
    c.label(nshift > 0, "shifted");
    c.label(nmulti > 0, "several-turns");
    c.label(nkill > 0, "split");
    c.label(strf("%s-%s", nodetype2str[in], nodetype2str[out]));
}

// a node keeps its position on the sphere and columns have no jumps, for any numbers
static void realCase(Src& s, Ctx& c)
{
    int nx = s.range(1, 12), ny = s.range(1, 12);
    Nodes n(nx, ny);
    double a = s.real(-60, 60), b = s.real(-170, 170), lat = s.real(-80, 80);
    uint64_t seed = s.draw(1000);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double x = a * i + b * j + 20 * noise(seed, 2 * (j * nx + i));
            n.X(i, j) = r15(s.chance(1, 2) ? remainder(x, 360) : x + 360.0 * s.range(-1, 1));
            n.Y(i, j) = r15(std::min(89.0, std::max(-89.0, lat + 60 * noise(seed, 2 * (j * nx + i) + 1))));
        }
    killPattern(s, c, n);
    c.desc << "getnodes -p -i ce -o ce\n" << gridText(n);
    RunResult r = runSafe({tool("getnodes", s.chance(1, 8)), writeFile("g", gridText(n)), "-i", "ce", "-o", "ce", "-p"});
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    Nodes g;
    std::string why;
    CHECK(parseGrid(r.out, g, &why), "%s", why.c_str());
    CHECK(g.nx == nx && g.ny == ny, "size %d x %d", g.nx, g.ny);
    int nk = 0, ns = 0;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            if (!n.v(i, j)) { CHECK(!g.v(i, j), "node (%d,%d) is not in the input", i, j); continue; }
            if (!g.v(i, j)) { nk++; CHECK(i + 1 < nx && n.v(i + 1, j), "node (%d,%d) is lost, but is not next to a valid node", i, j); continue; }
            CHECK(g.Y(i, j) == n.Y(i, j), "latitude of (%d,%d) is %.15g instead of %.15g", i, j, g.Y(i, j), n.Y(i, j));
            double d = g.X(i, j) - n.X(i, j);
            CHECK(fabs(d - 360 * rint(d / 360)) < 1e-9, "longitude of (%d,%d) is %.15g instead of %.15g", i, j, g.X(i, j), n.X(i, j));
            ns += fabs(d) > 1;
            if (g.v(i, j - 1)) CHECK(fabs(g.X(i, j) - g.X(i, j - 1)) <= 180 + 1e-9, "longitudes along the column jump from %.15g to %.15g at (%d,%d)", g.X(i, j - 1), g.X(i, j), i, j);
            if (j > 0 && n.v(i, j - 1) && g.v(i, j - 1) && fabs(n.X(i, j) - n.X(i, j - 1)) <= 180 && g.X(i, j - 1) == n.X(i, j - 1)) CHECK(g.X(i, j) == n.X(i, j), "longitude of (%d,%d) is shifted without need", i, j);
            if (g.v(i - 1, j)) CHECK(fabs(g.X(i, j) - g.X(i - 1, j)) <= 180 && fabs(g.Y(i, j) - g.Y(i - 1, j)) <= 90, "there is a jump between (%d,%d) and (%d,%d)", i - 1, j, i, j);
        }
    c.nontrivial = ns > 0 && nk > 0;
}

Property THE_PROPERTY = {"C24", "some longitude is shifted or some node invalidated, and more than one node is left (arbitrary numbers: both shifted and invalidated)",
    {{"exact", polarCase, 12000, 200000}, {"arbitrary-numbers", realCase, 4000, 60000}},
    {"where an input jump is an odd multiple of 180 degrees, either way of shifting is right and the case is discarded"}};
