// C31: the stand-alone kd-tree program (kdtree.c compiled with STANDALONE)
#include "model.h"
#include <set>

static const double RAD = 3.14159265358979323846 / 180.0, RE = 6371.0;

struct Pt { std::vector<double> in; std::vector<long double> p; size_t id; };

static std::vector<long double> place(const std::vector<double>& v, bool geo)
{
    if (!geo) return std::vector<long double>(v.begin(), v.end());
    long double lon = v[0] * (long double) RAD, lat = v[1] * (long double) RAD;
    return {RE * sinl(lon) * cosl(lat), RE * cosl(lon) * cosl(lat), RE * sinl(lat)};
}
static long double dist(const std::vector<long double>& a, const std::vector<long double>& b)
{
    long double s = 0;
    for (size_t k = 0; k < a.size(); ++k) s += (a[k] - b[k]) * (a[k] - b[k]);
    return sqrtl(s);
}
static std::string number(Src& s, double v)
{
    static const char* F[] = {"%.17g", "%.17g", "%.6f", "%.17e", "%+.17g", "%g"};
    return strf(F[s.draw(6)], v);
}
static std::string row(Src& s, const std::vector<std::string>& t)
{
    static const char* SEP[] = {" ", ",", ";", "\t", ", ", "  ", " ; \t"};
    std::string r = s.chance(1, 6) ? SEP[s.draw(7)] : "";
    if (t.size() > 100) { for (auto& z : t) r += z + " "; return r; }
    for (size_t k = 0; k < t.size(); ++k) r += (k ? SEP[s.draw(7)] : "") + t[k];
    return r;
}

static void kdCase(Src& s, Ctx& c)
{
    bool geo = s.chance(1, 3);
    int d = geo ? 2 : s.weighted({0, 1, 6, 4, 1, 1}), style = s.range(0, 2), many = s.weighted({10, 4, 1});
    if (d == 5) d = s.range(5, 12);
    if (s.chance(1, 100)) { geo = false; d = s.range(254, 256); style = 3; many = 0; }     // (the most there can be)
    int n = many == 0 ? s.range(0, 12) : many == 1 ? s.range(12, 80) : s.range(900, 2300);
    bool wide = d > 12 && s.chance(1, 2);
    c.label(geo ? "geographic" : d > 12 ? "dim-many" : strf("dim-%d", d));
    auto coord = [&](int k) -> double {
        if (geo) {
            if (style == 0) return k ? s.range(-9, 9) * 10 : s.range(-18, 18) * 10;
            return k ? s.real(-90, 90) : s.real(-180, s.chance(1, 5) ? 540 : 180);
        }
        return style == 3 ? s.range(0, 9) : style == 0 ? s.range(-4, 4) : style == 1 ? s.real(-10, 10) : s.real(-1, 1) * pow(10, s.range(-2, 6));
    };
    std::vector<Pt> P;
    std::string txt;
    size_t id = 0;
    int skipped = 0;
    uint64_t seed = s.draw(1u << 30);
    for (int q = 0; q < n; ++q) {
        std::vector<std::string> t;
        Pt p;
        for (int k = 0; k < d; ++k) {
            double v = many == 2 ? rint((noise(seed, (uint64_t) q * 16 + k)) * (geo ? k ? 900 : 1800 : 3000)) / 10 : coord(k);
            t.push_back(many == 2 ? strf("%.17g", v) : style == 3 ? strf(wide ? "%.17e" : "%g", wide ? v / 3 : v) : number(s, v));
            p.in.push_back(strtod(t.back().c_str(), nullptr));
        }
        if (many != 2 && !P.empty() && s.chance(1, 12)) { p.in = P[s.draw(P.size())].in; for (int k = 0; k < d; ++k) t[k] = strf("%.17g", p.in[k]); }
        bool nan = s.chance(1, 40);
        if (nan) { int k = s.draw(d); t[k] = s.chance(1, 2) ? "nan" : "inf"; }
        if (style != 3 && s.chance(1, 8)) t.push_back(s.chance(1, 2) ? "7" : s.chance(1, 2) ? "# text" : "# " + std::string(s.range(0, 9000), '1'));   // (more columns than necessary)
        if (s.chance(1, 30)) { txt += "# " + row(s, t) + "\n"; skipped++; }
        if (s.chance(1, 30)) { static const char* J[] = {"", "x 1 2 3 4 5 6 7 8 9 10 11 12 13", " ", "-", ","}; txt += std::string(J[s.draw(5)]) + "\n"; skipped++; }
        if (d > 1 && s.chance(1, 30)) { txt += row(s, {t.begin(), t.begin() + d - 1}) + "\n"; skipped++; }
        txt += row(s, t) + (q == n - 1 && s.chance(1, 3) ? "" : s.chance(1, 20) ? "\r\n" : "\n");
        p.id = id++;
        if (nan) { skipped++; continue; }
        p.p = place(p.in, geo);
        P.push_back(p);
    }
    // the point to search around
    std::vector<std::string> qt;
    std::vector<double> q;
    bool near = !P.empty() && s.chance(1, 2);
    size_t ref = near ? s.draw(P.size()) : 0;
    for (int k = 0; k < d; ++k) {
        double v = near ? P[ref].in[k] + (s.chance(1, 2) ? 0 : s.real(-1, 1)) : coord(k);
        if (geo && k) v = std::min(90.0, std::max(-90.0, v));
        qt.push_back(number(s, v));
        q.push_back(strtod(qt.back().c_str(), nullptr));
    }
    std::vector<long double> Q = place(q, geo);
    bool within = s.chance(1, 2), sort = s.chance(1, 2);
    double range = 0;
    if (within) {
        switch (s.range(0, 3)) {
        case 0: range = geo ? s.real(0, 13000) : s.real(0, 12); break;
        case 1: range = P.empty() ? 1 : (double) dist(Q, P[s.draw(P.size())].p); break;
        case 2: range = geo ? 20000 : 1e9; break;
        default: range = s.range(0, 5);
        }
        range = strtod(strf("%.17g", range).c_str(), nullptr);
    }
    // the command
    std::vector<std::vector<std::string>> opt;
    bool stdin_ = s.chance(1, 4);
    std::string name = stdin_ ? (s.chance(1, 2) ? "-" : "stdin") : writeFile("kd", txt);
    if (!stdin_ || s.chance(2, 3)) opt.push_back({"-i", name});
    if (geo) opt.push_back({"-g"});
    if (!geo || s.chance(1, 4)) opt.push_back({"-n", strf("%d", d)});
    opt.push_back({"-p"});
    opt.back().insert(opt.back().end(), qt.begin(), qt.end());
    if (within) opt.push_back({"-r", strf("%.17g", range)});
    if (sort) opt.push_back({"-s"});
    if (s.chance(1, 3)) opt.push_back({"-o"});
    for (size_t k = opt.size(); k > 1; --k) std::swap(opt[k - 1], opt[s.draw(k)]);
    std::vector<std::string> av = {tool("kd", s.chance(1, 8))};
    for (auto& o : opt) av.insert(av.end(), o.begin(), o.end());
    c.desc << "kd";
    for (size_t k = 1; k < av.size(); ++k) c.desc << " '" << av[k] << "'";
    c.desc << "\n" << (txt.size() > 2000 ? txt.substr(0, 2000) + "..." : txt);
    RunResult r = runSafe(av, stdin_ ? txt : "");
    CHECK(r.ok(), "exit code %d: %s", r.code, r.err.c_str());
    std::vector<std::string> L = lines(r.out);
    CHECK(L.size() >= 2 && L[0].compare(0, 8, "  src = ") == 0, "unexpected output:\n%.500s", r.out.c_str());
    CHECK(L[1] == strf("    %zu points", P.size()), "the program reports \"%s\" instead of %zu", L[1].c_str(), P.size());
    if (P.empty()) {
        CHECK(L.size() == 3 && L[2].find("nothing to do") != std::string::npos, "unexpected output for an empty tree:\n%.500s", r.out.c_str());
        c.label("empty");
        return;
    }
    std::string loc = "  location = (";
    for (int k = 0; k < d; ++k) loc += strf("%s%.6g", k ? ", " : "", q[k]);
    CHECK(L[2] == loc + ")", "the program reports \"%s\" instead of \"%s)\"", L[2].c_str(), loc.c_str());
    long double scale = 1;
    for (auto& p : P) for (auto z : p.p) scale = std::max(scale, fabsl(z));
    for (auto z : Q) scale = std::max(scale, fabsl(z));
    const long double eps = 1e-12L * scale;
    size_t first = 4, nres = 1;
    if (within) {
        size_t k = L[3].find("points found:");
        CHECK(L[3].find(strf("  nodes within r < %.3g%s ", range, geo ? "km" : "")) == 0 && k != std::string::npos, "\"%s\" is printed for the range of %.17g", L[3].c_str(), range);
        std::string w = L[3].substr(0, k);
        w = w.substr(0, w.find_last_not_of(' ') + 1);
        nres = strtoul(w.substr(w.rfind(' ') + 1).c_str(), nullptr, 10);
    } else
        CHECK(L[3] == "  the nearest node:", "unexpected line \"%s\"", L[3].c_str());
    if (nres) {
        CHECK(L.size() > 4, "no table of results");
        first = 5;
    }
    CHECK(L.size() == first + nres, "%zu results are reported, %zu lines are printed", nres, L.size() - first);
    std::map<size_t, const Pt*> byId;
    for (auto& p : P) byId[p.id] = &p;
    std::set<size_t> got;
    double last = -1;
    for (size_t k = first; k < L.size(); ++k) {
        std::vector<double> v;
        const char* b = L[k].c_str();
        char* e;
        for (double z = strtod(b, &e); e != b; z = strtod(b, &e)) { v.push_back(z); b = e; }
        CHECK(v.size() == (size_t) d + 2 && *b == 0, "unexpected line \"%s\"", L[k].c_str());
        CHECK(byId.count((size_t) v[d]), "there is no point with id %g", v[d]);
        const Pt& p = *byId[(size_t) v[d]];
        CHECK(got.insert(p.id).second, "point %zu is reported twice", p.id);
        for (int m = 0; m < d; ++m) {
            double tol = 0.00051 + 1e-12 * fabs(p.in[m]), diff = v[m] - p.in[m];
            if (geo && m == 0) {
                if (fabs(p.in[1]) > 89.99) continue;
                diff = remainder(diff, 360);
            }
            if (geo && m == 1) tol = std::max(tol, 1e-5);
            CHECK(fabs(diff) <= tol, "coordinate %d of point %zu is %.17g; %.17g is reported", m, p.id, p.in[m], v[m]);
        }
        long double w = dist(p.p, Q);
        CHECK(fabsl(v[d + 1] - w) <= 0.00051 + eps, "distance to point %zu is %.17Lg; %.17g is reported", p.id, w, v[d + 1]);
        if (sort && within) CHECK(v[d + 1] >= last, "distance %g follows %g", v[d + 1], last);
        last = v[d + 1];
        if (within) CHECK(w <= range + eps, "point %zu at the distance of %.17Lg is found within %.17g", p.id, w, range);
    }
    bool some = false, not_ = false;
    for (auto& p : P) {
        long double w = dist(p.p, Q);
        if (within) {
            CHECK(got.count(p.id) || w >= range - eps, "point %zu at the distance of %.17Lg is not found within %.17g", p.id, w, range);
            (got.count(p.id) ? some : not_) = true;
        } else
            CHECK(w >= dist(byId[*got.begin()]->p, Q) - eps, "point %zu at the distance of %.17Lg is closer than point %zu at %.17Lg", p.id, w, *got.begin(), dist(byId[*got.begin()]->p, Q));
    }
    c.label(within ? "range" : "nearest");
    c.label(skipped > 0, "rows-skipped");
    c.label(n > 1024, "over-1024-rows");
    c.nontrivial = within ? some && not_ : P.size() > 2;
}

// command lines that make no sense
static void badCase(Src& s, Ctx& c)
{
    std::string f = writeFile("kd", "0 0\n1 1\n2 5\n");
    std::vector<std::pair<std::string, std::vector<std::string>>> B = {
        {"no number of dimensions", {"-i", f, "-p", "1", "1"}}, {"invalid number of dimensions", {"-i", f, "-n", "0", "-p", "1", "1"}}, {"too many dimensions", {"-i", f, "-n", "257", "-p", "1", "1"}},
        {"too few coordinates", {"-i", f, "-n", "2", "-p", "1"}}, {"too many coordinates", {"-i", f, "-n", "2", "-p", "1", "-1", "3"}}, {"no point", {"-i", f, "-n", "2"}}, {"no point", {"-i", f, "-g"}},
        {"absent file", {"-i", f + "x", "-n", "2", "-p", "1", "1"}}, {"missing value", {"-p", "1", "1", "-n", "2", "-i"}}, {"missing value", {"-i", f, "-p", "1", "1", "-n"}}, {"missing value", {"-i", f, "-n", "2", "-p", "1", "1", "-r"}}, {"missing value", {"-i", f, "-n", "2", "-p"}},
        {"number of dimensions on the sphere", {"-i", f, "-g", "-n", "1", "-p", "1"}}, {"number of dimensions on the sphere", {"-n", "3", "-i", f, "-g", "-p", "1", "-2", "3"}},
        {"usage", {}}, {"usage", {"-i", f, "-n", "2", "-p", "1", "1", "-z"}}, {"usage", {f, "-n", "2", "-p", "1", "1"}}, {"usage", {"-i", f, "-n", "2", "-p", "1", "x"}}, {"usage", {"-i", f, "-n", "2", "-p", "1", "1", "-r", "x"}},
        {"usage", {"-i", f, "-n", "2", "-p", "-", "1"}}, {"usage", {"-i", f, "-n", "2", "-s", "3", "-p", "1", "1"}}, {"usage", {"-i", f, "-g", "2", "-p", "1", "1"}}, {"usage", {"-i", f, "-o", "2", "-n", "2", "-p", "1", "1"}},
        {"help", {"-h"}}, {"help", {"-i", f, "-h"}}, {"help", {"-n", "2", "-p", "1", "-1", "-h", "-i", f}}, {"help", {"-h", "-q"}}};
    auto& b = B[s.draw(B.size())];
    std::vector<std::string> av = {tool("kd", s.chance(1, 4))};
    av.insert(av.end(), b.second.begin(), b.second.end());
    if (!b.second.empty() && s.chance(1, 3)) av.insert(av.begin() + 1, "-s");
    if (b.first != "too many coordinates" && b.first != "missing value" && !b.second.empty() && s.chance(1, 3)) { av.push_back("-r"); av.push_back("1"); }
    if (s.chance(1, 4)) {                                           // a great many coordinates
        b.first = "too many coordinates";
        av.resize(1);
        av.insert(av.end(), {"-i", f, "-n", "2", "-p"});
        for (int k = s.range(257, 600); k > 0; --k) av.push_back("1");
    }
    c.desc << b.first << ": kd";
    for (size_t k = 1; k < std::min<size_t>(av.size(), 12); ++k) c.desc << " '" << av[k] << "'";
    RunResult r = runSafe(av, "");
    if (b.first == "usage") CHECK(r.code >= 0 && r.out.find("Usage:") != std::string::npos && r.out.find("src =") == std::string::npos, "exit code %d, output \"%.200s\", message \"%s\"", r.code, r.out.c_str(), r.err.c_str());
    else if (b.first == "help") CHECK(r.ok() && !r.out.empty() && r.out.find("src =") == std::string::npos, "exit code %d, output \"%.200s\", message \"%s\"", r.code, r.out.c_str(), r.err.c_str());
    else CHECK(r.code > 0 && !r.err.empty(), "%s: exit code %d, message \"%s\"", b.first.c_str(), r.code, r.err.c_str());
    c.label(b.first);
    c.nontrivial = true;
}

Property THE_PROPERTY = {"C31", "the nearest of at least three points, or a range with some points within it and some not; or an erroneous command",
    {{"program", kdCase, 4000, 80000}, {"refused", badCase, 500, 4000}},
    {"rows are shorter than 10 kB", "longitudes within 1 degree/100 of the poles are not compared"}};
