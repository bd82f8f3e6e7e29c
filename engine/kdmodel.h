// A kd-tree together with the list of points that were put into it.
#pragma once
#include "gen.h"

struct KD {
    kdtree* t;
    int d;
    bool exact;                           // integer coordinates
    int style;
    int R;
    std::vector<std::vector<double>> p;   // points in the tree
    std::vector<size_t> id;               // and their original ids
    size_t skipped = 0;
    bool bulk = false, single = false;
};

static inline std::vector<double> kdPoint(Src& s, KD& k)
{
    std::vector<double> v(k.d);
    if (!k.p.empty() && s.chance(1, 6)) return k.p[s.draw(k.p.size())];       // duplicate
    for (int i = 0; i < k.d; ++i)
        switch (k.style) {
        case 0: v[i] = s.range(-k.R, k.R); break;
        case 1: v[i] = s.real(-k.R, k.R); break;
        case 2: v[i] = (s.draw(3)) * 100.0 + s.real(0, 1); break;             // clusters
        case 3: v[i] = i ? s.range(-1, 1) : (double) k.p.size(); break;       // sorted, a degenerate tree
        default: v[i] = s.real(-1, 1) * pow(1000.0, i); break;                // anisotropic
        }
    return v;
}

static inline KD kdCreate(Src& s, Ctx& c)
{
    KD k;
    static const int D[] = {2, 2, 2, 2, 3, 3, 1, 4, 6};
    k.d = D[s.draw(9)];
    if (k.d == 6) k.d = s.chance(1, 10) ? s.range(13, 40) : s.range(5, 12);
    k.style = s.weighted({4, 3, 1, 1, 1});
    k.R = k.style == 0 ? (s.chance(1, 2) ? s.range(1, 6) : s.range(10, 300)) : s.range(1, 100);
    k.exact = k.style == 0 || k.style == 3;
    k.t = kd_create(k.d);
    c.desc << strf("kd-tree of %d dimensions\n", k.d);
    c.label(strf("dim-%d", k.d));
    c.label(strf("style-%d", k.style));
    return k;
}

static inline std::string kdShow(const std::vector<double>& v)
{
    std::string r = "(";
    for (size_t i = 0; i < v.size(); ++i) r += strf(i ? ", %.17g" : "%.17g", v[i]);
    return r + ")";
}

static inline bool kdFinite(const std::vector<double>& v)
{
    for (double z : v)
        if (!std::isfinite(z)) return false;
    return true;
}

static inline void kdInsert(Src& s, Ctx& c, KD& k)
{
    static const double BAD[] = {NAN, INFINITY, -INFINITY};
    if (HUGE_MODE) {                      // many points, from one choice
        int m = hugeLength(s, k.style == 3 ? 2000 : 70000), shuffle = s.range(0, 1);
        uint64_t seed = s.draw(1u << 30);
        bool bulk = s.chance(2, 3);
        // coinciding points in the order of their ids make long branches, like points in the order of their coordinates
        if (k.style == 0 && !(bulk && shuffle)) m = (int) std::min((double) m, 1500 * pow(2 * k.R + 1, k.d));
        c.desc << strf("%s of %d points%s, seed %llu\n", bulk ? "bulk insertion" : "insertion", m, bulk && shuffle ? ", shuffled" : "", (unsigned long long) seed);
        std::vector<std::vector<double>> src(k.d, std::vector<double>(m));
        size_t n0 = k.p.size();
        for (int q = 0; q < m; ++q) {
            std::vector<double> v(k.d);
            for (int i = 0; i < k.d; ++i) {
                double z = noise(seed, (uint64_t) q * 8 + i);
                switch (k.style) {
                case 0: v[i] = rint(k.R * z); break;
                case 1: v[i] = k.R * z; break;
                case 2: v[i] = rint(noise(seed, (uint64_t) q * 8 + i + (1ull << 40))) * 100 + z; break;
                case 3: v[i] = i ? rint(1.4 * z) : (double) (n0 + q); break;
                default: v[i] = z * pow(1000.0, i);
                }
            }
            if (noise(seed, (uint64_t) q * 8 + 7) > 0.99 && !k.p.empty()) v = k.p[(size_t) ((noise(seed, (uint64_t) q * 8 + 6) + 1) / 2 * k.p.size()) % k.p.size()];
            if (noise(seed, (uint64_t) q * 8 + 5) > 0.9999) v[(q / 3) % k.d] = BAD[q % 3];
            for (int i = 0; i < k.d; ++i) src[i][q] = v[i];
            if (!bulk) kd_insertnode(k.t, v.data(), n0 + q);
            if (!kdFinite(v)) k.skipped++;
            else { k.p.push_back(v); k.id.push_back(n0 + q); }
        }
        if (bulk) {
            std::vector<double*> pp;
            for (auto& a : src) pp.push_back(a.data());
            kd_insertnodes(k.t, m, pp.data(), shuffle);
        }
        (bulk ? k.bulk : k.single) = true;
        c.label(bulk && shuffle, "shuffled");
        c.label(k.p.size() > 65536, "over-65536");
        return;
    }
    if (s.chance(1, 2)) {
        int m = s.weighted({6, 3, 1});
        m = m == 0 ? s.range(1, 5) : m == 1 ? s.range(5, 60) : k.style == 3 ? s.range(60, 300) : s.range(60, 1200);
        for (; m > 0; --m) {
            std::vector<double> v = kdPoint(s, k);
            size_t id = s.chance(1, 2) ? k.p.size() : s.chance(1, 8) ? (size_t) s.draw((uint64_t) 1 << 48) : (size_t) s.range(0, 1000000);
            if (s.chance(1, 30)) v[s.draw(k.d)] = BAD[s.draw(3)];
            if (k.p.size() < 60) c.desc << strf("insert %s, id %zu\n", kdShow(v).c_str(), id);
            kd_insertnode(k.t, v.data(), id);
            if (!kdFinite(v)) k.skipped++;
            else { k.p.push_back(v); k.id.push_back(id); }
        }
        k.single = true;
    } else {
        int m = s.weighted({6, 3, 1});
        m = m == 0 ? s.range(0, 5) : m == 1 ? s.range(5, 60) : k.style == 3 ? s.range(60, 300) : s.range(60, 1500);
        int shuffle = s.range(0, 1);
        size_t n0 = k.p.size();
        std::vector<std::vector<double>> src(k.d, std::vector<double>(m));
        std::vector<std::vector<double>> np;
        std::vector<size_t> ni;
        c.desc << strf("bulk insertion of %d points%s\n", m, shuffle ? ", shuffled" : "");
        for (int q = 0; q < m; ++q) {
            std::vector<double> v = kdPoint(s, k);
            if (s.chance(1, 20)) v[s.draw(k.d)] = BAD[s.draw(3)];
            if (m < 30) c.desc << "   " << kdShow(v) << "\n";
            for (int i = 0; i < k.d; ++i) src[i][q] = v[i];
            if (!kdFinite(v)) k.skipped++;
            else { np.push_back(v); ni.push_back(n0 + q); }
        }
        std::vector<double*> pp;
        for (auto& a : src) pp.push_back(a.data());
        kd_insertnodes(k.t, m, pp.data(), shuffle);
        k.p.insert(k.p.end(), np.begin(), np.end());
        k.id.insert(k.id.end(), ni.begin(), ni.end());
        if (m) k.bulk = true;
        c.label(shuffle && m > 1, "shuffled");
    }
}

// contents of the tree: size, coordinates with ids (as a multiset), bounding box
static inline void kdContents(KD& k)
{
    size_t n = kd_getsize(k.t);
    CHECK(n == k.p.size(), "%zu nodes in the tree instead of %zu", n, k.p.size());
    std::vector<std::pair<std::vector<double>, size_t>> a, b;
    for (size_t q = 0; q < n; ++q) {
        double* x = kd_getnodecoords(k.t, q);
        a.push_back({std::vector<double>(x, x + k.d), kd_getnodeorigid(k.t, q)});
        b.push_back({k.p[q], k.id[q]});
    }
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    for (size_t q = 0; q < n; ++q)
        CHECK(a[q] == b[q], "the tree holds %s with id %zu, but %s with id %zu was inserted", kdShow(a[q].first).c_str(), a[q].second, kdShow(b[q].first).c_str(), b[q].second);
    if (!n) return;
    double* mm = kd_getminmax(k.t);
    for (int i = 0; i < k.d; ++i) {
        double lo = k.p[0][i], hi = lo;
        for (auto& p : k.p) { lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); }
        CHECK(mm[i] == lo && mm[k.d + i] == hi, "the range of coordinate %d is [%.17g, %.17g] instead of [%.17g, %.17g]", i, mm[i], mm[k.d + i], lo, hi);
    }
}

static inline std::vector<double> kdQuery(Src& s, KD& k, const char** kind)
{
    std::vector<double> v(k.d, 0);
    int m = s.weighted({3, 3, 3, 1});
    if (k.p.empty()) m = 3;
    if (m == 0) { v = k.p[s.draw(k.p.size())]; *kind = "at-node"; }
    else if (m == 1) {                    // halfway between two nodes: a tie
        auto &a = k.p[s.draw(k.p.size())], &b = k.p[s.draw(k.p.size())];
        for (int i = 0; i < k.d; ++i) v[i] = (a[i] + b[i]) / 2;
        *kind = "between-nodes";
    } else if (m == 2) {
        v = kdPoint(s, k);
        for (auto& a : v) a += s.range(-3, 3) / 2.0;
        *kind = "near";
    } else {
        for (auto& a : v) a = s.range(-3, 3) * (double) k.R;
        *kind = "far";
    }
    return v;
}

static inline long double kdDist2(const KD& k, const std::vector<double>& a, const double* b)
{
    long double d = 0;
    for (int i = 0; i < k.d; ++i) d += ((long double) a[i] - b[i]) * ((long double) a[i] - b[i]);
    return d;
}
