// C14: nearest node
#include "kdmodel.h"

static void nearestCase(Src& s, Ctx& c)
{
    KD k = kdCreate(s, c);
    int nq = 0;
    size_t sizes = 0;
    for (int batch = s.range(1, HUGE_MODE ? 2 : 5); batch > 0; --batch) {
        if (!s.chance(1, 10))
            kdInsert(s, c, k);
        kdContents(k);
        sizes = k.p.size();
        for (int q = s.range(0, 15); q > 0; --q) {
            const char* kind = "";
            std::vector<double> v = kdQuery(s, k, &kind);
            bool bad = !HUGE_MODE && s.chance(1, 40);
            if (bad) { v[s.draw(k.d)] = NAN; kind = "query-nan"; }
            c.desc << "nearest to " << kdShow(v) << "\n";
            size_t r = kd_findnearestnode(k.t, v.data());
            if (k.p.empty()) {
                CHECK(r == SIZE_MAX, "node %zu is found in an empty tree", r);
                c.label("empty-tree");
                continue;
            }
            CHECK(r < k.p.size() || (bad && r == SIZE_MAX), "node %zu is found in a tree of %zu nodes", r, k.p.size());
            if (bad) { c.label(kind); continue; }
            long double best = -1;
            size_t b = 0, ties = 0;
            for (size_t w = 0; w < k.p.size(); ++w) {
                long double d = kdDist2(k, k.p[w], v.data());
                if (best < 0 || d < best) { best = d; b = w; ties = 0; }
                else if (d == best) ties++;
            }
            long double got = kdDist2(k, v, kd_getnodecoords(k.t, r));
            CHECK(k.exact ? got == best : got <= best * (1 + 1e-14L), "the node found for %s is %s at the distance of %.17Lg, but %s is at %.17Lg", kdShow(v).c_str(), kdShow(std::vector<double>(kd_getnodecoords(k.t, r), kd_getnodecoords(k.t, r) + k.d)).c_str(), sqrtl(got), kdShow(k.p[b]).c_str(), sqrtl(best));
            nq++;
            c.label(kind);
            c.label(ties > 0, "tie");
        }
    }
    kd_destroy(k.t);
    c.nontrivial = nq >= 3 && sizes >= 3;
    c.label(k.bulk && k.single, "mixed-insertion");
    c.label(sizes > 1024, "over-1024-nodes");
    c.label(k.skipped > 0, "points-skipped");
}

Property THE_PROPERTY = {"C14", "at least three queries of a tree of at least three nodes",
    {{"nearest", nearestCase, 25000, 600000}, {"huge", nearestCase, 30, 1500, -1}},
    {"for a query with NaN only the memory safety is checked"}};
