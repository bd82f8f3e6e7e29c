// C15: range search
#include "kdmodel.h"

static void rangeCase(Src& s, Ctx& c)
{
    KD k = kdCreate(s, c);
    int nq = 0;
    bool some = false, notall = false;
    for (int batch = s.range(1, HUGE_MODE ? 2 : 4); batch > 0; --batch) {
        if (!s.chance(1, 10))
            kdInsert(s, c, k);
        // node ids are positions in the tree
        std::vector<std::vector<double>> P;
        for (size_t q = 0; q < kd_getsize(k.t); ++q)
            P.push_back(std::vector<double>(kd_getnodecoords(k.t, q), kd_getnodecoords(k.t, q) + k.d));
        CHECK(P.size() == k.p.size(), "%zu nodes in the tree instead of %zu", P.size(), k.p.size());
        for (int q = s.range(0, 8); q > 0; --q) {
            const char* kind = "";
            std::vector<double> v = kdQuery(s, k, &kind);
            double r;
            int rk = s.weighted({2, 3, 3, 1});
            if (rk == 0) r = 0;
            else if (rk == 1 && !P.empty()) {           // the distance of some node
                auto& p = P[s.draw(P.size())];
                if (s.chance(1, 2) && k.exact) {        // along an axis, so that the distance is exact
                    v = p;
                    v[s.draw(k.d)] += s.range(-6, 6) / 2.0;
                }
                r = sqrt((double) kdDist2(k, v, p.data()));
            } else if (rk == 2) r = s.range(0, 4 * k.R) / 4.0;
            else r = 1e4 * k.R;
            bool exact = k.exact && r == rint(r * 4) / 4;
            int ordered = s.range(0, 1);
            if (HUGE_MODE && ordered) {                 // (ordering takes quadratic time)
                size_t m = 0;
                for (auto& p : P) m += kdDist2(k, v, p.data()) <= (long double) r * r;
                if (m > 5000) ordered = 0;
            }
            c.desc << strf("range %.17g from %s%s\n", r, kdShow(v).c_str(), ordered ? ", ordered" : "");
            kdset* set = kd_findnodeswithinrange(k.t, v.data(), r, ordered);
            CHECK(set != NULL, "no result set");
            std::set<size_t> got;
            double d, last = -1;
            size_t id, cnt = kdset_getsize(set);
            bool readAll = !s.chance(1, 10);
            int limit = readAll ? INT32_MAX : s.range(0, 3);
            while (limit-- > 0 && (id = kdset_read(set, &d)) != SIZE_MAX) {
                CHECK(id < P.size(), "node %zu is found in a tree of %zu nodes", id, P.size());
                CHECK(got.insert(id).second, "node %zu is found twice", id);
                long double w = sqrtl(kdDist2(k, v, P[id].data()));
                CHECK(fabsl(d - w) <= 1e-14L * w, "distance of node %s is %.17Lg, but %.17g is reported", kdShow(P[id]).c_str(), w, d);
                CHECK(exact ? w <= r : w <= r * (1 + 1e-14L), "node %s at the distance of %.17Lg is found", kdShow(P[id]).c_str(), w);
                if (ordered) CHECK(d >= last, "distance %.17g follows %.17g", d, last);
                last = d;
            }
            size_t want = 0, border = 0;
            for (size_t w = 0; w < P.size(); ++w) {
                long double e = sqrtl(kdDist2(k, v, P[w].data()));
                bool in = exact ? e <= r : e <= r * (1 - 1e-14L);
                if (readAll && in) CHECK(got.count(w), "node %s at the distance of %.17Lg is not found", kdShow(P[w]).c_str(), e);
                want += in;
                border += e == r;
                (in ? some : notall) = true;
            }
            if (readAll) {
                CHECK(cnt == got.size(), "size of the result set is %zu, but it holds %zu nodes", cnt, got.size());
                for (int q2 = 0; q2 < 2; ++q2) {
                    d = 1;
                    id = kdset_read(set, &d);
                    CHECK(id == SIZE_MAX, "there is something after the end of the result set: %zu", id);
                    CHECK(std::isnan(d), "distance at the end of the result set is %g", d);
                }
                CHECK(kdset_getsize(set) == cnt, "reading has changed the size of the set");
            } else
                CHECK(exact ? cnt == want : cnt >= want, "size of the result set is %zu instead of %zu", cnt, want);
            kdset_free(set);
            nq++;
            c.label(border && r > 0, "exactly-at-range");
            c.label(P.empty(), "empty-tree");
            c.label(ordered && got.size() > 2, "ordered-3");
            c.label(want == 0, "nothing-found");
            c.label(want == P.size() && want, "all-found");
            c.label(kind);
        }
    }
    kd_destroy(k.t);
    c.nontrivial = nq && some && notall;
}

Property THE_PROPERTY = {"C15", "some nodes are within the range of a query and some are not",
    {{"range", rangeCase, 20000, 500000}, {"huge", rangeCase, 10, 500, -1}},
    {"the range is not negative"}};
