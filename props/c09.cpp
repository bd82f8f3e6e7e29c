// C09: results of queries do not depend on the history
#include "locate.h"
#include "model.h"

struct Obj { Nodes n; std::unique_ptr<CNodes> a; std::unique_ptr<Locator> L; double h; int type; gridmap* gm; };

struct Ans { int r = -9, i = -9, j = -9; double a = -9, b = -9; };
static Ans ask(gridmap* gm, int op, double x, double y)
{
    Ans q;
    if (op == 0) q.r = gridmap_xy2ij(gm, x, y, &q.i, &q.j);
    else if (op == 1) q.r = gridmap_xy2fij(gm, x, y, &q.a, &q.b);
    else q.r = gridmap_fij2xy(gm, x, y, &q.a, &q.b);
    if (op == 0 && !q.r)
        q.i = q.j = 0;          // not specified
    return q;
}
static const char* const OPS[] = {"xy2ij", "xy2fij", "fij2xy"};

static void mapsCase(Src& s, Ctx& c)
{
    int nm = s.range(1, HUGE_MODE ? 2 : 4);
    std::vector<Obj> o(nm);
    for (int k = 0; k < nm; ++k) {
        GeomOpts go;
        go.exact = s.chance(1, 4);
        go.scales = s.chance(1, 2);
        if (k && s.chance(1, 3)) {          // another map of the same grid, possibly the other type
            o[k].n = o[k - 1].n;
            o[k].h = o[k - 1].h;
            o[k].type = s.range(0, 1);
            if (!topology(maskOf(o[k].n), o[k].n.nx, o[k].n.ny).disk())
                o[k].type = GRIDMAP_TYPE_KDTREE;
            if (s.chance(1, 2)) {           // of the opposite handedness
                for (auto& v : o[k].n.x) v = -v;
            }
        } else {
            Grid G = genGrid(s, c, go, 15);
            o[k].n = G.n;
            o[k].h = G.g.h;
            o[k].type = s.range(0, 1);
        }
        o[k].a.reset(new CNodes(o[k].n));
        o[k].L.reset(new Locator(o[k].n));
        c.desc << "map " << k << (o[k].type ? ", kd-tree\n" : ", binary\n") << brief(o[k].n);
        o[k].gm = gridmap_build(o[k].n.nx - 1, o[k].n.ny - 1, o[k].a->gx, o[k].a->gy, o[k].type);
    }
    int nq = s.range(2, HUGE_MODE ? 6 : 30), nok = 0, nfail = 0;
    struct Q { int k, op; double x, y; Ans a; };
    std::vector<Q> hist;
    for (int q = 0; q < nq; ++q) {
        Q z;
        if (!hist.empty() && s.chance(1, 6)) {  // repeat
            z = hist[s.draw(hist.size())];
            Ans a = ask(o[z.k].gm, z.op, z.x, z.y);
            c.desc << strf("repeated: map %d %s(%.17g, %.17g)\n", z.k, OPS[z.op], z.x, z.y);
            if (s.chance(1, HUGE_MODE ? 8 : 60)) {       // very many times
                int n = 1 << s.range(4, s.chance(1, 4) ? 17 : 12);
                c.desc << n << " times\n";
                for (; n > 0; --n) a = ask(o[z.k].gm, z.op, z.x, z.y);
                c.label(z.a.r ? "repeated-many-times" : "failed-many-times");
            }
            CHECK(a.r == z.a.r && a.i == z.a.i && a.j == z.a.j && same(a.a, z.a.a) && same(a.b, z.a.b), "map %d, %s(%.17g, %.17g) repeated: %d (%d,%d) (%.17g, %.17g), but %d (%d,%d) (%.17g, %.17g) before", z.k, OPS[z.op], z.x, z.y, a.r, a.i, a.j, a.a, a.b, z.a.r, z.a.i, z.a.j, z.a.a, z.a.b);
            continue;
        }
        z.k = s.range(0, nm - 1);
        z.op = s.weighted({3, 5, 2});
        Obj& O = o[z.k];
        const char* kind;
        if (z.op < 2)
            genPoint(s, *O.L, O.h, z.x, z.y, &kind);
        else {
            z.x = s.real(-0.5, O.n.nx + 0.5);
            z.y = s.real(-0.5, O.n.ny + 0.5);
        }
        c.desc << strf("map %d %s(%.17g, %.17g)\n", z.k, OPS[z.op], z.x, z.y);
        z.a = ask(O.gm, z.op, z.x, z.y);
        gridmap* f = gridmap_build(O.n.nx - 1, O.n.ny - 1, O.a->gx, O.a->gy, O.type);
        Ans b = ask(f, z.op, z.x, z.y);
        gridmap_destroy(f);
        CHECK(z.a.r == b.r && z.a.i == b.i && z.a.j == b.j && same(z.a.a, b.a) && same(z.a.b, b.b), "map %d, %s(%.17g, %.17g): %d (%d,%d) (%.17g, %.17g), but a fresh map gives %d (%d,%d) (%.17g, %.17g)", z.k, OPS[z.op], z.x, z.y, z.a.r, z.a.i, z.a.j, z.a.a, z.a.b, b.r, b.i, b.j, b.a, b.b);
        (z.a.r ? nok : nfail)++;
        c.label(strf("%s-%s", OPS[z.op], z.a.r ? "ok" : "failed"));
        hist.push_back(z);
    }
    for (auto& O : o) {
        for (int j = 0; j < O.n.ny; ++j)
            for (int i = 0; i < O.n.nx; ++i)
                CHECK(same(O.a->gx[j][i], O.n.X(i, j)) && same(O.a->gy[j][i], O.n.Y(i, j)), "queries changed node (%d,%d)", i, j);
        gridmap_destroy(O.gm);
    }
    c.nontrivial = nok >= 2 && nq >= 4;
    c.label(nm > 1, "several-maps");
    c.label(nok && nfail, "successes-and-failures");
}

static void kdCase(Src& s, Ctx& c)
{
    int nt = s.range(1, 3);
    struct T { int nd; std::vector<std::vector<double>> p; kdtree* t; };
    std::vector<T> t(nt);
    auto build = [](const T& a) {
        kdtree* k = kd_create(a.nd);
        for (size_t i = 0; i < a.p.size(); ++i)
            kd_insertnode(k, a.p[i].data(), i);
        return k;
    };
    for (auto& a : t) {
        a.nd = s.range(1, 4);
        int n = s.range(1, s.chance(1, 10) ? 600 : 30);
        a.p.assign(n, std::vector<double>(a.nd));
        for (auto& p : a.p)
            for (auto& v : p)
                v = s.range(-6, 6);
        a.t = build(a);
        c.desc << strf("tree of %d points in %d dimensions\n", n, a.nd);
    }
    int nq = s.range(2, 30);
    for (int q = 0; q < nq; ++q) {
        int k = s.range(0, nt - 1);
        double x[4];
        for (double& v : x)
            v = s.range(-20, 20) / 2.0;
        kdtree* f = build(t[k]);
        if (s.chance(1, 2)) {
            size_t a = kd_findnearestnode(t[k].t, x), b = kd_findnearestnode(f, x);
            CHECK(a == b, "tree %d: nearest node is %zu, but %zu in a fresh tree", k, a, b);
        } else {
            double r = s.range(0, 20) / 2.0;
            kdset *A = kd_findnodeswithinrange(t[k].t, x, r, 1), *B = kd_findnodeswithinrange(f, x, r, 1);
            CHECK(kdset_getsize(A) == kdset_getsize(B), "tree %d: %zu nodes within range, but %zu in a fresh tree", k, kdset_getsize(A), kdset_getsize(B));
            for (size_t i = 0; i < kdset_getsize(B); ++i) {
                double da, db;
                size_t a = kdset_read(A, &da), b = kdset_read(B, &db);
                CHECK(a == b && da == db, "tree %d: node %zu within range is %zu at %g, but %zu at %g in a fresh tree", k, i, a, da, b, db);
            }
            kdset_free(A);
            kdset_free(B);
        }
        double *ma = kd_getminmax(t[k].t), *mb = kd_getminmax(f);
        for (int d = 0; d < 2 * t[k].nd; ++d)
            CHECK(ma[d] == mb[d], "tree %d: the bounding box changed", k);
        kd_destroy(f);
    }
    for (auto& a : t)
        kd_destroy(a.t);
    c.nontrivial = nq >= 4;
}

Property THE_PROPERTY = {"C09", "four queries or more, two of them successful",
    {{"maps", mapsCase, 12000, 350000}, {"kd-trees", kdCase, 3000, 60000}, {"huge-maps", mapsCase, 6, 300, 20000}}, {}};
