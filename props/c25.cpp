// C25: ownership
#include "locate.h"
#include "model.h"
#include "kdmodel.h"
extern "C" {
#include "gridaverager.h"
}

static long long LIVE;
// a call of the library; what it allocates and releases is recorded
#define LIB(...) do { size_t b_ = liveBytes(); __VA_ARGS__; LIVE += (long long) liveBytes() - (long long) b_; } while (0)

struct GN { gridnodes* g; Nodes m; NODETYPE t; int mt; bool disk; std::string name;
    bool proper() const { return t != NT_DD || (m.nx % 2 && m.ny % 2); }    // (otherwise the nodes are not those of a DD grid)
};
struct GM { gridmap* g; GN* n; int type; std::string name; int nce1, nce2; std::vector<std::pair<std::pair<double, double>, std::pair<double, double>>> known; };
struct PL { poly* p; std::vector<std::pair<double, double>> m; };
struct KS { kdset* s; size_t n; };
struct GA { gridaverager* a; GM* m; };

struct World {
    Src& s;
    Ctx& c;
    Grid G;
    Locator L;
    std::vector<std::unique_ptr<GN>> gn;
    std::vector<std::unique_ptr<GM>> gm;
    std::vector<std::unique_ptr<PL>> pl;
    std::vector<std::unique_ptr<GA>> ga;
    std::vector<KD> kd;
    std::vector<KS> ks;
    int nname = 0, ncopy = 0, ndestroy = 0, nquery = 0;
    World(Src& s_, Ctx& c_, Grid g) : s(s_), c(c_), G(g), L(G.n) {}

    template <class T> T* any(std::vector<std::unique_ptr<T>>& v) { return v.empty() ? nullptr : v[s.draw(v.size())].get(); }
    template <class T> void drop(std::vector<std::unique_ptr<T>>& v, T* p) { for (size_t k = 0; k < v.size(); ++k) if (v[k].get() == p) { v.erase(v.begin() + k); return; } }

    GN* put(gridnodes* g, NODETYPE t, int mt, bool disk)
    {
        gn.emplace_back(new GN{g, fromGridnodes(g), t, mt, disk, strf("g%d", nname++)});
        return gn.back().get();
    }
    void check()
    {
        for (auto& p : gn) {
            std::string d = diffNodes(fromGridnodes(p->g), p->m, 0);
            CHECK(d.empty(), "%s: %s", p->name.c_str(), d.c_str());
            CHECK(gridnodes_getmaptype(p->g) == p->mt, "%s: map type is %d instead of %d", p->name.c_str(), gridnodes_getmaptype(p->g), p->mt);
            if (p->t != NT_NONE) {
                int a = p->t == NT_DD ? (p->m.nx - 1) / 2 : p->t == NT_COR ? p->m.nx - 1 : p->m.nx, b = p->t == NT_DD ? (p->m.ny - 1) / 2 : p->t == NT_COR ? p->m.ny - 1 : p->m.ny;
                CHECK(gridnodes_getnce1(p->g) == a && gridnodes_getnce2(p->g) == b, "%s: %d x %d cells instead of %d x %d", p->name.c_str(), gridnodes_getnce1(p->g), gridnodes_getnce2(p->g), a, b);
            }
        }
        for (auto& p : pl) {
            CHECK(p->p->n == (int) p->m.size(), "a polyline has %d points instead of %zu", p->p->n, p->m.size());
            for (size_t k = 0; k < p->m.size(); ++k) CHECK(p->p->x[k] == p->m[k].first && p->p->y[k] == p->m[k].second, "point %zu of a polyline is (%.17g, %.17g) instead of (%.17g, %.17g)", k, p->p->x[k], p->p->y[k], p->m[k].first, p->m[k].second);
        }
        for (auto& k : kd) CHECK(kd_getsize(k.t) == k.p.size(), "a kd-tree has %zu nodes instead of %zu", kd_getsize(k.t), k.p.size());
    }
    void syncPoly(PL* p) { p->m.clear(); for (int k = 0; k < p->p->n; ++k) p->m.push_back({p->p->x[k], p->p->y[k]}); }
    void destroyMapsOf(GN* g) { for (auto& m : gm) if (m->n == g) m->n = nullptr; }

    void create()
    {
        int t = s.range(0, 3), mt = s.range(0, 1);
        Nodes n = G.n;
        bool disk = t == 0;
        NODETYPE nt = t == 0 ? NT_COR : t == 1 ? NT_DD : t == 2 ? NT_CEN : NT_NONE;
        if (nt == NT_DD) n = modelCO2DD(n);
        if (nt == NT_CEN) n = modelCO2CE(n);
        int how = s.range(0, 2);
        gridnodes* g = nullptr;
        c.desc << strf("g%d: create %s nodes (%d), map type %d\n", nname, nodetype2str[nt], how, mt);
        if (how == 0) LIB(g = toGridnodes(n, nt));
        else if (how == 1) {
            LIB(g = gridnodes_create(n.nx, n.ny, nt));
            for (size_t k = 0; k < n.n(); ++k) LIB(gridnodes_readnextpoint(g, n.x[k], n.y[k]));
        } else {
            n = rounded15(n);
            std::string f = writeFile("g", gridText(n));
            LIB(g = gridnodes_read((char*) f.c_str(), nt));
        }
        gridnodes_setmaptype(g, mt);
        GN* p = put(g, nt, mt, disk && how != 2);
        std::string d = diffNodes(p->m, n, 0);
        CHECK(d.empty(), "created: %s", d.c_str());
    }
    void copy(GN* g)
    {
        gridnodes* r = nullptr;
        c.desc << strf("g%d: copy of %s\n", nname, g->name.c_str());
        LIB(r = gridnodes_copy(g->g));
        GN* p = put(r, g->t, g->mt, g->disk);
        std::string d = diffNodes(p->m, g->m, 0);
        CHECK(d.empty(), "copy of %s: %s", g->name.c_str(), d.c_str());
        ncopy++;
    }
    void subgrid(GN* g)
    {
        int nx = g->m.nx, ny = g->m.ny, a = s.range(0, nx - 1), b = s.range(a, nx - 1), d = s.range(0, ny - 1), e = s.range(d, ny - 1);
        if (s.chance(1, 4)) { a = -1; b = nx; d = -5; e = ny + 2; }
        gridnodes* r = nullptr;
        c.desc << strf("g%d: subgrid %d:%d %d:%d of %s\n", nname, a, b, d, e, g->name.c_str());
        LIB(r = gridnodes_subgrid(g->g, a, b, d, e));
        GN* p = put(r, g->t, g->mt, false);
        a = std::max(a, 0); d = std::max(d, 0); b = std::min(b, nx - 1); e = std::min(e, ny - 1);
        Nodes w(b - a + 1, e - d + 1);
        for (int j = 0; j < w.ny; ++j) for (int i = 0; i < w.nx; ++i) { w.X(i, j) = g->m.X(a + i, d + j); w.Y(i, j) = g->m.Y(a + i, d + j); }
        std::string df = diffNodes(p->m, w, 0);
        CHECK(df.empty(), "subgrid of %s: %s", g->name.c_str(), df.c_str());
        ncopy++;
    }
    void transform(GN* g)
    {
        static const NODETYPE T[] = {NT_NONE, NT_DD, NT_CEN, NT_COR};
        NODETYPE t = T[s.draw(4)];
        if (!g->proper()) return;
        if (g->t == NT_NONE) t = NT_NONE;
        else if (g->t == NT_COR && !g->disk && (t == NT_DD || t == NT_CEN)) return;     // (takes a map)
        else if (g->t == NT_DD && t != NT_NONE && t != NT_DD && (g->m.nx < 3 || g->m.ny < 3)) return;
        else if (g->t == NT_COR && t == NT_CEN && (g->m.nx < 2 || g->m.ny < 2)) return;
        gridnodes* r = nullptr;
        c.desc << strf("g%d: %s transformed to %s\n", nname, g->name.c_str(), nodetype2str[t]);
        LIB(r = gridnodes_transform(g->g, t));
        // the source may be validated by it
        Nodes now = fromGridnodes(g->g);
        std::string d = diffNodes(now, g->m, 0);
        if (!d.empty()) d = diffNodes(now, modelValidate(g->m, g->t), 0);
        CHECK(d.empty(), "%s, transformed: %s", g->name.c_str(), d.c_str());
        g->m = now;
        NODETYPE rt = t == NT_NONE ? g->t : t;
        GN* p = put(r, rt, g->mt, g->disk && rt == NT_COR);
        if (rt == g->t) { d = diffNodes(p->m, g->m, 0); CHECK(d.empty(), "transformation of %s: %s", g->name.c_str(), d.c_str()); }
        ncopy++;
    }
    void modify(GN* g)
    {
        int i = s.range(0, g->m.nx - 1), j = s.range(0, g->m.ny - 1);
        double x = s.chance(1, 3) ? QNAN : s.range(-100, 100), y = std::isnan(x) ? x : s.range(-100, 100);
        c.desc << strf("%s: node (%d,%d) = (%g, %g)\n", g->name.c_str(), i, j, x, y);
        gridnodes_getx(g->g)[j][i] = g->m.X(i, j) = x;
        gridnodes_gety(g->g)[j][i] = g->m.Y(i, j) = y;
        g->disk = false;
        for (auto& m : gm) if (m->n == g) m->n = nullptr;       // not to be used any more
    }
    void inPlace(GN* g)
    {
        int k = s.range(0, 3);
        if (k < 3 && !g->proper()) return;
        if (k == 0) {
            c.desc << strf("%s: validate\n", g->name.c_str());
            LIB(gridnodes_validate(g->g));
            g->m = fromGridnodes(g->g);
        } else if (k == 1) {
            if (g->m.nx < 3 || g->m.ny < 3) return;
            c.desc << strf("%s: statistics\n", g->name.c_str());
            LIB(gridnodes_calcstats(g->g));
            g->m = fromGridnodes(g->g);
        } else if (k == 2 && (g->t == NT_DD || g->t == NT_CEN)) {
            int n1 = gridnodes_getnce1(g->g), n2 = gridnodes_getnce2(g->g);
            if (n1 < 1 || n2 < 1) return;
            std::string t;
            for (int q = 0; q < n1 * n2; ++q) t += s.chance(1, 8) ? "0\n" : "1\n";
            c.desc << strf("%s: mask\n", g->name.c_str());
            std::string f = writeFile("m", t);
            int** m = nullptr;
            LIB(m = gu_readmask((char*) f.c_str(), n1, n2));
            LIB(gridnodes_applymask(g->g, m));
            LIB(gu_free2d(m));
            g->m = fromGridnodes(g->g);
        } else if (k == 3) {
            g->mt = s.range(0, 1);
            c.desc << strf("%s: map type %d\n", g->name.c_str(), g->mt);
            gridnodes_setmaptype(g->g, g->mt);
        }
    }
    void destroy(GN* g)
    {
        c.desc << strf("%s: destroy\n", g->name.c_str());
        destroyMapsOf(g);
        LIB(gridnodes_destroy(g->g));
        drop(gn, g);
        ndestroy++;
    }
    void buildMap(GN* g)
    {
        if (!g->disk || g->t != NT_COR) return;
        LIB(gridnodes_validate(g->g));
        g->m = fromGridnodes(g->g);
        gridmap* m = nullptr;
        int type = s.range(0, 1), n1 = g->m.nx - 1, n2 = g->m.ny - 1;
        bool b2 = s.chance(1, 2);
        if (b2) type = g->mt;
        c.desc << strf("m%d: map of type %d of %s\n", nname, type, g->name.c_str());
        if (b2) LIB(m = gridmap_build2(g->g));
        else LIB(m = gridmap_build(n1, n2, gridnodes_getx(g->g), gridnodes_gety(g->g), type));
        CHECK(gridmap_getnce1(m) == n1 && gridmap_getnce2(m) == n2, "the map is of %d x %d cells instead of %d x %d", gridmap_getnce1(m), gridmap_getnce2(m), n1, n2);
        gm.emplace_back(new GM{m, g, type, strf("m%d", nname++), n1, n2, {}});
    }
    void query(GM* m)
    {
        if (!m->n) return;
        double x, y, u, v;
        const char* k;
        genPoint(s, L, G.g.h, x, y, &k);
        int ok = 0;
        c.desc << strf("%s: (%.17g, %.17g)\n", m->name.c_str(), x, y);
        LIB(ok = gridmap_xy2fij(m->g, x, y, &u, &v));
        if (!ok) return;
        bool in = false;                // (an edge belongs to both cells)
        for (int di = -1; di < 2; ++di) for (int dj = -1; dj < 2; ++dj) {
            int i = (int) u - di, j = (int) v - dj;
            if (i >= 0 && j >= 0 && i < m->nce1 && j < m->nce2 && u >= i - 1e-6 && v >= j - 1e-6 && u <= i + 1 + 1e-6 && v <= j + 1 + 1e-6 && m->n->m.cell(i, j)) in = true;
        }
        CHECK(u >= 0 && v >= 0 && u <= m->nce1 && v <= m->nce2 && in, "%s: found at (%g, %g)", m->name.c_str(), u, v);
        nquery++;
    }
    void destroyMap(GM* m)
    {
        // what uses the map goes first
        for (size_t k = 0; k < ga.size();) if (ga[k]->m == m) { LIB(ga_destroy(ga[k]->a)); ga.erase(ga.begin() + k); } else k++;
        c.desc << strf("%s: destroy\n", m->name.c_str());
        LIB(gridmap_destroy(m->g));
        drop(gm, m);
        ndestroy++;
    }
    void averager(GM* m)
    {
        if (!m->n) return;
        gridaverager* a = nullptr;
        c.desc << strf("averager on %s\n", m->name.c_str());
        LIB(a = ga_create(m->g));
        ga.emplace_back(new GA{a, m});
        std::vector<point> p;
        for (int k = s.range(0, 10); k > 0; --k) { double x, y; const char* q; genPoint(s, L, G.g.h, x, y, &q); p.push_back({x, y, 1.0 * k}); }
        LIB(ga_addpoints(a, p.size(), p.data()));
    }
    void useAverager(GA* a)
    {
        if (!a->m->n) return;
        point p{0, 0, 0};
        const char* q;
        genPoint(s, L, G.g.h, p.x, p.y, &q);
        LIB(ga_getvalue(a->a, &p));
    }
    void newPoly()
    {
        poly* p = nullptr;
        GN* g = any(gn);
        int how = s.range(0, 2);
        c.desc << strf("polyline (%d)\n", how);
        if (how && g && g->t == NT_COR && g->m.nx > 1 && g->m.ny > 1) {
            LIB(gridnodes_validate(g->g));
            g->m = fromGridnodes(g->g);
            if (how == 1) LIB(p = poly_formbound(g->m.nx - 1, g->m.ny - 1, gridnodes_getx(g->g), gridnodes_gety(g->g)));
            else LIB(p = poly_formboundij(g->m.nx - 1, g->m.ny - 1, gridnodes_getx(g->g)));
        } else {
            LIB(p = poly_create());
            for (int k = s.range(0, 12); k > 0; --k) LIB(poly_addpoint(p, k, k * k % 7));
        }
        pl.emplace_back(new PL{p, {}});
        syncPoly(pl.back().get());
    }
    void usePoly(PL* p)
    {
        int k = s.range(0, 9);
        c.desc << strf("polyline operation %d\n", k);
        switch (k) {
        case 0: {
            poly* q = nullptr;
            LIB(q = poly_copy(p->p));
            pl.emplace_back(new PL{q, p->m});
            PL* n = pl.back().get();
            CHECK(q->n == p->p->n && same(q->e.xmin, p->p->e.xmin) && same(q->e.xmax, p->p->e.xmax) && same(q->e.ymin, p->p->e.ymin) && same(q->e.ymax, p->p->e.ymax), "the copy of a polyline is different");
            (void) n;
            ncopy++;
            return;
        }
        case 1: { PL* o = any(pl); if (o == p || p->m.size() > 500) return; LIB(poly_append(p->p, o->p)); p->m.insert(p->m.end(), o->m.begin(), o->m.end()); return; }
        case 2: for (int q = s.range(1, 20); q > 0; --q) { LIB(poly_addpoint(p->p, q, -q)); p->m.push_back({q, -q}); } return;
        case 3: if (!p->m.empty()) { int at = s.draw(p->m.size()); LIB(poly_deletepoint(p->p, at)); p->m.erase(p->m.begin() + at); } return;
        case 4: { int at = s.draw(p->m.size() + 1); LIB(poly_addpointat(p->p, at, 1, 2)); p->m.insert(p->m.begin() + at, {1, 2}); return; }
        case 5: LIB(poly_clear(p->p)); p->m.clear(); return;
        case 6: LIB(poly_compact(p->p, 1e-10)); syncPoly(p); return;
        case 7: if (p->m.size()) LIB(poly_close(p->p)); syncPoly(p); return;
        case 8: LIB(poly_reverse(p->p)); std::reverse(p->m.begin(), p->m.end()); return;
        default: LIB(poly_destroy(p->p)); drop(pl, p); ndestroy++; return;
        }
    }
    void kdOp()
    {
        int k = kd.empty() ? 0 : s.range(0, 5);
        if (k == 0) { if (kd.size() < 4) { kdtree* t = nullptr; KD n = kdCreate(s, c); t = n.t; (void) t; LIVE_KD.push_back(n.t); kd.push_back(n); } return; }
        size_t q = s.draw(kd.size());
        KD& d = kd[q];
        if (k <= 2) { kdInsert(s, c, d); return; }
        if (k == 3 && d.p.size()) {
            std::vector<double> v = d.p[s.draw(d.p.size())];
            kdset* st = nullptr;
            double r = s.range(0, 200);
            c.desc << strf("kd-tree %zu: range %g\n", q, r);
            LIB(st = kd_findnodeswithinrange(d.t, v.data(), r, s.range(0, 1)));
            if (st) {
                size_t n = kdset_getsize(st), m = s.draw(n + 2);
                double dist;
                for (size_t w = 0; w < m; ++w) LIB(kdset_read(st, &dist));
                ks.push_back({st, n});
            }
        } else if (k == 4 && !ks.empty()) {
            size_t w = s.draw(ks.size());
            c.desc << "free a set\n";
            LIB(kdset_free(ks[w].s));
            ks.erase(ks.begin() + w);
        } else if (k == 5 && s.chance(1, 2)) {
            c.desc << strf("kd-tree %zu: destroy\n", q);
            kd_destroy(d.t);
            kd.erase(kd.begin() + q);
            ndestroy++;
        }
    }
    std::vector<kdtree*> LIVE_KD;

    void run()
    {
        int nop = s.range(3, 60);
        create();
        for (int k = 0; k < nop; ++k) {
            GN* g = any(gn);
            switch (s.weighted({2, 3, 3, 4, 3, 3, 2, 4, 4, 2, 2, 2, 2, 5, 4})) {
            case 0: if (gn.size() < 12) create(); break;
            case 1: if (g && gn.size() < 12) copy(g); break;
            case 2: if (g && gn.size() < 12) subgrid(g); break;
            case 3: if (g && gn.size() < 12) transform(g); break;
            case 4: if (g) modify(g); break;
            case 5: if (g) inPlace(g); break;
            case 6: if (g) destroy(g); break;
            case 7: if (g && gm.size() < 8) buildMap(g); break;
            case 8: if (GM* m = any(gm)) query(m); break;
            case 9: if (GM* m = any(gm)) destroyMap(m); break;
            case 10: if (GM* m = any(gm)) averager(m); break;
            case 11: if (GA* a = any(ga)) useAverager(a); break;
            case 12: if (pl.size() < 8) newPoly(); break;
            case 13: if (PL* p = any(pl)) usePoly(p); break;
            default: kdOp();
            }
            check();
        }
        // the rest, in any order
        while (!gn.empty() || !gm.empty() || !pl.empty() || !ga.empty() || !ks.empty()) {
            int k = s.range(0, 4);
            if (k == 0 && !gn.empty()) destroy(any(gn));
            else if (k == 1 && !gm.empty()) destroyMap(any(gm));
            else if (k == 2 && !pl.empty()) { PL* p = any(pl); LIB(poly_destroy(p->p)); drop(pl, p); }
            else if (k == 3 && !ga.empty()) { GA* a = any(ga); LIB(ga_destroy(a->a)); drop(ga, a); }
            else if (k == 4 && !ks.empty()) { LIB(kdset_free(ks.back().s)); ks.pop_back(); }
            else if (s.replay && s.rpos >= s.rn) {      // (the end of a shortened replay)
                if (!gn.empty()) destroy(any(gn));
                else if (!gm.empty()) destroyMap(any(gm));
                else if (!pl.empty()) { PL* p = any(pl); LIB(poly_destroy(p->p)); drop(pl, p); }
                else if (!ga.empty()) { GA* a = any(ga); LIB(ga_destroy(a->a)); drop(ga, a); }
                else { LIB(kdset_free(ks.back().s)); ks.pop_back(); }
            }
            check();
        }
        for (auto& k : kd) kd_destroy(k.t);
    }
};

static void lifeCase(Src& s, Ctx& c)
{
    LIVE = 0;
    GeomOpts o;
    Grid G = genGrid(s, c, o, 0);
    c.desc << gridText(G.n);
    World w(s, c, G);
    w.run();
    CHECK(LIVE == 0, "%lld bytes are not released", LIVE);
    c.nontrivial = w.ncopy && w.ndestroy > 1;
    c.label(w.nquery > 0, "map-queried");
}

// kd-trees: memory (their generators allocate in between, hence apart)
static void kdCase(Src& s, Ctx& c)
{
    int d = s.range(1, 4), nt = s.range(1, 4), nset = 0, nins = 0;
    LIVE = 0;
    std::vector<kdtree*> t;
    std::vector<kdset*> st;
    for (int k = 0; k < nt; ++k) { kdtree* q = nullptr; LIB(q = kd_create(d)); t.push_back(q); }
    std::vector<double> buf(d), flat;
    for (int k = s.range(1, 40); k > 0; --k) {
        size_t w = s.draw(t.size());
        switch (s.range(0, 3)) {
        case 0:
            for (int m = s.range(1, 30); m > 0; --m) {
                for (auto& v : buf) v = s.range(-9, 9);
                if (s.chance(1, 20)) buf[0] = QNAN;
                LIB(kd_insertnode(t[w], buf.data(), m));
                nins++;
            }
            c.desc << strf("insert in tree %zu\n", w);
            break;
        case 1: {
            int m = s.range(0, 300), sh = s.range(0, 1);
            flat.resize(m * d);
            for (auto& v : flat) v = s.range(-50, 50);
            std::vector<double*> pp;
            for (int q = 0; q < d; ++q) pp.push_back(flat.data() + q * m);
            c.desc << strf("insert %d nodes in tree %zu\n", m, w);
            LIB(kd_insertnodes(t[w], m, pp.data(), sh));
            nins += m;
            break;
        }
        case 2: {
            for (auto& v : buf) v = s.range(-9, 9);
            double r = s.range(0, 60), dist;
            int ord = s.range(0, 1);
            if (!kd_getsize(t[w])) break;
            c.desc << strf("search in tree %zu\n", w);
            kdset* q = nullptr;
            LIB(q = kd_findnodeswithinrange(t[w], buf.data(), r, ord));
            LIB(kd_findnearestnode(t[w], buf.data()));
            if (!q) break;
            for (size_t m = s.draw(kdset_getsize(q) + 2); m > 0; --m) LIB(kdset_read(q, &dist));
            st.push_back(q);
            nset++;
            break;
        }
        default:
            if (st.empty()) break;
            c.desc << "free a set\n";
            std::swap(st[s.draw(st.size())], st.back());
            LIB(kdset_free(st.back()));
            st.pop_back();
        }
    }
    bool first = s.chance(1, 2);
    if (first) for (auto q : t) LIB(kd_destroy(q));
    for (auto q : st) LIB(kdset_free(q));
    if (!first) for (auto q : t) LIB(kd_destroy(q));
    CHECK(LIVE == 0, "%lld bytes are not released", LIVE);
    c.nontrivial = nins > 1 && nset > 0;
}

Property THE_PROPERTY = {"C25", "something is copied or converted, and several objects are destroyed on the way (kd-trees: nodes are inserted and a result set made)",
    {{"lifetimes", lifeCase, 20000, 500000}, {"kd-trees", kdCase, 15000, 300000}, {"huge-lifetimes", lifeCase, 8, 400, 1}},
    {"a map is not used after the nodes it refers to are changed or destroyed (but may be destroyed after them)"}};
