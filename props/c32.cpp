// C32: matrices
#include "model.h"
#include <climits>

struct Mat {
    size_t nj, ni, unit;
    char** p;
    std::vector<unsigned char> m;
    size_t at(size_t j, size_t b) const { return j * ni * unit + b; }
};

static void verify(const Mat& a, size_t k, const char* when)
{
    size_t w = a.ni * a.unit;
    for (size_t j = 0; j < a.nj; ++j) {
        CHECK(a.p[j] == a.p[0] + j * w, "matrix %zu (%zu x %zu of %zu bytes) %s: row %zu does not follow the previous one", k, a.nj, a.ni, a.unit, when, j);
        if (memcmp(a.p[j], &a.m[j * w], w))
            for (size_t b = 0; b < w; ++b)
                CHECK((unsigned char) a.p[j][b] == a.m[a.at(j, b)], "matrix %zu (%zu x %zu of %zu bytes) %s: byte %zu of row %zu is %d instead of %d", k, a.nj, a.ni, a.unit, when, b, j, (unsigned char) a.p[j][b], a.m[a.at(j, b)]);
    }
}

static void matrixCase(Src& s, Ctx& c)
{
    static const size_t UNIT[] = {8, 4, 1, 2, 16, 24, 40, 3};
    std::vector<Mat> M;
    int nop = s.range(2, 20), nw = 0;
    size_t id = 0;
    for (int k = 0; k < nop; ++k) {
        int op = M.empty() ? 0 : s.weighted({3, 4, 2});
        if (op == 0 && M.size() < 6) {
            Mat a;
            size_t n[2] = {(size_t) s.range(1, 30), (size_t) s.range(1, 30)};
            if (HUGE_MODE < 0) {
                n[0] = hugeLength(s, 70000);
                n[1] = s.range(1, 3);
                if (s.chance(1, 2)) std::swap(n[0], n[1]);
            } else if (s.chance(1, 10)) { n[0] = s.range(1, 600); n[1] = s.range(1, 600); }
            a.nj = n[0]; a.ni = n[1];
            a.unit = UNIT[s.draw(HUGE_MODE < 0 ? 3 : 8)];
            c.desc << strf("matrix %zu: %zu x %zu of %zu bytes\n", id, a.nj, a.ni, a.unit);
            a.p = (char**) gu_alloc2d(a.nj, a.ni, a.unit);
            CHECK(a.p, "no matrix");
            CHECK(a.unit % 8 || (uintptr_t) a.p[0] % 8 == 0, "the elements are not aligned");
            a.m.assign(a.nj * a.ni * a.unit, 0);
            M.push_back(a);
            verify(M.back(), M.size() - 1, "after allocation");
            id++;
        } else if (op == 2) {
            size_t q = s.draw(M.size());
            c.desc << strf("the matrix in place %zu is released\n", q);
            if (s.chance(1, 2)) gu_free2d(M[q].p);
            else free(M[q].p);                  // (documented)
            M.erase(M.begin() + q);
        } else {                                // write
            size_t q = s.draw(M.size());
            Mat& a = M[q];
            bool all = s.chance(1, 3);
            int v = s.range(1, 255);
            size_t j0 = all ? 0 : s.draw(a.nj), i0 = all ? 0 : s.draw(a.ni), j1 = all ? a.nj - 1 : j0, i1 = all ? a.ni - 1 : i0;
            if (!all && s.chance(1, 3)) { j0 = j1 = a.nj - 1; i0 = i1 = a.ni - 1; }
            c.desc << strf("matrix in place %zu: [%zu..%zu][%zu..%zu] = %d\n", q, j0, j1, i0, i1, v);
            for (size_t j = j0; j <= j1; ++j) {
                memset(a.p[j] + i0 * a.unit, v, (i1 - i0 + 1) * a.unit);
                memset(&a.m[a.at(j, i0 * a.unit)], v, (i1 - i0 + 1) * a.unit);
            }
            nw++;
        }
        for (size_t q = 0; q < M.size(); ++q) verify(M[q], q, "later");
    }
    c.label(M.size() > 1, "several-matrices");
    for (auto& a : M) gu_free2d(a.p);
    M.clear();
    c.nontrivial = nw > 0 && id > 1;
}

// sizes that make no sense
static void sizeCase(Src& s, Ctx& c)
{
    static const long long BAD[] = {0, -1, -2, -3, -8, -100, INT_MIN, INT_MIN + 1, -65536, -1000000};
    int way = s.range(0, 2);
    std::string what;
    long long a = s.chance(1, 3) ? BAD[s.draw(10)] : -(long long) s.draw(s.chance(1, 2) ? 20 : 2000000000), b = s.range(1, s.chance(1, 3) ? 1000 : 5);
    if (way == 2) {                             // too many bytes
        size_t unit = s.chance(1, 2) ? 8 : 4;
        int e = s.range(2, 62), x = s.range(-3, 3), y = s.range(-3, 3);
        size_t nj = ((size_t) 1 << e) + x, lim = SIZE_MAX / unit / nj, ni = lim + (size_t) (s.range(2, 5)) + y + 3;
        if (s.chance(1, 4)) ni = lim * (size_t) s.range(1, 3) + 10;
        if (s.chance(1, 2)) std::swap(ni, nj);
        // the total, in 128 bits
        unsigned __int128 t = (unsigned __int128) nj * ni * unit + (unsigned __int128) nj * sizeof(void*);
        if (t <= SIZE_MAX) discard();
        what = strf("gu_alloc2d(%zu, %zu, %zu)", nj, ni, unit);
        c.desc << what << "\n";
        try {
            gu_alloc2d(nj, ni, unit);
            fail("%s: a matrix of more bytes than there can be is allocated", what.c_str());
        } catch (Quit& q) { CHECK(!q.msg.empty(), "%s: no message", what.c_str()); }
        c.label("overflow");
    } else {
        int w = s.range(0, 2);                  // which of the sizes is wrong
        long long nx = w ? a : b, ny = w == 1 ? b : a;
        int ty = s.range(0, 3);
        what = way ? strf("gridnodes_create(%lld, %lld)", nx, ny) : strf("gu_alloc2d(%lld, %lld)", ny, nx);
        c.desc << what << "\n";
        try {
            if (way) gridnodes_create((int) nx, (int) ny, (NODETYPE) ty);
            else gu_alloc2d((size_t) ny, (size_t) nx, sizeof(double));
            fail("%s succeeds", what.c_str());
        } catch (Quit& q) { CHECK(!q.msg.empty(), "%s: no message", what.c_str()); }
        c.label(way ? "gridnodes_create" : "gu_alloc2d");
    }
    c.nontrivial = true;
}

// a new grid holds what is put into it, in any pass and order
static void gridCase(Src& s, Ctx& c)
{
    int nx = s.range(1, 12), ny = s.range(1, 12), ty = s.range(0, 3);
    gridnodes* g = gridnodes_create(nx, ny, (NODETYPE) ty);
    CHECK(gridnodes_getnx(g) == nx && gridnodes_getny(g) == ny, "%d x %d nodes instead of %d x %d", gridnodes_getnx(g), gridnodes_getny(g), nx, ny);
    double **x = gridnodes_getx(g), **y = gridnodes_gety(g);
    CHECK(x != y && x && y, "the coordinates share an array");
    std::vector<double> mx(nx * ny, 0.0), my(nx * ny, 0.0);
    int next = 0, n = s.range(0, 3 * nx * ny), nd = 0;
    c.desc << strf("%d x %d nodes of type %d, %d points\n", nx, ny, ty, n);
    for (int k = 0; k < n; ++k) {
        double a = s.chance(1, 10) ? QNAN : s.range(-1000, 1000), b = s.chance(1, 10) ? QNAN : s.range(-1000, 1000);
        if (s.chance(1, 8)) {                   // directly
            int i = s.range(0, nx - 1), j = s.range(0, ny - 1);
            x[j][i] = a; y[j][i] = b;
            mx[j * nx + i] = a; my[j * nx + i] = b;
            nd++;
        } else {
            gridnodes_readnextpoint(g, a, b);
            mx[next] = a; my[next] = b;
            next = (next + 1) % (nx * ny);
        }
    }
    CHECK(gridnodes_getx(g) == x && gridnodes_gety(g) == y, "the arrays were moved");
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i)
            CHECK(same(x[j][i], mx[j * nx + i]) && same(y[j][i], my[j * nx + i]), "node (%d,%d) is (%g, %g) instead of (%g, %g)", i, j, x[j][i], y[j][i], mx[j * nx + i], my[j * nx + i]);
    gridnodes_destroy(g);
    c.nontrivial = n > nx * ny && nx * ny > 1;
    c.label(nd > 0, "direct-access");
}

Property THE_PROPERTY = {"C32", "matrices: two matrices or more, one of them written to; sizes: any; grids: more points than nodes",
    {{"matrices", matrixCase, 20000, 600000}, {"sizes", sizeCase, 20000, 600000}, {"grids", gridCase, 20000, 600000}, {"long-matrices", matrixCase, 60, 3000, -1}},
    {"sizes in bytes that fit size_t are within the memory limits"}};
