/*
 * Stand-in for the two interpolation libraries that gridbathy is linked with
 * (libnn, libcsa). A plane is fitted to the data and the interpolant is a known
 * function of it; the spline is defined everywhere, while triangulation based
 * interpolators return NaN away from the data (here: outside the bounding box
 * of the data). The interpolant is v + 50 sin(v / 20), v the plane: for a linear
 * one the average over a cell would not depend on the number of points. To let
 * the caller's choice of the rule be seen in the output, the non-Sibsonian rule
 * adds 1000, the linear rule 2000 and the spline 4000 to the value.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "nn.h"
#include "csa.h"

char* nn_version = "stub";
char* csa_version = "stub";
NN_RULE nn_rule = SIBSON;

void points_read(char* fname, int dim, int* n, point** points)
{
    FILE* f = (strcmp(fname, "stdin") == 0 || strcmp(fname, "-") == 0) ? stdin : fopen(fname, "r");
    char buf[1024];
    int nalloc = 16;
    point* p = malloc(nalloc * sizeof(point));

    (void) dim;
    *n = 0;
    if (f == NULL) {
        fprintf(stderr, "%s: could not open\n", fname);
        exit(1);
    }
    while (fgets(buf, sizeof buf, f) != NULL) {
        if (buf[0] == '#')
            continue;
        if (*n == nalloc) {
            nalloc *= 2;
            p = realloc(p, nalloc * sizeof(point));
        }
        if (sscanf(buf, "%lf %lf %lf", &p[*n].x, &p[*n].y, &p[*n].z) == 3)
            (*n)++;
    }
    if (f != stdin)
        fclose(f);
    *points = p;
}

typedef struct {
    int n;
    double x0, y0, z0, a, b;
    double xmin, xmax, ymin, ymax;
} plane;

/* least squares plane */
static void plane_fit(plane* q, int n, point p[])
{
    double sxx = 0, sxy = 0, syy = 0, sxz = 0, syz = 0, det;
    int i;

    memset(q, 0, sizeof(*q));
    q->n = n;
    if (n == 0)
        return;
    q->xmin = q->xmax = p[0].x;
    q->ymin = q->ymax = p[0].y;
    for (i = 0; i < n; ++i) {
        q->x0 += p[i].x / n;
        q->y0 += p[i].y / n;
        q->z0 += p[i].z / n;
        if (p[i].x < q->xmin)
            q->xmin = p[i].x;
        if (p[i].x > q->xmax)
            q->xmax = p[i].x;
        if (p[i].y < q->ymin)
            q->ymin = p[i].y;
        if (p[i].y > q->ymax)
            q->ymax = p[i].y;
    }
    for (i = 0; i < n; ++i) {
        double dx = p[i].x - q->x0, dy = p[i].y - q->y0, dz = p[i].z - q->z0;

        sxx += dx * dx;
        sxy += dx * dy;
        syy += dy * dy;
        sxz += dx * dz;
        syz += dy * dz;
    }
    det = sxx * syy - sxy * sxy;
    if (det > 1e-12 * sxx * syy) {
        q->a = (sxz * syy - syz * sxy) / det;
        q->b = (syz * sxx - sxz * sxy) / det;
    }
}

static double plane_eval(plane* q, double x, double y)
{
    double v = q->z0 + q->a * (x - q->x0) + q->b * (y - q->y0);

    return v + 50.0 * sin(v / 20.0);
}

static double plane_evalin(plane* q, double x, double y)
{
    if (q->n == 0 || !(x >= q->xmin && x <= q->xmax && y >= q->ymin && y <= q->ymax))
        return NAN;
    return plane_eval(q, x, y);
}

struct delaunay {
    plane q;
};
delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[])
{
    delaunay* d = malloc(sizeof(delaunay));

    (void) ns;
    (void) segments;
    (void) nh;
    (void) holes;
    plane_fit(&d->q, np, points);
    return d;
}

void delaunay_destroy(delaunay* d)
{
    free(d);
}

struct nnpi {
    delaunay* d;
};
nnpi* nnpi_create(delaunay* d)
{
    nnpi* n = malloc(sizeof(nnpi));

    n->d = d;
    return n;
}

void nnpi_destroy(nnpi* n)
{
    free(n);
}

void nnpi_interpolate_point(nnpi* n, point* p)
{
    p->z = plane_evalin(&n->d->q, p->x, p->y) + ((nn_rule == SIBSON) ? 0.0 : 1000.0);
}

struct lpi {
    delaunay* d;
};
lpi* lpi_build(delaunay* d)
{
    lpi* l = malloc(sizeof(lpi));

    l->d = d;
    return l;
}

void lpi_destroy(lpi* l)
{
    free(l);
}

void lpi_interpolate_point(lpi* l, point* p)
{
    p->z = plane_evalin(&l->d->q, p->x, p->y) + 2000.0;
}

struct csa {
    int n;
    point* p;
    plane q;
};
csa* csa_create()
{
    return calloc(1, sizeof(csa));
}

void csa_destroy(csa* a)
{
    free(a->p);
    free(a);
}

void csa_addpoints(csa* a, int n, point points[])
{
    a->p = realloc(a->p, (a->n + n + 1) * sizeof(point));
    memcpy(a->p + a->n, points, n * sizeof(point));
    a->n += n;
}

void csa_calculatespline(csa* a)
{
    plane_fit(&a->q, a->n, a->p);
}

void csa_approximatepoint(csa* a, point* p)
{
    p->z = (a->n == 0) ? NAN : plane_eval(&a->q, p->x, p->y) + 4000.0;
}
