/* Stand-in for libnn and libcsa.  The "interpolators" are closed forms:
 *   z(x,y) = mean(z) + a * (x - mean(x)) + b * (y - mean(y)),
 * with (a,b) telling the interpolators apart: CSA (1,2), Sibson (3,-1),
 * non-Sibsonian (-2,5), linear (0.5,-0.25).  The last three give NaN outside
 * the bounding box of the data, as the real ones do outside the hull. */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "nn.h"
#include "csa.h"

NN_RULE nn_rule = SIBSON;
char* nn_version = "stub";
char* csa_version = "stub";

struct delaunay {
    int n;
    double mx, my, mz, x0, x1, y0, y1;
};
struct nnpi {
    delaunay* d;
};
struct lpi {
    delaunay* d;
};
struct csa {
    delaunay* d;
    int ready;
};

void points_read(char* fname, int dim, int* n, point** points)
{
    FILE* f = fopen(fname, "r");
    char buf[1024];
    int na = 0;

    *n = 0;
    *points = NULL;
    if (f == NULL) {
        fprintf(stderr, "stub: could not open %s\n", fname);
        exit(1);
    }
    while (fgets(buf, sizeof(buf), f) != NULL) {
        point p;

        if (buf[0] == '#' || sscanf(buf, "%lf %lf %lf", &p.x, &p.y, &p.z) != 3)
            continue;
        if (*n == na) {
            na = na * 2 + 16;
            *points = realloc(*points, na * sizeof(point));
        }
        (*points)[(*n)++] = p;
    }
    fclose(f);
}

delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[])
{
    delaunay* d = calloc(1, sizeof(delaunay));
    int i;

    d->n = np;
    d->x0 = d->y0 = HUGE_VAL;
    d->x1 = d->y1 = -HUGE_VAL;
    for (i = 0; i < np; ++i) {
        d->mx += points[i].x / np;
        d->my += points[i].y / np;
        d->mz += points[i].z / np;
        d->x0 = fmin(d->x0, points[i].x);
        d->x1 = fmax(d->x1, points[i].x);
        d->y0 = fmin(d->y0, points[i].y);
        d->y1 = fmax(d->y1, points[i].y);
    }
    return d;
}

void delaunay_destroy(delaunay* d)
{
    free(d);
}

static void plane(delaunay* d, double a, double b, int box, point* p)
{
    if (box && !(p->x >= d->x0 && p->x <= d->x1 && p->y >= d->y0 && p->y <= d->y1))
        p->z = NAN;
    else
        p->z = d->mz + a * (p->x - d->mx) + b * (p->y - d->my);
}

nnpi* nnpi_create(delaunay* d)
{
    nnpi* n = calloc(1, sizeof(nnpi));

    n->d = d;
    return n;
}

void nnpi_destroy(nnpi* n)
{
    free(n);
}

void nnpi_interpolate_point(nnpi* n, point* p)
{
    if (nn_rule == SIBSON)
        plane(n->d, 3.0, -1.0, 1, p);
    else
        plane(n->d, -2.0, 5.0, 1, p);
}

lpi* lpi_build(delaunay* d)
{
    return (lpi*) nnpi_create(d);
}

void lpi_destroy(lpi* l)
{
    free(l);
}

void lpi_interpolate_point(lpi* l, point* p)
{
    plane(l->d, 0.5, -0.25, 1, p);
}

csa* csa_create(void)
{
    return calloc(1, sizeof(csa));
}

void csa_destroy(csa* a)
{
    free(a->d);
    free(a);
}

void csa_addpoints(csa* a, int n, point points[])
{
    a->d = delaunay_build(n, points, 0, NULL, 0, NULL);
}

void csa_calculatespline(csa* a)
{
    a->ready = 1;
}

void csa_approximatepoint(csa* a, point* p)
{
    if (!a->ready)
        p->z = NAN;
    else
        plane(a->d, 1.0, 2.0, 0, p);
}
