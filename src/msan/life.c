/* life.c -- histories of library calls, built with MemorySanitizer: every value
 * that the library hands out is looked at, so that a value which was never
 * written is reported.
 * usage: life <family: p, g or k><length> <first> <count> <scratch file> */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include "guquit.h"
#include "gucommon.h"
#include "gridnodes.h"
#include "gridmap.h"
#include "gridaverager.h"
#include "poly.h"
#include "kdtree.h"

static jmp_buf jb;
static volatile long seen = 0;
static char* path;
static int len;

static void handler(char* format, ...)
{
    longjmp(jb, 1);
}

static void lookd(double v)
{
    if (v > 0)
        ++seen;
}

static void looki(long v)
{
    if (v > 0)
        ++seen;
}

static int take(uint64_t* v, int n)
{
    int r = (int) (*v % n);

    *v /= n;
    return r;
}

/* ---- polylines */
static void lookpoly(poly* p)
{
    int i;

    looki(p->n);
    for (i = 0; i < p->n; ++i) {
        lookd(p->x[i]);
        lookd(p->y[i]);
    }
    if (p->n > 0) {
        lookd(p->e.xmin);
        lookd(p->e.xmax);
        lookd(p->e.ymin);
        lookd(p->e.ymax);
    }
    lookd(poly_area(p));
    looki(poly_isclosed(p, 0.1));
    looki(poly_containspoint(p, 0.3, 0.7));
    looki(poly_findindex(p, 1, 1));
}

#define NPOLY 17
static void histpoly(uint64_t v)
{
    poly* p[2];
    int n0 = take(&v, 3) * 4, k, i;

    p[0] = poly_create();
    p[1] = poly_create();
    for (k = 0; k < n0; ++k)
        poly_addpoint(p[0], k % 3, k * 0.5);
    for (k = 0; k < len; ++k) {
        int w = take(&v, 2), op = take(&v, NPOLY);
        poly* q = p[w];
        poly* t;
        FILE* f;

        switch (op) {
        case 0: poly_addpoint(q, 1, 1); break;
        case 1: for (i = 0; i < 9; ++i) poly_addpoint(q, i * i % 7, i); break;
        case 2: poly_addpoint(q, NAN, 1); break;
        case 3: poly_addpointat(q, 0, 2, 5); break;
        case 4: poly_addpointat(q, q->n / 2, -2, 5); break;
        case 5: poly_append(q, p[1 - w]); break;
        case 6: poly_clear(q); break;
        case 7: poly_close(q); break;
        case 8: t = poly_copy(q); poly_destroy(p[1 - w]); p[1 - w] = t; break;
        case 9: if (q->n) poly_deletepoint(q, 0); break;
        case 10: if (q->n) poly_deletepoint(q, q->n - 1); break;
        case 11: poly_despike(q, 0.75); break;
        case 12: poly_resample(q, 0.6); break;
        case 13: poly_reverse(q); break;
        case 14: poly_compact(q, 1.0e-10); break;
        case 15:
            f = fopen(path, "w");
            fprintf(f, "# c\n\n1 2\n3 4 rest\n5\t6\n\n7 8\n");
            fclose(f);
            f = fopen(path, "r");
            looki(poly_read(q, f));
            looki(poly_read(p[1 - w], f));
            fclose(f);
            break;
        case 16:
            f = fopen(path, "w");
            poly_write(q, f);
            fclose(f);
            f = fopen(path, "r");
            looki(poly_read(p[1 - w], f));
            fclose(f);
            break;
        }
        lookpoly(p[0]);
        lookpoly(p[1]);
    }
    poly_destroy(p[0]);
    poly_destroy(p[1]);
}

/* ---- grids and maps */
static void lookgrid(gridnodes* gn)
{
    int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn), i, j;
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);

    looki(gridnodes_getmaptype(gn));
    looki(gridnodes_getnce1(gn));
    looki(gridnodes_getnce2(gn));
    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            lookd(x[j][i]);
            lookd(y[j][i]);
        }
}

static void lookmap(gridmap* gm)
{
    int i, j, k, l;
    double a, b;

    looki(gridmap_getnce1(gm));
    looki(gridmap_getnce2(gm));
    for (k = -1; k < 6; ++k)
        for (l = -1; l < 6; ++l) {
            double x = k * 0.61 + 0.1, y = l * 0.57 + 0.2;

            if (gridmap_xy2fij(gm, x, y, &a, &b)) {
                lookd(a);
                lookd(b);
            }
            if (gridmap_xy2ij(gm, x, y, &i, &j)) {
                looki(i);
                looki(j);
            }
            if (gridmap_fij2xy(gm, x, y, &a, &b)) {
                lookd(a);
                lookd(b);
            }
        }
}

#define NGRID 14
static void histgrid(uint64_t v)
{
    static const NODETYPE T[] = { NT_DD, NT_CEN, NT_COR };
    int t = take(&v, 3), miss = take(&v, 12), ver = take(&v, 2), k;
    int nx = t == 0 ? 5 : t == 1 ? 3 : 4, ny = t == 0 ? 5 : t == 1 ? 2 : 3;
    int how = take(&v, 2);
    gridnodes* gn;

    gu_verbose = ver;
    if (how == 0)
        gn = gridnodes_create(nx, ny, T[t]);
    else {                      /* from arrays, then all nodes are read again */
        double** x = gu_alloc2d(ny, nx, sizeof(double));
        double** y = gu_alloc2d(ny, nx, sizeof(double));

        for (k = 0; k < nx * ny; ++k) {
            x[k / nx][k % nx] = 100 + k;
            y[k / nx][k % nx] = 200 - k;
        }
        gn = gridnodes_create2(nx, ny, T[t], x, y);
        lookgrid(gn);
    }
    for (k = 0; k < nx * ny; ++k)
        if (miss && k == miss * 2 % (nx * ny))
            gridnodes_readnextpoint(gn, NAN, NAN);
        else
            gridnodes_readnextpoint(gn, k % nx, k / nx);
    lookgrid(gn);
    for (k = 0; k < len; ++k) {
        int op = take(&v, NGRID);
        gridnodes* g2 = NULL;

        switch (op) {
        case 0: gridnodes_validate(gn); break;
        case 1: case 2: case 3: g2 = gridnodes_transform(gn, T[op - 1]); break;
        case 4: g2 = gridnodes_copy(gn); break;
        case 5: g2 = gridnodes_subgrid(gn, 0, gridnodes_getnx(gn) - 1, 0, gridnodes_getny(gn) - 1); break;
        case 6: g2 = gridnodes_subgrid(gn, 1, gridnodes_getnx(gn) - 1, 0, 1); break;
        case 7: gridnodes_calcstats(gn); break;
        case 8:{
                int c1 = gridnodes_getnce1(gn), c2 = gridnodes_getnce2(gn), q;
                FILE* f = fopen(path, "w");
                int** m;

                for (q = 0; q < c1 * c2; ++q)
                    fprintf(f, "%d\n", q % 3 != 1);
                fclose(f);
                m = gu_readmask(path, c1, c2);
                if (setjmp(jb) == 0)
                    gridnodes_applymask(gn, m);
                gu_free2d(m);
            }
            break;
        case 9: gridnodes_write(gn, path, CT_XY); g2 = gridnodes_read(path, T[t]); break;
        case 10: gridnodes_write(gn, path, CT_X); gridnodes_write(gn, path, CT_Y); break;
        case 11: gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE); break;
        case 12: gridnodes_setmaptype(gn, GRIDMAP_TYPE_BINARY); break;
        case 13:{
                gridnodes* co = gridnodes_transform(gn, NT_COR);
                gridmap* gm;
                gridaverager* ga;
                point p[4] = { {0.5, 0.5, 1}, {0.75, 0.25, 2}, {1.5, 0.5, 3}, {-1, 7, 8} };
                int q;

                gridnodes_setmaptype(co, gridnodes_getmaptype(gn));
                gridnodes_validate(co);
                gm = gridmap_build2(co);
                lookmap(gm);
                ga = ga_create(gm);
                ga_addpoints(ga, 4, p);
                for (q = 0; q < 4; ++q) {
                    ga_getvalue(ga, &p[q]);
                    lookd(p[q].z);
                }
                ga_destroy(ga);
                gridmap_destroy(gm);
                gridnodes_destroy(co);
            }
            break;
        }
        if (g2 != NULL) {
            gridnodes_destroy(gn);
            gn = g2;
        }
        lookgrid(gn);
    }
    gridnodes_destroy(gn);
}

/* ---- kd-trees */
#define NKD 9
static void histkd(uint64_t v)
{
    int nd = 1 + take(&v, 4), k, i;
    kdtree* t = kd_create(nd);
    double src[4][40];
    double* sp[4] = { src[0], src[1], src[2], src[3] };

    for (k = 0; k < 160; ++k)
        src[k / 40][k % 40] = k * 37 % 41;
    for (k = 0; k < len; ++k) {
        double q[4] = { 3, 5, 7, 9 };
        int op = take(&v, NKD);
        kdset* s;
        size_t id;
        double dist;

        switch (op) {
        case 0: kd_insertnode(t, q, 5); break;
        case 1: q[0] = k; kd_insertnode(t, q, k); break;
        case 2: q[nd - 1] = -k; kd_insertnode(t, q, 77 + k); break;
        case 3: kd_insertnodes(t, 3, sp, 0); break;
        case 4: kd_insertnodes(t, 40, sp, 1); break;
        case 5: q[0] = NAN; kd_insertnode(t, q, 6); break;
        case 6:
            if ((id = kd_findnearestnode(t, q)) != SIZE_MAX) {
                looki((long) kd_getnodeorigid(t, id));
                for (i = 0; i < nd; ++i)
                    lookd(kd_getnodecoords(t, id)[i]);
            }
            break;
        case 7: case 8:
            s = kd_findnodeswithinrange(t, q, op == 7 ? 11 : 3, op == 7);
            looki((long) kdset_getsize(s));
            while ((id = kdset_read(s, &dist)) != SIZE_MAX) {
                lookd(dist);
                looki((long) kd_getnodeorigid(t, id));
            }
            kdset_free(s);
            break;
        }
        looki((long) kd_getsize(t));
        for (id = 0; id < kd_getsize(t); ++id) {
            looki((long) kd_getnodeorigid(t, id));
            for (i = 0; i < nd; ++i)
                lookd(kd_getnodecoords(t, id)[i]);
        }
        if (kd_getsize(t))
            for (i = 0; i < 2 * nd; ++i)
                lookd(kd_getminmax(t)[i]);
    }
    kd_destroy(t);
}

int main(int argc, char* argv[])
{
    uint64_t first = strtoull(argv[2], NULL, 10), n = strtoull(argv[3], NULL, 10), k;

    path = argv[4];
    len = atoi(argv[1] + 1);
    gu_setquitfn(handler);
    for (k = first; k < first + n; ++k) {
        if (setjmp(jb) != 0)
            continue;
        gu_verbose = 0;
        if (argv[1][0] == 'p')
            histpoly(k);
        else if (argv[1][0] == 'g')
            histgrid(k);
        else
            histkd(k);
    }
    printf("seen %ld\n", seen);
    return 0;
}
