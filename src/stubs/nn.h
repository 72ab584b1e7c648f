/* Stand-in for libnn, which is not installed here: the same interface, with
 * simple closed-form "interpolators", so that gridbathy itself can be run. */
#if !defined(_NN_H)
#define _NN_H
#if !defined(_STRUCT_POINT)
#define _STRUCT_POINT
typedef struct {
    double x;
    double y;
    double z;
} point;
#endif
typedef enum { SIBSON, NON_SIBSONIAN } NN_RULE;
extern NN_RULE nn_rule;
extern char* nn_version;
typedef struct delaunay delaunay;
typedef struct nnpi nnpi;
typedef struct lpi lpi;
void points_read(char* fname, int dim, int* n, point** points);
delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[]);
void delaunay_destroy(delaunay* d);
nnpi* nnpi_create(delaunay* d);
void nnpi_destroy(nnpi* nn);
void nnpi_interpolate_point(nnpi* nn, point* p);
lpi* lpi_build(delaunay* d);
void lpi_destroy(lpi* l);
void lpi_interpolate_point(lpi* l, point* p);
#endif
