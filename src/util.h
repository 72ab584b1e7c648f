/* util.h -- helpers shared by the drivers: the API under test, small grids,
 * geometries, shape enumeration, and independent geometric oracles. */
#ifndef UTIL_H
#define UTIL_H
#include "mc.h"
/* lengths of lines (without the newline) around the sizes of typical buffers */
static const int LINELEN[] = { 30, 62, 63, 64, 65, 78, 79, 80, 81, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 510, 511, 512, 513, 600, 900, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1500, 1999, 2000, 2045,
    2046, 2047, 2048, 2049, 3000, 4094, 4095, 4096, 4097, 5000, 6000, 8190, 8191, 8192, 8193, 9000, 9999, 10000 };
enum { NLINELEN = sizeof LINELEN / sizeof LINELEN[0], NLINELEN_POLY = 37 };   /* polylines: up to 2000 */
/* "a b" in a line of the given length. kinds: 0 text behind, 1 numbers behind, 2 blanks behind, 3 blanks before, 4 blanks between, 5 tabs before, 6 zeros before the first number */
enum { NLONGKIND = 7 };
inline std::string longline(const char* a, const char* b, int kind, int len)
{
    std::string s = std::string(a) + " " + b, pad;
    int n = len - (int) s.size();
    if (n < 1)
        return s;
    switch (kind) {
    case 0: return s + " " + std::string(n - 1, 'z');
    case 1: s += " "; while ((int) s.size() < len) s += "12 "; s.resize(len); return s;
    case 2: return s + std::string(n, ' ');
    case 3: return std::string(n, ' ') + s;
    case 4: return std::string(a) + std::string(n + 1, ' ') + b;
    case 5: return std::string(n, '\t') + s;
    default: return std::string(n, '0') + s;
    }
}
#include <algorithm>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <unistd.h>
extern "C" {
#include <stdio.h>
#include "gucommon.h"
#include "gridnodes.h"
#include "gridmap.h"
#include "poly.h"
#include "kdtree.h"
#include "gridaverager.h"
}

typedef std::vector<double> vd;

/* ---- plain model of a grid: nx * ny nodes, row-major -------------------- */
struct G {
    int nx = 0, ny = 0;
    vd x, y;
    G() {}
    G(int nx_, int ny_) : nx(nx_), ny(ny_), x((size_t) nx_ * ny_, 0.0), y((size_t) nx_ * ny_, 0.0) {}
    size_t id(int i, int j) const { return (size_t) j * nx + i; }
    double X(int i, int j) const { return x[id(i, j)]; }
    double Y(int i, int j) const { return y[id(i, j)]; }
    bool in(int i, int j) const { return i >= 0 && j >= 0 && i < nx && j < ny; }
    bool ok(int i, int j) const { return in(i, j) && !std::isnan(x[id(i, j)]); }
    void kill(int i, int j) { x[id(i, j)] = NAN; y[id(i, j)] = NAN; }
    void set(int i, int j, double a, double b) { x[id(i, j)] = a; y[id(i, j)] = b; }
    /* cell (i,j) of a corner grid is valid */
    bool cell(int i, int j) const { return ok(i, j) && ok(i + 1, j) && ok(i, j + 1) && ok(i + 1, j + 1); }
};

inline bool same(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b;
}
inline bool sameg(const G& a, const G& b)
{
    if (a.nx != b.nx || a.ny != b.ny)
        return false;
    for (size_t k = 0; k < a.x.size(); ++k)
        if (!same(a.x[k], b.x[k]) || !same(a.y[k], b.y[k]))
            return false;
    return true;
}
inline bool close_(double a, double b, double tol)
{
    return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol;
}
inline std::string gstr(const G& g)
{
    std::string s = mc::strf("%dx%d", g.nx, g.ny);
    if (g.x.size() > 200)
        return s;
    for (int j = 0; j < g.ny; ++j) {
        s += " [";
        for (int i = 0; i < g.nx; ++i)
            s += g.ok(i, j) ? mc::strf("(%.9g,%.9g)", g.X(i, j), g.Y(i, j)) : std::string(std::isnan(g.Y(i, j)) ? "-" : "(NaN,y)");
        s += "]";
    }
    return s;
}
inline std::string vstr(const G& g)
{
    std::string s;
    if (g.x.size() > 4096) {
        int n = 0;
        for (int j = 0; j < g.ny; ++j)
            for (int i = 0; i < g.nx; ++i)
                n += g.ok(i, j);
        return mc::strf("%dx%d, %d valid", g.nx, g.ny, n);
    }
    for (int j = 0; j < g.ny; ++j) {
        for (int i = 0; i < g.nx; ++i)
            s += g.ok(i, j) ? 'o' : '.';
        s += j + 1 < g.ny ? "/" : "";
    }
    return s;
}

/* ---- bridging to the library ------------------------------------------- */
struct Arr {                    /* a 2-D array owned by the harness */
    double** p;
    explicit Arr(const G& g, bool isx) : p((double**) gu_alloc2d(g.ny, g.nx, sizeof(double)))
    {
        for (int j = 0; j < g.ny; ++j)
            for (int i = 0; i < g.nx; ++i)
                p[j][i] = isx ? g.X(i, j) : g.Y(i, j);
    }
    ~Arr() { gu_free2d(p); }
    Arr(const Arr&) = delete;
};
inline gridnodes* mkgn(const G& g, NODETYPE t)
{
    gridnodes* gn = gridnodes_create(g.nx, g.ny, t);
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i) {
            x[j][i] = g.X(i, j);
            y[j][i] = g.Y(i, j);
        }
    return gn;
}
inline G getg(gridnodes* gn)
{
    G g(gridnodes_getnx(gn), gridnodes_getny(gn));
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i)
            g.set(i, j, x[j][i], y[j][i]);
    return g;
}
struct GN {                     /* owns a gridnodes object */
    gridnodes* p;
    explicit GN(gridnodes* q) : p(q) {}
    ~GN() { if (p != nullptr) gridnodes_destroy(p); }
    GN(const GN&) = delete;
    operator gridnodes*() { return p; }
};
struct PL {
    poly* p;
    explicit PL(poly* q) : p(q) {}
    ~PL() { if (p != nullptr) poly_destroy(p); }
    PL(const PL&) = delete;
    operator poly*() { return p; }
    poly* operator->() { return p; }
};
struct GM {
    gridmap* p;
    explicit GM(gridmap* q) : p(q) {}
    ~GM() { if (p != nullptr) gridmap_destroy(p); }
    GM(const GM&) = delete;
    operator gridmap*() { return p; }
};

/* ---- geometries --------------------------------------------------------- */
enum { GEO_UNIT, GEO_AFFINE, GEO_LEFT, GEO_CURVI, GEO_POLAR, GEO_UTM, GEO_SMALL, GEO_RECTI, GEO_TRANSP, GEO_SHEAR, GEO_DEG, GEO_N,
    /* for the library only: coordinates that take many digits */ GEO_FINE = GEO_N, GEO_TINY, GEO_HUGE, GEO_ALL,
    /* where asked for */ GEO_SQUARE = GEO_ALL, GEO_MAX };
extern const char* geoname[GEO_MAX];
inline int hash3(int i, int j, int k)
{
    uint64_t h = mc::mix(mc::mix(mc::mix(77, (uint64_t) (i + 1000)), (uint64_t) (j + 1000)), (uint64_t) k);
    return (int) (h >> 40) & 0xffff;
}
inline void geopos(int geo, double i, double j, double* x, double* y)
{
    int ii = (int) i, jj = (int) j;
    switch (geo) {
    default:
    case GEO_UNIT:
        *x = i;
        *y = j;
        break;
    case GEO_AFFINE:
        *x = -7.25 + 1.5 * i - 0.5 * j;
        *y = 3.5 + 0.625 * i + 1.25 * j;
        break;
    case GEO_LEFT:
        *x = 2.0 - 1.0 * i;
        *y = 0.25 + 0.75 * j;
        break;
    case GEO_CURVI:            /* unit lattice with dyadic node perturbations of up to 1/8 */
        *x = i + (hash3(ii, jj, 1) % 17 - 8) / 64.0;
        *y = j + (hash3(ii, jj, 2) % 17 - 8) / 64.0;
        break;
    case GEO_POLAR:
        *x = (10.0 + i) * cos(0.4 + 0.045 * j);
        *y = (10.0 + i) * sin(0.4 + 0.045 * j);
        break;
    case GEO_UTM:
        *x = 513252.3881 + 880.0 * i * cos(0.3) - 1010.0 * j * sin(0.3) + (hash3(ii, jj, 3) % 101 - 50);
        *y = 5186890.274 + 880.0 * i * sin(0.3) + 1010.0 * j * cos(0.3) + (hash3(ii, jj, 4) % 101 - 50);
        break;
    case GEO_SMALL:
        *x = 147.125 + 0.002 * i + 0.0001 * j + (hash3(ii, jj, 5) % 11 - 5) * 2e-5;
        *y = -43.25 - 0.0001 * i + 0.0015 * j + (hash3(ii, jj, 6) % 11 - 5) * 2e-5;
        break;
    case GEO_RECTI:{           /* rectilinear, strongly uneven spacing */
            static const double PX[3] = { 0, 4.0, 4.25 };
            double X = ii < 0 ? ii : ii / 3 * 5.25 + PX[ii % 3], Y = jj < 0 ? jj : jj / 2 * 3.5 + jj % 2 * 0.5;
            *x = X;
            *y = Y;
            break;
        }
    case GEO_TRANSP:           /* i runs along Y: left-handed, transposed */
        *x = 100.0 + 2.0 * j + 0.25 * (i * j) / 64.0;
        *y = -50.0 + 3.0 * i;
        break;
    case GEO_SHEAR:
        *x = i + 0.5 * j;
        *y = 0.875 * j;
        break;
    case GEO_DEG:              /* degrees, exact, axis-aligned, small cells */
        *x = 147.0 + i / 256.0;
        *y = -43.0 - j / 512.0;
        break;
    case GEO_FINE:             /* degrees, curvilinear, cells of about a metre; exact */
        geopos(GEO_CURVI, i, j, x, y);
        *x = 147.0 + *x / 131072.0;
        *y = -43.0 + *y / 131072.0;
        break;
    case GEO_TINY:
        geopos(GEO_CURVI, i, j, x, y);
        *x /= 16777216.0;
        *y /= 16777216.0;
        break;
    case GEO_HUGE:
        geopos(GEO_CURVI, i, j, x, y);
        *x *= 1099511627776.0;
        *y *= 1099511627776.0;
        break;
    case GEO_SQUARE:           /* (i,j) as a complex number, squared */
        *x = i * i - j * j;
        *y = 2.0 * i * j;
        break;
    }
}
inline G geogrid(int nx, int ny, int geo)
{
    G g(nx, ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double x, y;
            geopos(geo, i, j, &x, &y);
            g.set(i, j, x, y);
        }
    return g;
}
/* typical cell size of a geometry */
double geosize(int geo);

/* ---- shapes: which cells of a W x H cell array are valid ---------------- */
typedef std::vector<char> Shape;        /* W * H, row-major */
/* nodes belonging to a valid cell stay valid */
inline void applyshape(G& g, const Shape& s)
{
    int W = g.nx - 1, H = g.ny - 1;
    for (int j = 0; j <= H; ++j)
        for (int i = 0; i <= W; ++i) {
            bool v = false;
            for (int b = -1; b <= 0; ++b)
                for (int a = -1; a <= 0; ++a)
                    if (i + a >= 0 && i + a < W && j + b >= 0 && j + b < H && s[(size_t) (j + b) * W + i + a])
                        v = true;
            if (!v)
                g.kill(i, j);
        }
}
enum { SH_EMPTY, SH_SIMPLE, SH_OTHER, SH_NOTCLOSED };
/* SH_SIMPLE: the union of the valid cells is simply connected (4-connected, no
 * holes, no two parts touching at a single node); SH_NOTCLOSED: the nodes of
 * the shape make further cells valid */
int classify(int W, int H, const Shape& s);
/* all SH_SIMPLE shapes of W x H cells as bit masks (W*H <= 25) */
const std::vector<uint32_t>& simpleshapes(int W, int H);
/* all SH_SIMPLE shapes of W x H cells (W*H <= 64) that are the union of two
 * rectangles or what two rectangles leave of the full grid */
const std::vector<uint64_t>& rectshapes(int W, int H);
inline std::vector<std::pair<int, int>> rectdims(bool thorough)
{
    if (!thorough)
        return { {6, 4}, {5, 5}, {12, 2}, {2, 12} };
    return { {7, 5}, {5, 7}, {6, 6}, {16, 2}, {2, 16}, {10, 3}, {3, 10} };
}
/* the number of subsets of n elements with up to k members; the idx-th of them */
uint64_t nfew(int n, int k);
std::vector<int> few(int n, int k, uint64_t idx);
inline Shape shapeof(int W, int H, uint64_t m)
{
    Shape s((size_t) W * H);
    for (int k = 0; k < W * H; ++k)
        s[k] = (m >> k) & 1;
    return s;
}
inline std::string shstr(int W, int H, const Shape& s)
{
    std::string o;
    if (W * H > 400)
        return mc::strf("%dx%d cells", W, H);
    for (int j = 0; j < H; ++j) {
        for (int i = 0; i < W; ++i)
            o += s[(size_t) j * W + i] ? '#' : '.';
        o += j + 1 < H ? "/" : "";
    }
    return o;
}
/* larger simply connected shapes with known names */
struct Named {
    std::string name;
    int W, H;
    Shape s;
};
std::vector<Named> bigshapes(bool thorough);

/* ---- geometric oracles (long double) ------------------------------------ */
/* position of a point relative to a polygon: 1 inside, 0 outside, 2 within tol
 * of the boundary */
int pip(const vd& x, const vd& y, double px, double py, double tol);
double segdist(double ax, double ay, double bx, double by, double px, double py);
/* signed area by the shoelace formula, CCW positive */
double shoelace(const vd& x, const vd& y);
inline void bilin(const G& g, int i, int j, double u, double v, double* x, double* y)
{
    *x = (1 - u) * (1 - v) * g.X(i, j) + u * (1 - v) * g.X(i + 1, j) + (1 - u) * v * g.X(i, j + 1) + u * v * g.X(i + 1, j + 1);
    *y = (1 - u) * (1 - v) * g.Y(i, j) + u * (1 - v) * g.Y(i + 1, j) + (1 - u) * v * g.Y(i, j + 1) + u * v * g.Y(i + 1, j + 1);
}

/* ---- model of validation ------------------------------------------------ */
G validCO(const G& g);
G validDD(const G& g);

/* number formatting used for the inputs of the tools */
inline std::string num(double d)
{
    return std::isnan(d) ? std::string("NaN") : mc::strf("%.17g", d);
}
std::string gridtext(const G& g);
/* parses "## nx x ny" + lines; returns false if the text is not of that form
 * (columns: 2 = "x y", 1 = single column, stored in x and y) */
bool parsegrid(const std::string& s, G& g, int columns = 2);
std::vector<std::string> lines(const std::string& s);

/* no cell has an edge or a median of (almost) no length */
bool nicecells(const G& co);
/* compares statistics as written by gridnodes_calcstats() with those of the cells of corner nodes co */
void verifystats(mc::Ctx& c, const G& co, const std::string& err, const std::string& what);
/* what f() writes to stderr (a file in the process of a case) */
std::string errof(const std::function<void()>& f);
#endif
