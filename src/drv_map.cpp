/* grid maps: physical space <-> index space, and cell averaging */
#include "util.h"
#include "sizes.h"
using namespace mc;

static const int MAPT[2] = { GRIDMAP_TYPE_BINARY, GRIDMAP_TYPE_KDTREE };
static const char* MAPN[2] = { "binary", "kd" };

/* The geometry extended by a ring of cells around the grid: the cell in which
 * a point lies is then known by construction. */
struct Ext {
    G e;                        /* (nx+2) x (ny+2) nodes, shifted by one */
    Ext(int nx, int ny, int geo) : e(nx + 2, ny + 2)
    {
        for (int j = 0; j < ny + 2; ++j)
            for (int i = 0; i < nx + 2; ++i) {
                double x, y;
                geopos(geo, i - 1, j - 1, &x, &y);
                e.set(i, j, x, y);
            }
    }
    void pos(int i, int j, double u, double v, double* x, double* y) const
    {
        if ((u == 0 || u == 1) && (v == 0 || v == 1)) {
            *x = e.X(i + 1 + (u == 1), j + 1 + (v == 1));
            *y = e.Y(i + 1 + (u == 1), j + 1 + (v == 1));
        } else
            bilin(e, i + 1, j + 1, u, v, x, y);
    }
};

static double dist2(const G& g, int i, int j, double x, double y)
{
    return (g.X(i, j) - x) * (g.X(i, j) - x) + (g.Y(i, j) - y) * (g.Y(i, j) - y);
}
/* the documented limit of the kd map: it looks at the cells around the nearest
 * valid node only */
static bool kdreach(const G& g, int ci, int cj, double x, double y)
{
    double best = 1e300;
    for (int b = 0; b <= 1; ++b)
        for (int a = 0; a <= 1; ++a)
            best = std::min(best, dist2(g, ci + a, cj + b, x, y));
    for (int j = std::max(0, cj - 4); j <= std::min(g.ny - 1, cj + 5); ++j)
        for (int i = std::max(0, ci - 4); i <= std::min(g.nx - 1, ci + 5); ++i)
            if ((i < ci || i > ci + 1 || j < cj || j > cj + 1) && g.ok(i, j) && dist2(g, i, j, x, y) <= best * (1 + 1e-9))
                return false;
    return true;
}

struct Query {
    double u, v;
};
static const double UV5[] = { 0.5, 0.0, 0.0625, 0.9375, 1.0 };

/* all cells of the grid and of a ring around it, a lattice of points in each */
static void checkmap(Ctx& c, gridmap* gm, const G& g, int geo, int type, const char* name, bool fij, int stride = 1)
{
    Ext E(g.nx, g.ny, geo);
    int W = g.nx - 1, H = g.ny - 1;
    double size = geosize(geo);
    double M = 0;
    for (size_t k = 0; k < g.x.size(); ++k)
        if (!std::isnan(g.x[k]))
            M = std::max(M, std::max(fabs(g.x[k]), fabs(g.y[k])));
    double ftol = 3e-8 + 1e-10 * M / size;
    int nu = (W * H > 3000) ? 3 : 5;
    /* are there collinear nodes in a geometry that is not represented exactly? */
    bool merged = geo == GEO_POLAR;
    if (geo == GEO_SMALL || geo == GEO_UTM)
        for (int j = 0; j < E.e.ny; ++j)
            for (int i = 0; i < E.e.nx; ++i)
                for (int k = 0; k < 2; ++k) {
                    int i1 = k ? i : i + 1, i2 = k ? i : i + 2, j1 = k ? j + 1 : j, j2 = k ? j + 2 : j;
                    if (i2 < E.e.nx && j2 < E.e.ny && fabs((E.e.X(i1, j1) - E.e.X(i, j)) * (E.e.Y(i2, j2) - E.e.Y(i, j)) - (E.e.Y(i1, j1) - E.e.Y(i, j)) * (E.e.X(i2, j2) - E.e.X(i, j))) < 2e-10)
                        merged = true;
                }

    MC_CHECK(c, gridmap_getnce1(gm) == W && gridmap_getnce2(gm) == H, "%s: dimensions of the map", name);
    for (int j = -1; j <= H; ++j)
        for (int i = -1; i <= W; ++i)
            for (int q = 0; q < nu * nu && (stride == 1 || (j * W + i) % stride == 0 || ((i < 2 || i + 2 > W) && (j < 2 || j + 2 > H))); ++q) {
                double u = UV5[q % nu], v = UV5[q / nu], x, y;
                int a, b, r;
                E.pos(i, j, u, v, &x, &y);
                r = gridmap_xy2ij(gm, x, y, &a, &b);
                c.step();
                if (r != 0)
                    MC_CHECK(c, a >= 0 && b >= 0 && a < W && b < H && g.cell(a, b), "%s, %s map: (%.12g,%.12g) mapped to cell (%d,%d), which is not a valid cell", name, MAPN[type], x, y, a, b);
                else
                    MC_CHECK(c, a == -1 && b == -1, "%s, %s map: failed query returned (%d,%d)", name, MAPN[type], a, b);
                bool eu = u == 0 || u == 1, ev = v == 0 || v == 1;
                if (!eu && !ev) {
                    bool in = g.cell(i, j);
                    if (!in)
                        MC_CHECK(c, r == 0, "%s, %s map: point (%.12g,%.12g), which is in no valid cell [it is at (%g,%g) of cell (%d,%d)], mapped to cell (%d,%d)", name, MAPN[type], x, y, u, v, i, j, a, b);
                    else if (r != 0)
                        MC_CHECK(c, a == i && b == j, "%s, %s map: point (%.12g,%.12g) of cell (%d,%d) mapped to cell (%d,%d)", name, MAPN[type], x, y, i, j, a, b);
                    else
                        MC_CHECK(c, type == 1 && !kdreach(g, i, j, x, y), "%s, %s map: point (%.12g,%.12g), at (%g,%g) of the valid cell (%d,%d), not found", name, MAPN[type], x, y, u, v, i, j);
                } else {
                    bool kdreachedge = type == 1 && ((g.cell(i, j) && kdreach(g, i, j, x, y)) || (u == 0 && g.cell(i - 1, j) && kdreach(g, i - 1, j, x, y)) || (v == 0 && g.cell(i, j - 1) && kdreach(g, i, j - 1, x, y)));
                    int i0 = u == 0 ? i - 1 : i, i1 = u == 1 ? i + 1 : i, j0 = v == 0 ? j - 1 : j, j1 = v == 1 ? j + 1 : j, any = 0, all = 1;
                    bool hit = false;
                    for (int jj = j0; jj <= j1; ++jj)
                        for (int ii = i0; ii <= i1; ++ii) {
                            if (g.cell(ii, jj)) {
                                ++any;
                                if (r != 0 && a == ii && b == jj)
                                    hit = true;
                            } else
                                all = 0;
                        }
                    /* Which side of an edge a point is on is subject to rounding, but the cells, and the polygons
                     * the binary map is made of, must agree on it: a point of the grid lands in one of the cells
                     * that share the edge.  On the outer boundary the point may be found to be outside, unless the
                     * edge is axis-parallel or the point is a node.  Exactly collinear edges that are not
                     * representable (polar, some small) are merged by the binary map and may be told apart differently. */
                    bool axis = geo == GEO_UNIT || geo == GEO_RECTI || geo == GEO_LEFT;
                    bool polar = merged && type == 0;
                    bool exact = !polar && (all || axis || (eu && ev));
                    if (r != 0) {
                        if (any == 0)
                            MC_CHECK(c, false, "%s, %s map: point (%.12g,%.12g) of no valid cell mapped to cell (%d,%d)", name, MAPN[type], x, y, a, b);
                        MC_CHECK(c, hit || polar, "%s, %s map: point (%.12g,%.12g) on the edge of cell (%d,%d) at (%g,%g) mapped to cell (%d,%d)", name, MAPN[type], x, y, i, j, u, v, a, b);
                        if (!hit)
                            continue;
                    } else if (eu && ev) {
                        if (any > 0 && exact)
                            MC_CHECK(c, false, "%s, %s map: node (%.12g,%.12g) of a valid cell not found", name, MAPN[type], x, y);
                    } else if (any > 0 && exact && (type == 0 || kdreachedge))
                        MC_CHECK(c, false, "%s, %s map: point (%.12g,%.12g) on the edge of a valid cell not found", name, MAPN[type], x, y);
                }
                if (fij) {
                    double fi, fj;
                    int r2 = gridmap_xy2fij(gm, x, y, &fi, &fj);
                    c.step();
                    MC_CHECK(c, (r2 != 0) == (r != 0), "%s, %s map: xy2ij gives %d but xy2fij gives %d at (%.12g,%.12g)", name, MAPN[type], r, r2, x, y);
                    if (r2 == 0) {
                        MC_CHECK(c, std::isnan(fi) && std::isnan(fj), "%s, %s map: failed query returned (%g,%g)", name, MAPN[type], fi, fj);
                        continue;
                    }
                    MC_CHECK(c, fabs(fi - (i + u)) <= ftol && fabs(fj - (j + v)) <= ftol, "%s, %s map: point (%.12g,%.12g) is at index (%g,%g), got (%.12g,%.12g)", name, MAPN[type], x, y, i + u, j + v, fi, fj);
                    MC_CHECK(c, (int) floor(fi) == a && (int) floor(fj) == b, "%s, %s map: integer index (%d,%d), fractional index (%.12g,%.12g)", name, MAPN[type], a, b, fi, fj);
                    double x2, y2;
                    int r3 = gridmap_fij2xy(gm, fi, fj, &x2, &y2);
                    c.step();
                    MC_CHECK(c, r3 != 0 && hypot(x2 - x, y2 - y) <= 8 * ftol * size, "%s, %s map: (%.12g,%.12g) -> (%.12g,%.12g) -> (%.12g,%.12g)", name, MAPN[type], x, y, fi, fj, x2, y2);
                }
            }
    static const double bad[][2] = { {NAN, 0}, {0, NAN}, {INFINITY, 0}, {0, -INFINITY}, {INFINITY, -INFINITY}, {1e300, 1e300} };
    for (auto& q : bad) {
        int a, b;
        double fi, fj;
        int r = gridmap_xy2ij(gm, q[0], q[1], &a, &b), r2 = gridmap_xy2fij(gm, q[0], q[1], &fi, &fj);
        c.step(2);
        MC_CHECK(c, r == 0 && a == -1 && b == -1, "%s, %s map: (%g,%g) mapped to (%d,%d)", name, MAPN[type], q[0], q[1], a, b);
        MC_CHECK(c, r2 == 0 && std::isnan(fi) && std::isnan(fj), "%s, %s map: (%g,%g) mapped to (%g,%g)", name, MAPN[type], q[0], q[1], fi, fj);
    }
}

static std::vector<std::pair<int, int>> shapedims(bool thorough)
{
    std::vector<std::pair<int, int>> v = { {1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {2, 4}, {5, 2}, {2, 5}, {6, 1}, {1, 6}, {4, 3}, {3, 4}, {4, 4} };
    if (thorough) {
        v.push_back({5, 3});
        v.push_back({3, 5});
        v.push_back({5, 4});
        v.push_back({4, 5});
        v.push_back({6, 3});
        v.push_back({3, 6});
        v.push_back({5, 5});
    }
    return v;
}
/* the two kinds of maps by themselves */
extern "C" {
#include "gridbmap.h"
#include "gridkmap.h"
}
static void rawmap(Ctx& c, const G& g, const Arr& x, const Arr& y, int type, const char* name, int stride)
{
    int W = g.nx - 1, H = g.ny - 1, any = 0;
    double ex[2] = { 1e300, -1e300 }, ey[2] = { 1e300, -1e300 };
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i)
            if (g.cell(i, j)) {
                any = 1;
                for (int k = 0; k < 4; ++k) {
                    double a = g.X(i + k % 2, j + k / 2), b = g.Y(i + k % 2, j + k / 2);
                    ex[0] = std::min(ex[0], a);
                    ex[1] = std::max(ex[1], a);
                    ey[0] = std::min(ey[0], b);
                    ey[1] = std::max(ey[1], b);
                }
            }
    void* m = type == 0 ? (void*) gridbmap_build(W, H, x.p, y.p) : (void*) gridkmap_build(W, H, x.p, y.p);
    c.step();
    if (type == 0) {
        gridbmap* b = (gridbmap*) m;
        MC_CHECK(c, gridbmap_getnce1(b) == W && gridbmap_getnce2(b) == H && gridbmap_getxnodes(b) == x.p && gridbmap_getynodes(b) == y.p, "%s: dimensions or nodes of the binary map", name);
        if (any) {
            double e[4];
            gridbmap_getextent(b, &e[0], &e[1], &e[2], &e[3]);
            MC_CHECK(c, e[0] == ex[0] && e[1] == ex[1] && e[2] == ey[0] && e[3] == ey[1], "%s: extent of the map [%.15g,%.15g]x[%.15g,%.15g], the valid cells are within [%.15g,%.15g]x[%.15g,%.15g]", name, e[0], e[1], e[2], e[3], ex[0], ex[1], ey[0], ey[1]);
        }
    } else {
        gridkmap* k = (gridkmap*) m;
        MC_CHECK(c, gridkmap_getnce1(k) == W && gridkmap_getnce2(k) == H && gridkmap_getxnodes(k) == x.p && gridkmap_getynodes(k) == y.p, "%s: dimensions or nodes of the kd-tree map", name);
    }
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i)
            if (g.cell(i, j) && (j * W + i) % stride == 0) {
                double px, py;
                bilin(g, i, j, 0.5, 0.5, &px, &py);
                int a, b, r = type == 0 ? gridbmap_xy2ij((gridbmap*) m, px, py, &a, &b) : gridkmap_xy2ij((gridkmap*) m, px, py, &a, &b);
                c.step();
                MC_CHECK(c, r ? a == i && b == j : type == 1 && !kdreach(g, i, j, px, py), "%s: the middle of cell (%d,%d) is mapped to (%d,%d)", name, i, j, a, b);
            }
    if (type == 0)
        gridbmap_destroy((gridbmap*) m);
    else
        gridkmap_destroy((gridkmap*) m);
}
static void onemap(Ctx& c, int W, int H, const Shape& s, int geo, int type, const char* name, bool fij, int stride = 1)
{
    G g = geogrid(W + 1, H + 1, geo);
    applyshape(g, s);
    Arr x(g, true), y(g, false);
    GM gm(gridmap_build(W, H, x.p, y.p, MAPT[type]));
    c.step();
    checkmap(c, gm, g, geo, type, name, fij, stride);
    if (!fij)
        rawmap(c, g, x, y, type, name, stride);
    for (int j = 0; j <= H; ++j)
        for (int i = 0; i <= W; ++i)
            MC_CHECK(c, same(x.p[j][i], g.X(i, j)) && same(y.p[j][i], g.Y(i, j)), "%s, %s map: node (%d,%d) altered", name, MAPN[type], i, j);
}
static std::vector<Named>& big(bool thorough)
{
    static std::vector<Named> v = bigshapes(thorough);
    return v;
}
static void mapfamilies(std::vector<Family>& F, bool thorough, int type, bool fij)
{
    for (auto d : shapedims(thorough)) {
        int W = d.first, H = d.second;
        const std::vector<uint32_t>& sh = simpleshapes(W, H);
        int ng = fij ? 7 : GEO_ALL;
        if (W * H > 12)
            ng = thorough ? std::min(ng, 7) : 2;
        if (W * H > 18)
            ng = 1;
        static const int order[GEO_ALL] = { GEO_CURVI, GEO_FINE, GEO_UTM, GEO_LEFT, GEO_POLAR, GEO_TINY, GEO_HUGE, GEO_UNIT, GEO_AFFINE, GEO_SMALL, GEO_RECTI, GEO_TRANSP, GEO_SHEAR, GEO_DEG };
        add(F, strf("all simply connected shapes of %dx%d cells", W, H), sh.size() * ng, [=, &sh](Ctx& c, uint64_t idx) {
            Shape s = shapeof(W, H, sh[idx / ng]);
            int geo = order[idx % ng];
            std::string n = strf("%s %s", shstr(W, H, s).c_str(), geoname[geo]);
            c.log("%s", n.c_str());
            c.state(mix(mix(W * 100 + H, sh[idx / ng]), geo));
            onemap(c, W, H, s, geo, type, n.c_str(), fij);
        });
    }
    for (auto d : rectdims(thorough)) {
        int W = d.first, H = d.second;
        const std::vector<uint64_t>& sh = rectshapes(W, H);
        add(F, strf("all simply connected unions of two rectangles of %dx%d cells, and what they leave", W, H), sh.size(), [=, &sh](Ctx& c, uint64_t idx) {
            Shape s = shapeof(W, H, sh[idx]);
            static const int geos[] = { GEO_CURVI, GEO_FINE, GEO_UTM, GEO_LEFT };
            int geo = geos[idx % 4];
            std::string n = strf("%s %s", shstr(W, H, s).c_str(), geoname[geo]);
            c.log("%s", n.c_str());
            c.state(mix(mix(W * 100 + H, sh[idx]), geo));
            onemap(c, W, H, s, geo, type, n.c_str(), fij);
        });
    }
    add(F, "large shapes", big(thorough).size() * GEO_ALL, [=](Ctx& c, uint64_t idx) {
        const Named& n = big(thorough)[idx / GEO_ALL];
        int geo = (int) (idx % GEO_ALL);
        std::string nm = n.name + " " + geoname[geo];
        if (geo == GEO_POLAR && n.H > 130)
            return;             /* would go more than once around the pole */
        c.log("%s", nm.c_str());
        c.state(mix(hashs(n.name.c_str()), geo));
        onemap(c, n.W, n.H, n.s, geo, type, nm.c_str(), fij);
    }, 1);
    /* all grid sizes up to a bound, all cells valid */
    int mx = thorough ? 18 : 10;
    add(F, strf("full grids of up to %dx%d cells", mx, mx), (uint64_t) mx * mx * 4, [=](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_UTM, GEO_TRANSP, GEO_CURVI, GEO_FINE };
        int W = 1 + (int) (idx / 4) % mx, H = 1 + (int) (idx / 4) / mx, geo = geos[idx % 4];
        Shape s((size_t) W * H, 1);
        std::string nm = strf("full %dx%d %s", W, H, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(idx);
        onemap(c, W, H, s, geo, type, nm.c_str(), fij);
    });
    /* more cells than 16 bits count, in total or along one side; every nth cell and the corners are looked at */
    static const struct { int W, H, how; } VL[] = { {300, 230, 0}, {256, 256, 0}, {65537, 1, 0}, {1, 70001, 0}, {2, 40000, 0}, {33000, 3, 0}, {257, 255, 1}, {300, 230, 2}, {40001, 5, 3}, {230, 301, 4} };
    add(F, "very large grids: every nth cell", 10 * 4, [=](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_CURVI, GEO_UNIT, GEO_UTM, GEO_LEFT };
        Dec d(idx);
        int z = d.take(10), geo = geos[d.take(4)], W = VL[z].W, H = VL[z].H, how = VL[z].how;
        Shape s((size_t) W * H);
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i)
                s[(size_t) j * W + i] = how == 0 ? 1 : how == 1 ? i < 90 || j >= 170 : how == 2 ? j < 5 || i % 12 < 6 : how == 3 ? j == 0 || i % 1000 < 500 : (j / 10) % 2 == 0 || ((j / 10) % 4 == 1 ? i >= W - 9 : i < 9);
        std::string nm = strf("very large %dx%d, shape %d, %s", W, H, how, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9000));
        onemap(c, W, H, s, geo, type, nm.c_str(), fij, thorough ? 37 : 997);
    }, 1);
    add(F, "middle-sized grids", sizes(1).size() * NMIDSHAPE, [=](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_CURVI, GEO_FINE, GEO_UTM, GEO_LEFT };
        int k = (int) idx % NMIDSHAPE, W = sizes(1)[idx / NMIDSHAPE].nx, H = sizes(1)[idx / NMIDSHAPE].ny, geo = geos[(idx / NMIDSHAPE + k) % 4];
        Shape s = midshape(W, H, k);
        if (classify(W, H, s) != SH_SIMPLE)
            return;
        std::string nm = strf("%dx%d, shape %d, %s", W, H, k, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9500));
        onemap(c, W, H, s, geo, type, nm.c_str(), fij, (W * H > 200 ? 7 : 1) * (thorough ? 1 : 5));
    }, 8);
    /* maps of grid objects; the kd map for any cells */
    add(F, "middle-sized grid objects", sizes(1).size() * NMIDSHAPE, [=](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_LEFT, GEO_CURVI };
        int k = (int) idx % NMIDSHAPE, W = sizes(1)[idx / NMIDSHAPE].nx, H = sizes(1)[idx / NMIDSHAPE].ny, geo = geos[(idx / NMIDSHAPE + k) % 2];
        Shape s = midshape(W, H, k);
        if (type == 1)
            for (int j = 1; j + 1 < H; j += 3)
                for (int i = 1; i + 1 < W; i += 3)
                    s[(size_t) j * W + i] = 0;
        else if (classify(W, H, s) != SH_SIMPLE)
            return;
        G g = geogrid(W + 1, H + 1, geo);
        applyshape(g, s);
        GN gn(mkgn(g, NT_COR));
        gridnodes_setmaptype(gn, MAPT[type]);
        gridnodes_validate(gn);
        GM gm(gridmap_build2(gn));
        c.step();
        std::string nm = strf("grid object, %dx%d, shape %d, %s", W, H, k, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9600));
        checkmap(c, gm, g, geo, type, nm.c_str(), fij, (W * H > 200 ? 11 : 1) * (thorough ? 1 : 7));
    }, 8);
    add(F, "grids without valid cells", 36, [=](Ctx& c, uint64_t idx) {
        int W = 1 + (int) idx % 6, H = 1 + (int) idx / 6;
        Shape s((size_t) W * H, 0);
        c.state(idx);
        onemap(c, W, H, s, 0, type, "empty grid", fij);
    });
}

/* ------------------------------------------------------------------ C17 */
PROPERTY(C17)
{
    mapfamilies(F, thorough, 0, false);
}

/* ------------------------------------------------------------------ C18 */
PROPERTY(C18)
{
    mapfamilies(F, thorough, 1, false);
    /* no demand on the topology: every pattern of missing nodes */
    struct { int nx, ny; } sz[] = { {2, 2}, {3, 2}, {2, 4}, {3, 3}, {4, 3}, {4, 4} };
    for (auto q : sz) {
        int nx = q.nx, ny = q.ny;
        if (nx * ny > 12 && !thorough)
            continue;
        int ng = nx * ny > 9 ? 2 : 4;
        add(F, strf("all patterns of missing nodes, %dx%d nodes", nx, ny), (1ULL << (nx * ny)) * ng, [=](Ctx& c, uint64_t idx) {
            static const int geos[] = { GEO_CURVI, GEO_UTM, GEO_RECTI, GEO_LEFT };
            int geo = geos[idx % ng];
            uint64_t m = idx / ng;
            G g = geogrid(nx, ny, geo);
            for (int k = 0; k < nx * ny; ++k)
                if (!(m >> k & 1))
                    g.kill(k % nx, k / nx);
            c.log("%s %s", vstr(g).c_str(), geoname[geo]);
            c.state(mix(mix(nx * 100 + ny, m), geo));
            Arr x(g, true), y(g, false);
            GM gm(gridmap_build(nx - 1, ny - 1, x.p, y.p, MAPT[1]));
            checkmap(c, gm, g, geo, 1, vstr(g).c_str(), false);
        });
    }
    /* every pattern of missing cells */
    for (auto d : std::vector<std::pair<int, int>>{ {3, 3}, {4, 3}, {4, 4} }) {
        int W = d.first, H = d.second;
        if (W * H > 12 && !thorough)
            continue;
        add(F, strf("all patterns of valid cells, %dx%d cells", W, H), 1ULL << (W * H), [=](Ctx& c, uint64_t idx) {
            Shape s = shapeof(W, H, (uint32_t) idx);
            int geo = idx % 2 ? GEO_CURVI : GEO_TRANSP;
            std::string n = strf("%s %s", shstr(W, H, s).c_str(), geoname[geo]);
            c.log("%s", n.c_str());
            c.state(mix(W * 100 + H, idx));
            onemap(c, W, H, s, geo, 1, n.c_str(), false);
        });
    }
}

/* ------------------------------------------------------------------ C19 */
static void checkfij(Ctx& c, gridmap* gm, const G& g, double fi, double fj, const char* name)
{
    double x = 77, y = 77;
    int W = g.nx - 1, H = g.ny - 1;
    int r = gridmap_fij2xy(gm, fi, fj, &x, &y);
    c.step();
    if (std::isnan(fi) || std::isnan(fj)) {
        MC_CHECK(c, r == 0 && std::isnan(x) && std::isnan(y), "%s: index (%g,%g) -> status %d, (%g,%g)", name, fi, fj, r, x, y);
        return;
    }
    bool out = fi < 0 || fj < 0 || fi > W || fj > H;
    MC_CHECK(c, (r != 0) == !out, "%s: index (%g,%g) of a grid of %dx%d cells -> status %d", name, fi, fj, W, H, r);
    /* trimming to the grid */
    double ci = std::min(std::max(fi, 0.0), (double) W), cj = std::min(std::max(fj, 0.0), (double) H);
    int i = std::min((int) ci, W - 1), j = std::min((int) cj, H - 1);
    double u = ci - i, v = cj - j, e1 = 0, e2 = 0, m = 0, span = 0;
    double tol;
    /* trimmed points may end up next to the edge */
    bool ambiguous = fi > W || fj > H;
    for (int b = 0; b <= 1; ++b)
        for (int a = 0; a <= 1; ++a) {
            double w = (a ? u : 1 - u) * (b ? v : 1 - v);
            if (w != 0) {
                e1 += w * g.X(i + a, j + b);
                e2 += w * g.Y(i + a, j + b);
                m = std::max(m, std::max(fabs(g.X(i + a, j + b)), fabs(g.Y(i + a, j + b))));
            }
        }
    for (int k = 0; k < 4; ++k)
        for (int q = 0; q < k; ++q) {
            double d = hypot(g.X(i + k % 2, j + k / 2) - g.X(i + q % 2, j + q / 2), g.Y(i + k % 2, j + k / 2) - g.Y(i + q % 2, j + q / 2));
            if (d > span)
                span = d;
        }
    tol = 1e-14 * m;
    if (ambiguous) {
        tol += 4e-8 * span;
        if (std::isnan(e1) || std::isnan(x)) {
            /* within 1e-8 of the edge the status of a missing neighbour shows */
            return;
        }
    }
    if ((u == 0 || u == 1) && (v == 0 || v == 1) && !ambiguous)
        tol = 1e-15 * m;
    MC_CHECK(c, close_(x, e1, tol) && close_(y, e2, tol), "%s: index (%.12g,%.12g) -> (%.15g,%.15g), expected (%.15g,%.15g)", name, fi, fj, x, y, e1, e2);
}

PROPERTY(C19)
{
    static const double fr[] = { 0, 0.5, 0.25, 0.0009765625, 0.9990234375, 1e-9, 1 - 1e-9 };
    struct { int nx, ny; } sz[] = { {2, 2}, {3, 2}, {2, 3}, {3, 3}, {5, 2}, {4, 3} };
    for (auto q : sz) {
        int nx = q.nx, ny = q.ny;
        uint64_t np = nx * ny <= 9 ? 1ULL << (nx * ny) : 1;
        if (thorough && nx * ny <= 12)
            np = 1ULL << (nx * ny);
        add(F, strf("%dx%d nodes, all patterns of missing nodes, all geometries", nx, ny), np * GEO_ALL, [=](Ctx& c, uint64_t idx) {
            int geo = (int) (idx % GEO_ALL);
            uint64_t m = idx / GEO_ALL;
            G g = geogrid(nx, ny, geo);
            for (int k = 0; k < nx * ny; ++k)
                if (m >> k & 1)
                    g.kill(k % nx, k / nx);
            std::string n = vstr(g) + " " + geoname[geo];
            c.log("%s", n.c_str());
            c.state(mix(mix(nx * 100 + ny, m), geo));
            Arr x(g, true), y(g, false);
            /* only maps whose construction is within the documented limits */
            for (int t = 0; t < 2; ++t) {
                if (t == 0) {
                    Shape s((size_t) (nx - 1) * (ny - 1));
                    for (int j = 0; j < ny - 1; ++j)
                        for (int i = 0; i < nx - 1; ++i)
                            s[(size_t) j * (nx - 1) + i] = g.cell(i, j);
                    int cl = classify(nx - 1, ny - 1, s);
                    if (cl != SH_SIMPLE && cl != SH_EMPTY)
                        continue;
                }
                GM gm(gridmap_build(nx - 1, ny - 1, x.p, y.p, MAPT[t]));
                for (int j = -1; j <= ny; ++j)
                    for (int i = -1; i <= nx; ++i)
                        for (double fa : fr)
                            for (double fb : fr)
                                checkfij(c, gm, g, i + fa, j + fb, n.c_str());
                static const double bad[] = { NAN, INFINITY, -INFINITY, -1e-300, 1e300, -1e300, 0, 1, 0.5 };
                for (double a : bad)
                    for (double b : bad)
                        checkfij(c, gm, g, a, b, n.c_str());
            }
        });
    }
    add(F, "middle-sized grids", sizes(1).size() * 2, [=](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_CURVI, GEO_UTM, GEO_FINE, GEO_LEFT };
        int t = (int) idx % 2, W = sizes(1)[idx / 2].nx, H = sizes(1)[idx / 2].ny, geo = geos[idx / 2 % 4];
        Shape s = midshape(W, H, (int) (idx / 8) % NMIDSHAPE);
        if (classify(W, H, s) != SH_SIMPLE)
            s.assign(s.size(), 1);
        G g = geogrid(W + 1, H + 1, geo);
        applyshape(g, s);
        Arr x(g, true), y(g, false);
        GM gm(gridmap_build(W, H, x.p, y.p, MAPT[t]));
        std::string nm = strf("%dx%d %s", W, H, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9500));
        for (int j = 0; j <= H; ++j)
            for (int i = 0; i <= W; ++i) {
                checkfij(c, gm, g, i, j, nm.c_str());
                checkfij(c, gm, g, i + 0.25, j + 0.75, nm.c_str());
                checkfij(c, gm, g, i + 0.25, j, nm.c_str());
                checkfij(c, gm, g, i, j + 0.75, nm.c_str());
            }
        checkfij(c, gm, g, W + 0.5, H - 0.5, nm.c_str());
        checkfij(c, gm, g, -0.5, H / 2, nm.c_str());
    }, 8);
    add(F, "large shapes", big(thorough).size() * 4, [=](Ctx& c, uint64_t idx) {
        const Named& n = big(thorough)[idx / 4];
        static const int geos[] = { GEO_CURVI, GEO_UTM, GEO_POLAR, GEO_LEFT };
        int geo = geos[idx % 4];
        G g = geogrid(n.W + 1, n.H + 1, geo);
        applyshape(g, n.s);
        Arr x(g, true), y(g, false);
        for (int t = 0; t < 2; ++t) {
            GM gm(gridmap_build(n.W, n.H, x.p, y.p, MAPT[t]));
            for (int j = 0; j <= n.H; ++j)
                for (int i = 0; i <= n.W; ++i) {
                    checkfij(c, gm, g, i, j, n.name.c_str());
                    checkfij(c, gm, g, i + 0.25, j + 0.75, n.name.c_str());
                    checkfij(c, gm, g, i + 0.25, j, n.name.c_str());
                    checkfij(c, gm, g, i, j + 0.75, n.name.c_str());
                }
        }
        c.log("%s", n.name.c_str());
        c.state(mix(hashs(n.name.c_str()), geo));
    }, 2);
}

/* ------------------------------------------------------------------ C20 */
PROPERTY(C20)
{
    mapfamilies(F, thorough, 0, true);
    /* bilinear warps: x ~ i + alpha i j, y ~ j + beta i j, scaled, shifted, rotated and mirrored */
    static const double W[] = { 0, 1e-13, 1e-10, 1e-8, 1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.3 };
    static const double S[] = { 1, 1e-3, 1e3, 1e5, 0.03125 };
    static const double O[] = { 0, 100, -7 };
    static const double A[] = { 0, 0.3, 1.5707963267948966, 2.5, 0.7853981633974483 };
    int nS = 5, nO = 3, nA = 5, n = 27;
    add(F, "bilinear warps", (uint64_t) n * n * nS * nO * nA * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ka = d.take(n), kb = d.take(n);
        double al = ka < 14 ? W[ka] : -W[ka - 13], be = kb < 14 ? W[kb] : -W[kb - 13];
        double s = S[d.take(nS)], o = O[d.take(nO)] * s, th = A[d.take(nA)];
        int mir = d.take(2), dims = d.take(2);
        int nx = dims ? 3 : 2, ny = dims ? 2 : 3;
        G g(nx, ny);
        double maxc = 0;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                double p = i + al * i * j, q = j + be * i * j;
                if (mir)
                    p = -p;
                g.set(i, j, o + s * (p * cos(th) - q * sin(th)), -o + s * (p * sin(th) + q * cos(th)));
                maxc = std::max(maxc, std::max(fabs(g.X(i, j)), fabs(g.Y(i, j))));
            }
        /* skip warps that fold the grid */
        for (int j = 0; j < ny - 1; ++j)
            for (int i = 0; i < nx - 1; ++i)
                for (int k = 0; k < 4; ++k) {
                    int pi[4] = { i, i + 1, i + 1, i }, pj[4] = { j, j, j + 1, j + 1 };
                    int k1 = (k + 1) % 4, k2 = (k + 2) % 4;
                    double cr = (g.X(pi[k1], pj[k1]) - g.X(pi[k], pj[k])) * (g.Y(pi[k2], pj[k2]) - g.Y(pi[k1], pj[k1])) - (g.Y(pi[k1], pj[k1]) - g.Y(pi[k], pj[k])) * (g.X(pi[k2], pj[k2]) - g.X(pi[k1], pj[k1]));
                    if ((mir ? -cr : cr) <= 0.1 * s * s)
                        return;
                }
        std::string n = strf("alpha=%g beta=%g scale=%g offset=%g angle=%g%s %dx%d nodes", al, be, s, o, th, mir ? " mirrored" : "", nx, ny);
        c.log("%s", n.c_str());
        c.state(idx);
        Arr x(g, true), y(g, false);
        double ftol = 3e-8 + 1e-10 * maxc / s;
        for (int t = 0; t < 2; ++t) {
            GM gm(gridmap_build(nx - 1, ny - 1, x.p, y.p, MAPT[t]));
            static const double uv[] = { 0.5, 0.001, 0.25, 0.75, 0.999 };
            for (int j = 0; j < ny - 1; ++j)
                for (int i = 0; i < nx - 1; ++i)
                    for (double u : uv)
                        for (double v : uv) {
                            double px, py, fi, fj, qx, qy;
                            bilin(g, i, j, u, v, &px, &py);
                            int r = gridmap_xy2fij(gm, px, py, &fi, &fj);
                            c.step(2);
                            if (r == 0 && t == 1 && !kdreach(g, i, j, px, py))
                                continue;
                            MC_CHECK(c, r != 0 && fabs(fi - (i + u)) <= ftol && fabs(fj - (j + v)) <= ftol, "%s, %s map: index (%g,%g), point (%.15g,%.15g): status %d, index (%.12g,%.12g)", n.c_str(), MAPN[t], i + u, j + v, px, py, r, fi, fj);
                            MC_CHECK(c, gridmap_fij2xy(gm, fi, fj, &qx, &qy) != 0 && hypot(qx - px, qy - py) <= 4 * ftol * s, "%s, %s map: (%.15g,%.15g) -> (%.12g,%.12g) -> (%.15g,%.15g)", n.c_str(), MAPN[t], px, py, fi, fj, qx, qy);
                        }
        }
    });
    /* a single cell of every convex shape with corners on a lattice */
    int L = thorough ? 6 : 5;
    uint64_t lat = (uint64_t) L * L;
    add(F, strf("all convex cells with corners on a %dx%d lattice", L, L), lat * lat * lat * lat, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int px[4], py[4], k;
        for (k = 0; k < 4; ++k) {
            int q = d.take((int) lat);
            px[k] = q % L;
            py[k] = q / L;
        }
        int s0 = 0;
        for (k = 0; k < 4; ++k) {
            int a = k, b = (k + 1) % 4, e = (k + 2) % 4;
            int cr = (px[b] - px[a]) * (py[e] - py[b]) - (py[b] - py[a]) * (px[e] - px[b]);
            if (cr == 0)
                return;
            if (k == 0)
                s0 = cr > 0 ? 1 : -1;
            else if ((cr > 0 ? 1 : -1) != s0)
                return;
        }
        G g(2, 2);
        double sc = idx % 3 == 0 ? 1 : idx % 3 == 1 ? 250.5 : 0.01, o = idx % 2 ? 40 * sc : 0;
        g.set(0, 0, o + sc * px[0], sc * py[0]);
        g.set(1, 0, o + sc * px[1], sc * py[1]);
        g.set(1, 1, o + sc * px[2], sc * py[2]);
        g.set(0, 1, o + sc * px[3], sc * py[3]);
        c.log("%s", gstr(g).c_str());
        c.state(idx);
        Arr x(g, true), y(g, false);
        for (int t = 0; t < 2; ++t) {
            GM gm(gridmap_build(1, 1, x.p, y.p, MAPT[t]));
            static const double uv[] = { 0.5, 0.03125, 0.25, 0.96875 };
            for (double u : uv)
                for (double v : uv) {
                    double qx, qy, fi, fj;
                    bilin(g, 0, 0, u, v, &qx, &qy);
                    int r = gridmap_xy2fij(gm, qx, qy, &fi, &fj);
                    c.step();
                    MC_CHECK(c, r != 0 && fabs(fi - u) <= 1e-7 && fabs(fj - v) <= 1e-7, "%s, %s map: index (%g,%g): status %d, (%.12g,%.12g)", gstr(g).c_str(), MAPN[t], u, v, r, fi, fj);
                }
        }
    });
}

/* ------------------------------------------------------------------ C21 */
struct Ans {
    int r, i, j, r2, r3;
    double fi, fj, x, y;
    bool operator ==(const Ans& o) const
    {
        return r == o.r && i == o.i && j == o.j && r2 == o.r2 && r3 == o.r3 && close_(fi, o.fi, 1e-9) && close_(fj, o.fj, 1e-9) && close_(x, o.x, 1e-9 * (1 + fabs(x))) && close_(y, o.y, 1e-9 * (1 + fabs(y)));
    }
};
static Ans ask(gridmap* gm, double x, double y, int kinds)
{
    Ans a = { 0, 0, 0, 0, 0, 0, 0, 0, 0 };
    if (kinds & 1)
        a.r = gridmap_xy2ij(gm, x, y, &a.i, &a.j);
    if (kinds & 2)
        a.r2 = gridmap_xy2fij(gm, x, y, &a.fi, &a.fj);
    if (kinds & 4)
        a.r3 = gridmap_fij2xy(gm, x, y, &a.x, &a.y);
    return a;
}
struct Scene {
    std::string name;
    G g;
    vd qx, qy;
    std::vector<int> kind;
    std::vector<Ans> fresh[2];
};
/* a scene: a grid, an alphabet of queries, and the answer of a fresh map to each */
static std::vector<Scene>& scenes()
{
    static std::vector<Scene> S;
    if (!S.empty())
        return S;
    auto addscene = [&](const std::string& name, const G& g) {
        Scene s;
        s.name = name;
        s.g = g;
        auto q = [&](double x, double y, int k) {
            s.qx.push_back(x);
            s.qy.push_back(y);
            s.kind.push_back(k);
        };
        double x, y;
        int W = g.nx - 1, H = g.ny - 1, n = 0;
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i)
                if (g.cell(i, j) && n < 4 && (i + j * W) % std::max(1, W * H / 4) == 0) {
                    bilin(g, i, j, n % 2 ? 0.25 : 0.875, n % 3 ? 0.0625 : 0.625, &x, &y);
                    q(x, y, n == 0 ? 3 : 2);
                    ++n;
                }
        for (int j = H - 1; j >= 0; --j)
            for (int i = W - 1; i >= 0; --i)
                if (g.cell(i, j)) {
                    bilin(g, i, j, 0.5, 0.5, &x, &y);
                    q(x, y, 3);
                    bilin(g, i, j, 0.984375, 0.015625, &x, &y);
                    q(x, y, 2);
                    q(g.X(i, j), g.Y(i, j), 3);
                    i = j = -1;
                }
        q(1e9, -1e9, 3);
        q(NAN, 0, 7);
        q(W * 0.4, H * 0.7, 4);
        q(W + 3, -2, 4);
        S.push_back(s);
    };
    for (int geo : { GEO_CURVI, GEO_UTM, GEO_LEFT, GEO_TRANSP, GEO_POLAR })
        addscene(strf("4x3 cells %s", geoname[geo]), geogrid(5, 4, geo));
    {
        /* some cells are parallelograms (linear inverse), others are not */
        for (int mir = 0; mir < 2; ++mir)
            for (int k = 0; k < 6; ++k) {
                G g = geogrid(4, 3, GEO_UNIT);
                static const int ni[6] = { 1, 2, 3, 0, 3, 1 }, nj[6] = { 1, 1, 2, 0, 0, 0 };
                g.set(ni[k], nj[k], g.X(ni[k], nj[k]) + (k % 2 ? 0.2 : -0.15), g.Y(ni[k], nj[k]) + 0.1);
                if (mir)
                    for (auto& a : g.x)
                        a = -a;
                addscene(strf("3x2 unit cells, node (%d,%d) displaced%s", ni[k], nj[k], mir ? ", mirrored" : ""), g);
            }
    }
    {
        G g = geogrid(6, 6, GEO_CURVI);
        Shape s(25);
        for (int k = 0; k < 25; ++k)
            s[k] = k % 5 < 2 || k / 5 < 2;
        applyshape(g, s);
        addscene("L of 5x5 cells curvi", g);
    }
    for (auto& s : S)
        for (int t = 0; t < 2; ++t)
            for (size_t k = 0; k < s.qx.size(); ++k) {
                Arr x(s.g, true), y(s.g, false);
                GM gm(gridmap_build(s.g.nx - 1, s.g.ny - 1, x.p, y.p, MAPT[t]));
                s.fresh[t].push_back(ask(gm, s.qx[k], s.qy[k], s.kind[k]));
            }
    return S;
}

/* freed memory may be used again at once (as with the usual allocators) */
extern "C" void __sanitizer_purge_allocator();

PROPERTY(C21)
{
    int depth = thorough ? 4 : 3;
    std::vector<Scene>& S = scenes();
    for (size_t k = 0; k < S.size(); ++k) {
        uint64_t nq = S[k].qx.size(), n = 2;
        for (int t = 0; t < depth; ++t)
            n *= nq;
        add(F, strf("all query sequences of length %d: %s", depth, S[k].name.c_str()), n, [=](Ctx& c, uint64_t idx) {
            Scene& s = scenes()[k];
            Dec d(idx);
            int t = d.take(2);
            Arr x(s.g, true), y(s.g, false);
            GM gm(gridmap_build(s.g.nx - 1, s.g.ny - 1, x.p, y.p, MAPT[t]));
            uint64_t h = mix(k, t);
            for (int z = 0; z < depth; ++z) {
                int q = d.take((int) s.qx.size());
                Ans a = ask(gm, s.qx[q], s.qy[q], s.kind[q]);
                c.step();
                c.log("%s map, query %d: (%.12g,%.12g)", MAPN[t], z, s.qx[q], s.qy[q]);
                MC_CHECK(c, a == s.fresh[t][q], "%s, %s map: query (%.12g,%.12g) after %d other queries: %d (%d,%d) %d (%.12g,%.12g) %d (%.12g,%.12g); a fresh map gives %d (%d,%d) %d (%.12g,%.12g) %d (%.12g,%.12g)", s.name.c_str(), MAPN[t], s.qx[q], s.qy[q], z, a.r, a.i, a.j, a.r2, a.fi, a.fj, a.r3, a.x, a.y, s.fresh[t][q].r, s.fresh[t][q].i, s.fresh[t][q].j, s.fresh[t][q].r2, s.fresh[t][q].fi, s.fresh[t][q].fj, s.fresh[t][q].r3, s.fresh[t][q].x, s.fresh[t][q].y);
                h = mix(h, q);
                c.state(h);
            }
            for (int j = 0; j < s.g.ny; ++j)
                for (int i = 0; i < s.g.nx; ++i)
                    MC_CHECK(c, same(x.p[j][i], s.g.X(i, j)) && same(y.p[j][i], s.g.Y(i, j)), "%s, %s map: node (%d,%d) altered", s.name.c_str(), MAPN[t], i, j);
        });
    }
    /* two maps alive at the same time, queries interleaved, maps destroyed and rebuilt in between */
    int d2 = thorough ? 6 : 4;
    uint64_t n2 = 1;
    for (int z = 0; z < d2; ++z)
        n2 *= 8;
    static const int pairs[][2] = { {0, 2}, {1, 2}, {2, 3}, {3, 4}, {5, 11}, {0, 16}, {17, 2}, {6, 12}, {7, 13} };
    for (auto& pr : pairs)
        add(F, strf("interleavings of two maps: %s / %s", S[pr[0]].name.c_str(), S[pr[1]].name.c_str()), n2 * 4, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int ty[2] = { d.take(2), d.take(2) };
            bool op_purge = idx % 3 == 0;
            Scene* s[2] = { &scenes()[pr[0]], &scenes()[pr[1]] };
            gridmap* gm[2];
            Arr x0(s[0]->g, true), y0(s[0]->g, false), x1(s[1]->g, true), y1(s[1]->g, false);
            Arr* x[2] = { &x0, &x1 };
            Arr* y[2] = { &y0, &y1 };
            auto build = [&](int w) {
                gm[w] = gridmap_build(s[w]->g.nx - 1, s[w]->g.ny - 1, x[w]->p, y[w]->p, MAPT[ty[w]]);
            };
            build(0);
            build(1);
            uint64_t h = mix(mix(pr[0], pr[1]), ty[0] * 2 + ty[1]);
            for (int z = 0; z < d2; ++z) {
                int op = d.take(8), w = op & 1;
                static const int qs[3] = { 0, 3, 5 };
                c.step();
                h = mix(h, op);
                c.state(h);
                if (op >= 6) {
                    gridmap_destroy(gm[w]);
                    if (op_purge)
                        __sanitizer_purge_allocator();
                    build(w);
                    c.log("rebuild map %d", w);
                    continue;
                }
                int q = qs[op / 2] % (int) s[w]->qx.size();
                Ans a = ask(gm[w], s[w]->qx[q], s[w]->qy[q], s[w]->kind[q]);
                c.log("map %d, query (%.12g,%.12g)", w, s[w]->qx[q], s[w]->qy[q]);
                MC_CHECK(c, a == s[w]->fresh[ty[w]][q], "map %d (%s, %s): query (%.12g,%.12g) gives %d (%d,%d) %d (%.12g,%.12g), a single fresh map gives %d (%d,%d) %d (%.12g,%.12g)", w, s[w]->name.c_str(), MAPN[ty[w]], s[w]->qx[q], s[w]->qy[q], a.r, a.i, a.j, a.r2, a.fi, a.fj, s[w]->fresh[ty[w]][q].r, s[w]->fresh[ty[w]][q].i, s[w]->fresh[ty[w]][q].j, s[w]->fresh[ty[w]][q].r2, s[w]->fresh[ty[w]][q].fi, s[w]->fresh[ty[w]][q].fj);
            }
            gridmap_destroy(gm[0]);
            gridmap_destroy(gm[1]);
        });
    /* a map takes the place of another one, and is asked about the same points */
    size_t ns = S.size();
    add(F, "a map in the place of another one: all pairs of scenes", ns * ns * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ta = d.take(2), tb = d.take(2), a = d.take((int) ns), b = d.take((int) ns);
        Scene& A = scenes()[a];
        Scene& B = scenes()[b];
        int reused = 0;
        for (size_t q = 0; q < B.qx.size(); ++q)
            {
                void* old;
                {
                    Arr x(A.g, true), y(A.g, false);
                    GM gm(gridmap_build(A.g.nx - 1, A.g.ny - 1, x.p, y.p, MAPT[ta]));
                    old = (gridmap*) gm;
                    ask(gm, B.qx[q], B.qy[q], B.kind[q]);
                }
                __sanitizer_purge_allocator();
                Arr x(B.g, true), y(B.g, false);
                GM gm(gridmap_build(B.g.nx - 1, B.g.ny - 1, x.p, y.p, MAPT[tb]));
                reused += old == (gridmap*) gm;
                for (int again = 0; again < 2; ++again) {
                    Ans r = ask(gm, B.qx[q], B.qy[q], B.kind[q]);
                    const Ans& e = B.fresh[tb][q];
                    c.step();
                    c.log("query (%.12g,%.12g) of a %s map of \"%s\" that replaces a %s map of \"%s\"", B.qx[q], B.qy[q], MAPN[tb], B.name.c_str(), MAPN[ta], A.name.c_str());
                    MC_CHECK(c, r == e, "%s, %s map that replaces a %s map of \"%s\": query (%.12g,%.12g): %d (%d,%d) %d (%.12g,%.12g) %d (%.12g,%.12g); a fresh map gives %d (%d,%d) %d (%.12g,%.12g) %d (%.12g,%.12g)", B.name.c_str(), MAPN[tb], MAPN[ta], A.name.c_str(), B.qx[q], B.qy[q], r.r, r.i, r.j, r.r2, r.fi, r.fj, r.r3, r.x, r.y, e.r, e.i, e.j, e.r2, e.fi, e.fj, e.r3, e.x, e.y);
                }
            }
        c.log("address reused %d times", reused);
        c.state(mix(idx, 77));
    });
    /* maps built from a gridnodes object follow its map type and dimensions */
    add(F, "maps built from grid objects", GEO_N * 2 * 3, [=](Ctx& c, uint64_t idx) {
        int geo = (int) (idx % GEO_N), t = (int) (idx / GEO_N) % 2, k = (int) (idx / GEO_N) / 2;
        int W = k == 0 ? 4 : k == 1 ? 2 : 7, H = k == 0 ? 3 : k == 1 ? 9 : 1;
        G g = geogrid(W + 1, H + 1, geo);
        GN gn(mkgn(g, NT_COR));
        gridnodes_setmaptype(gn, MAPT[t]);
        gridnodes_validate(gn);
        GM gm(gridmap_build2(gn));
        c.state(idx);
        c.log("%dx%d cells %s, %s map", W, H, geoname[geo], MAPN[t]);
        checkmap(c, gm, g, geo, t, "map of a grid object", true);
        MC_CHECK(c, sameg(getg(gn), g), "nodes altered");
    });
}

/* ------------------------------------------------------------------ C25 */
PROPERTY(C25)
{
    /* an alphabet of data points; every sequence of them; every cell is asked after each batch */
    int depth = thorough ? 5 : 4;
    uint64_t n = 1;
    for (int k = 0; k < depth; ++k)
        n *= 9;
    struct V { int geo, type, shape; };
    std::vector<V> vars;
    for (int geo : { GEO_CURVI, GEO_UTM, GEO_LEFT, GEO_FINE })
        for (int t = 0; t < 2; ++t)
            for (int s = 0; s < 2; ++s)
                vars.push_back({geo, t, s});
    for (auto v : vars)
        add(F, strf("all sequences of %d data points, %s %s map%s", depth, geoname[v.geo], MAPN[v.type], v.shape ? ", one cell missing" : ""), n * 2, [=](Ctx& c, uint64_t idx) {
            const int W = 3, H = 2;
            G g0 = geogrid(W + 1, H + 1, v.geo), g = g0;
            Shape s(W * H, 1);
            if (v.shape)
                s[2] = 0;
            applyshape(g, s);
            Arr x(g, true), y(g, false);
            GM gm(gridmap_build(W, H, x.p, y.p, MAPT[v.type]));
            gridaverager* ga = ga_create(gm);
            Dec d(idx);
            int batch = d.take(2);
            double sum[H][W] = { {0} };
            int cnt[H][W] = { {0} };
            std::vector<point> pend;
            uint64_t h = mix(v.geo * 4 + v.type * 2 + v.shape, batch);
            auto flush = [&]() {
                ga_addpoints(ga, (int) pend.size(), pend.data());
                pend.clear();
                c.step();
                for (int j = -1; j <= H; ++j)
                    for (int i = -1; i <= W; ++i) {
                        point p;
                        double e = NAN;
                        if (i >= 0 && j >= 0 && i < W && j < H) {
                            bilin(g0, i, j, 0.375, 0.625, &p.x, &p.y);
                            if (g.cell(i, j) && cnt[j][i] > 0)
                                e = sum[j][i] / cnt[j][i];
                        } else {
                            p.x = g0.X(0, 0) + (i - 1) * 1e6;
                            p.y = g0.Y(0, 0) + (j - 1) * 1e6;
                        }
                        p.z = 123.0;
                        ga_getvalue(ga, &p);
                        c.step();
                        MC_CHECK(c, close_(p.z, e, 1e-11), "average in cell (%d,%d): %g, expected %g", i, j, p.z, e);
                    }
            };
            for (int k = 0; k < depth; ++k) {
                int q = d.take(9);
                point p;
                if (q < 6) {
                    int i = q % 3, j = q / 3;
                    bilin(g0, i, j, 0.25 + 0.125 * k, 0.75 - 0.125 * k, &p.x, &p.y);
                    p.z = (k + 1) * 0.5 + 16 * q - 30;
                    if (g.cell(i, j)) {
                        sum[j][i] += p.z;
                        ++cnt[j][i];
                    }
                } else if (q == 6) {
                    p.x = g0.X(0, 0) - 1e5;
                    p.y = g0.Y(0, 0);
                    p.z = 1e6;
                } else if (q == 7) {
                    p.x = NAN;
                    p.y = 0;
                    p.z = 5;
                } else {
                    bilin(g0, 0, 0, 0.5, 0.5, &p.x, &p.y);
                    p.z = 0;
                    sum[0][0] += 0;
                    ++cnt[0][0];
                }
                c.log("add (%.12g,%.12g,%g)", p.x, p.y, p.z);
                pend.push_back(p);
                h = mix(h, q);
                c.state(h);
                if (!batch)
                    flush();
            }
            flush();
            flush();
            ga_destroy(ga);
        });
    /* many data in one cell, in batches of all sizes around powers of two */
    static const int NB[] = { 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 200001 };
    add(F, "many data in one cell", 620 * 2 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kn = d.take(620), n = kn < 20 ? NB[kn] : kn - 19, t = d.take(2), how = d.take(3);
        G g = geogrid(3, 3, GEO_UNIT);
        Arr x(g, true), y(g, false);
        GM gm(gridmap_build(2, 2, x.p, y.p, MAPT[t]));
        gridaverager* ga = ga_create(gm);
        std::vector<point> ps;
        double sum = 0;
        int cnt = 0;
        for (int k = 0; k < n; ++k) {
            point p;
            bool other = how == 2 && k % 64 == 63;      /* some of them outside */
            p.x = other ? 50 : 1.25 + (k % 5) / 8.0;
            p.y = other ? -50 : 0.125 + (k % 7) / 10.0;
            p.z = k % 1000 - 250;
            if (!other) {
                sum += p.z;
                ++cnt;
            }
            ps.push_back(p);
        }
        if (how == 0)
            ga_addpoints(ga, n, ps.data());
        else
            for (int k = 0, step = n < 777 ? 61 : 777; k < n; k += step)
                ga_addpoints(ga, std::min(step, n - k), ps.data() + k);
        for (int cell = 0; cell < 4; ++cell) {
            point p;
            p.x = cell % 2 + 0.5;
            p.y = cell / 2 + 0.5;
            p.z = 1;
            ga_getvalue(ga, &p);
            c.step();
            MC_CHECK(c, close_(p.z, cell == 1 ? sum / cnt : NAN, 1e-6), "%d data in cell (1,0): average in cell (%d,%d): %.17g, expected %.17g", n, cell % 2, cell / 2, p.z, cell == 1 ? sum / cnt : NAN);
        }
        c.state(mix(idx, 99));
        ga_destroy(ga);
    }, 4);
    /* a datum that is not a number, or not finite, counts in its cell and in no other */
    add(F, "all sequences of 4 data, not finite ones among them", 2 * 2 * 12 * 12 * 12 * 12, [](Ctx& c, uint64_t idx) {
        static const double Z[6] = { 1, NAN, INFINITY, -INFINITY, -2, 0 };
        Dec d(idx);
        int t = d.take(2), one = d.take(2);
        G g = geogrid(3, 2, GEO_AFFINE);
        Arr x(g, true), y(g, false);
        GM gm(gridmap_build(2, 1, x.p, y.p, MAPT[t]));
        gridaverager* ga = ga_create(gm);
        double sum[2] = { 0, 0 };
        int n[2] = { 0, 0 };
        std::vector<point> ps;
        for (int k = 0; k < 4; ++k) {
            int q = d.take(12), cell = q / 6;
            point p;
            bilin(g, cell, 0, 0.25 + k * 0.125, 0.5, &p.x, &p.y);
            p.z = Z[q % 6];
            sum[cell] += p.z;
            ++n[cell];
            ps.push_back(p);
        }
        if (one)
            for (auto& p : ps)
                ga_addpoints(ga, 1, &p);
        else
            ga_addpoints(ga, 4, ps.data());
        for (int cell = 0; cell < 2; ++cell) {
            point p;
            bilin(g, cell, 0, 0.625, 0.25, &p.x, &p.y);
            p.z = 1;
            ga_getvalue(ga, &p);
            c.step();
            double e = n[cell] ? sum[cell] / n[cell] : NAN;
            MC_CHECK(c, (std::isnan(e) && std::isnan(p.z)) || e == p.z || fabs(e - p.z) <= 1e-13, "data %g %g %g %g: average in cell %d: %g, expected %g", ps[0].z, ps[1].z, ps[2].z, ps[3].z, cell, p.z, e);
        }
        c.state(mix(idx, 98));
        ga_destroy(ga);
    });
    /* data that need the full precision of a double */
    static const double PV[] = { 16777217.0, 16777219.0, 100000.125, -100000.0625, 1.0 / 3, -2.0 / 7, 1e15 + 1, 123456789.123456789, 1e-30, -1e30, 1e300, 0.1 };
    enum { NPV = 12 };
    add(F, "all sequences of 3 data of full precision, repeated", 2 * 2 * NPV * NPV * NPV * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2), one = d.take(2), v[3] = { d.take(NPV), d.take(NPV), d.take(NPV) }, rep = d.take(3);
        G g = geogrid(3, 3, GEO_UNIT);
        Arr x(g, true), y(g, false);
        GM gm(gridmap_build(2, 2, x.p, y.p, MAPT[t]));
        gridaverager* ga = ga_create(gm);
        std::vector<point> ps;
        long double sum = 0, mag = 0;
        for (int k = 0; k < 3; ++k)
            for (int r = 0; r < 1 + 4 * rep; ++r) {
                point p;
                p.x = 1.25;
                p.y = 0.5;
                p.z = PV[v[k]];
                sum += p.z;
                mag += fabsl(p.z);
                ps.push_back(p);
            }
        if (one)
            for (auto& p : ps)
                ga_addpoints(ga, 1, &p);
        else
            ga_addpoints(ga, (int) ps.size(), ps.data());
        point p;
        p.x = 1.75;
        p.y = 0.25;
        p.z = -9;
        ga_getvalue(ga, &p);
        c.step();
        MC_CHECK(c, fabsl(p.z - sum / ps.size()) <= 1e-14L * mag, "%zu data %.17g, %.17g, %.17g (each %d times) in a cell: average %.17g, expected %.17Lg", ps.size(), PV[v[0]], PV[v[1]], PV[v[2]], 1 + 4 * rep, p.z, sum / ps.size());
        c.state(mix(idx, 777));
        ga_destroy(ga);
    });
    add(F, "dense data on all grid sizes", 8 * 8 * 2 + sizes(1).size() * 2, [](Ctx& c, uint64_t idx) {
        int k = (int) idx / 2, W = k < 64 ? 1 + k % 8 : sizes(1)[k - 64].nx, H = k < 64 ? 1 + k / 8 : sizes(1)[k - 64].ny, t = (int) idx % 2;
        G g = geogrid(W + 1, H + 1, GEO_UTM);
        Arr x(g, true), y(g, false);
        GM gm(gridmap_build(W, H, x.p, y.p, MAPT[t]));
        gridaverager* ga = ga_create(gm);
        std::vector<point> ps;
        for (int r = 0; r < 5; ++r)
            for (int j = 0; j < H; ++j)
                for (int i = 0; i < W; ++i) {
                    if ((i * 3 + j * 5 + r) % 4 == 0 && r > (i + j) % 3)
                        continue;
                    point p;
                    bilin(g, i, j, (r + 1) / 8.0, (r + 2) / 8.0, &p.x, &p.y);
                    p.z = i * 100 + j * 1000 + r * 0.5;
                    ps.push_back(p);
                }
        ga_addpoints(ga, (int) ps.size(), ps.data());
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i) {
                double s = 0;
                int n = 0;
                for (int r = 0; r < 5; ++r)
                    if (!((i * 3 + j * 5 + r) % 4 == 0 && r > (i + j) % 3)) {
                        s += i * 100 + j * 1000 + r * 0.5;
                        ++n;
                    }
                point p;
                bilin(g, i, j, 0.9, 0.1, &p.x, &p.y);
                p.z = 1;
                ga_getvalue(ga, &p);
                c.step();
                MC_CHECK(c, close_(p.z, s / n, 1e-9), "%dx%d cells: average in cell (%d,%d): %g, expected %g", W, H, i, j, p.z, s / n);
            }
        c.state(idx);
        ga_destroy(ga);
    });
}
