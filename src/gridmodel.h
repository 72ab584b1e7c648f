/* gridmodel.h -- reference models of the operations on grid nodes */
#ifndef GRIDMODEL_H
#define GRIDMODEL_H
#include "util.h"
#include "sizes.h"

inline void kill(G& g, uint64_t nanmask)
{
    for (size_t k = 0; k < g.x.size(); ++k)
        if ((nanmask >> (k & 63)) & 1) {    /* periodic for more than 64 nodes */
            g.x[k] = NAN;
            g.y[k] = NAN;
        }
}
/* a valid Y at an invalid node is not looked at; the library itself always sets both */
inline G pattern(int nx, int ny, uint64_t nanmask, int geo)
{
    G g = geogrid(nx, ny, geo);
    kill(g, nanmask);
    return g;
}
inline bool largebad(int pat, int nx, int ny, int i, int j)
{
    size_t k = (size_t) j * nx + i;
    switch (pat) {
    case 0: return false;
    case 1: return k % 97 == 5;                                 /* single nodes */
    case 2: return i < nx - 7 && j < ny - 7;                    /* only the last rows and columns are left */
    case 3: return !(i >= nx - 5 && j >= ny - 5);               /* only the last corner is left */
    case 4: return nx > ny ? i % 251 < 3 : j % 251 < 3;         /* pieces */
    case 5: return (size_t) nx * ny > 65530 ? k < 65536 : (k * 2654435761u >> 9) % 5 == 0;      /* only what comes after 65536 nodes; scattered nodes */
    case 6: return k + 1 == (size_t) nx * ny;                   /* the last node is missing */
    default: return true;                                       /* nothing is left */
    }
}
inline G largegrid(int nx, int ny, int pat, int geo)
{
    G g = geogrid(nx, ny, geo);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i)
            if (largebad(pat, nx, ny, i, j))
                g.kill(i, j);
    return g;
}
/* ---- models ------------------------------------------------------------- */
inline G modvalid(const G& g, NODETYPE t)
{
    return t == NT_DD ? validDD(g) : t == NT_COR ? validCO(g) : g;
}
inline G modmask(const G& g0, NODETYPE t, const std::vector<int>& m)
{
    G g = g0;
    if (t == NT_CEN) {
        for (size_t k = 0; k < g.x.size(); ++k)
            if (m[k] == 0)
                g.x[k] = g.y[k] = NAN;
        return g;
    }
    int W = (g.nx - 1) / 2;
    for (int j = 1, k = 0; j < g.ny; j += 2)
        for (int i = 1; i < g.nx; i += 2, ++k)
            if (m[(size_t) (j / 2) * W + i / 2] == 0)
                g.kill(i, j);
    for (int j = 0; j < g.ny; j += 2)
        for (int i = 0; i < g.nx; i += 2)
            if (!g.ok(i - 1, j - 1) && !g.ok(i + 1, j - 1) && !g.ok(i - 1, j + 1) && !g.ok(i + 1, j + 1))
                g.kill(i, j);
    return validDD(g);
}
/* g is valid(ated) */
inline G dd2co(const G& g)
{
    G r(g.nx / 2 + 1, g.ny / 2 + 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i)
            r.set(i, j, g.X(2 * i, 2 * j), g.Y(2 * i, 2 * j));
    return r;
}
inline G dd2ce(const G& g)
{
    G r(g.nx / 2, g.ny / 2);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i)
            r.set(i, j, g.X(2 * i + 1, 2 * j + 1), g.Y(2 * i + 1, 2 * j + 1));
    return r;
}
inline void avg(const G& g, std::vector<std::pair<int, int>> n, double* x, double* y)
{
    *x = 0;
    *y = 0;
    for (auto& p : n) {
        *x += g.X(p.first, p.second) / n.size();
        *y += g.Y(p.first, p.second) / n.size();
    }
    if (std::isnan(*x))
        *y = NAN;
}
inline G co2ce(const G& g)
{
    G r(g.nx - 1, g.ny - 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            double x, y;
            avg(g, {{i, j}, {i + 1, j}, {i, j + 1}, {i + 1, j + 1}}, &x, &y);
            r.set(i, j, x, y);
        }
    return r;
}
inline G co2dd(const G& g)
{
    G r(2 * g.nx - 1, 2 * g.ny - 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            double x, y;
            int a = i / 2, b = j / 2;
            if (i % 2 == 0 && j % 2 == 0)
                avg(g, {{a, b}}, &x, &y);
            else if (j % 2 == 0)
                avg(g, {{a, b}, {a + 1, b}}, &x, &y);
            else if (i % 2 == 0)
                avg(g, {{a, b}, {a, b + 1}}, &x, &y);
            else
                avg(g, {{a, b}, {a + 1, b}, {a, b + 1}, {a + 1, b + 1}}, &x, &y);
            r.set(i, j, x, y);
        }
    return r;
}
/* centre nodes -> corner (s = 1) or double density (s = 2) nodes: the position
 * is extrapolated from any of the nearest valid 2x2 blocks, if it is closer
 * than 1.5 cells.  `got` is compared with all admissible values. */
inline void checkce(mc::Ctx& c, const G& ce, int s, const G& got, const char* what, double rtol = 1e-14)
{
    int nx = s * ce.nx + 1, ny = s * ce.ny + 1;
    c.step();
    MC_CHECK(c, got.nx == nx && got.ny == ny, "%s: the size is %d x %d, expected %d x %d", what, got.nx, got.ny, nx, ny);
    G pat(nx, ny);
    double M = 1e-300;
    for (size_t k = 0; k < ce.x.size(); ++k)
        if (!std::isnan(ce.x[k]))
            M = std::max(M, std::max(fabs(ce.x[k]), fabs(ce.y[k])));
    std::vector<std::vector<std::pair<double, double>>> cand((size_t) nx * ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double p = (double) i / s - 0.5, q = (double) j / s - 0.5, best = 1e300;
            for (int b = 0; b + 1 < ce.ny; ++b)
                for (int a = 0; a + 1 < ce.nx; ++a)
                    if (ce.cell(a, b))
                        best = std::min(best, (p - a - 0.5) * (p - a - 0.5) + (q - b - 0.5) * (q - b - 0.5));
            if (best >= 2.25) {
                pat.kill(i, j);
                continue;
            }
            for (int b = 0; b + 1 < ce.ny; ++b)
                for (int a = 0; a + 1 < ce.nx; ++a)
                    if (ce.cell(a, b) && (p - a - 0.5) * (p - a - 0.5) + (q - b - 0.5) * (q - b - 0.5) == best) {
                        double x, y;
                        bilin(ce, a, b, p - a, q - b, &x, &y);
                        cand[pat.id(i, j)].push_back({x, y});
                    }
        }
    pat = s == 1 ? validCO(pat) : validDD(pat);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            if (!pat.ok(i, j)) {
                MC_CHECK(c, std::isnan(got.X(i, j)) && std::isnan(got.Y(i, j)), "%s: node (%d,%d) = (%g,%g) should be invalid", what, i, j, got.X(i, j), got.Y(i, j));
                continue;
            }
            bool hit = false;
            for (auto& p : cand[pat.id(i, j)])
                hit |= fabs(got.X(i, j) - p.first) <= rtol * M && fabs(got.Y(i, j) - p.second) <= rtol * M;
            MC_CHECK(c, hit, "%s: node (%d,%d) = (%.15g,%.15g), expected (%.15g,%.15g)%s", what, i, j, got.X(i, j), got.Y(i, j), cand[pat.id(i, j)][0].first, cand[pat.id(i, j)][0].second, cand[pat.id(i, j)].size() > 1 ? " or another equally near block" : "");
        }
}

/* The binary map (default) is for grids whose valid cells form one piece
 * without holes; it is not used here for any other grid.  g is validated. */
inline bool bmapok(const G& g)
{
    Shape s;
    for (int j = 0; j + 1 < g.ny; ++j)
        for (int i = 0; i + 1 < g.nx; ++i)
            s.push_back(g.cell(i, j));
    int k = classify(g.nx - 1, g.ny - 1, s);
    return k == SH_SIMPLE || k == SH_EMPTY;
}

inline uint64_t ddmask(int nx, int ny, uint64_t corners, uint64_t centres, uint64_t edges)
{
    uint64_t m = 0;
    int k1 = 0, k2 = 0, k3 = 0;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            bool b;
            if (i % 2 == 0 && j % 2 == 0)
                b = (corners >> k1++) & 1;
            else if (i % 2 == 1 && j % 2 == 1)
                b = (centres >> k2++) & 1;
            else
                b = (edges >> k3++) & 1;
            if (b)
                m |= 1ULL << (j * nx + i);
        }
    return m;
}
#endif
