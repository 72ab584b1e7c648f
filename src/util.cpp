#include <algorithm>
#include "util.h"

const char* geoname[GEO_MAX] = { "unit", "affine", "left", "curvi", "polar", "utm", "small", "recti", "transp", "shear", "deg", "fine", "tiny", "huge", "square" };

double geosize(int geo)
{
    switch (geo) {
    case GEO_UTM:
        return 900;
    case GEO_SMALL:
    case GEO_DEG:
        return 0.0015;
    case GEO_RECTI:
        return 0.25;
    case GEO_FINE:
        return 0.7 / 131072.0;
    case GEO_TINY:
        return 0.7 / 16777216.0;
    case GEO_HUGE:
        return 0.7 * 1099511627776.0;
    default:
        return 0.7;
    }
}

int classify(int W, int H, const Shape& s)
{
    auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < W && j < H && s[(size_t) j * W + i]; };
    int n = 0;
    for (char c : s)
        n += c != 0;
    if (n == 0)
        return SH_EMPTY;
    /* closure: a cell whose four nodes belong to valid cells is valid */
    auto node = [&](int i, int j) { return at(i, j) || at(i - 1, j) || at(i, j - 1) || at(i - 1, j - 1); };
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i)
            if (!at(i, j) && node(i, j) && node(i + 1, j) && node(i, j + 1) && node(i + 1, j + 1))
                return SH_NOTCLOSED;
    /* pinch */
    for (int j = 0; j <= H; ++j)
        for (int i = 0; i <= W; ++i) {
            bool a = at(i - 1, j - 1), b = at(i, j - 1), c = at(i - 1, j), d = at(i, j);
            if ((a && d && !b && !c) || (b && c && !a && !d))
                return SH_OTHER;
        }
    /* connectivity */
    std::vector<char> seen((size_t) W * H, 0);
    std::vector<int> st;
    for (int k = 0; k < W * H && st.empty(); ++k)
        if (s[k]) {
            st.push_back(k);
            seen[k] = 1;
        }
    int cnt = 0;
    while (!st.empty()) {
        int k = st.back();
        st.pop_back();
        ++cnt;
        int i = k % W, j = k / W;
        const int di[] = { 1, -1, 0, 0 }, dj[] = { 0, 0, 1, -1 };
        for (int q = 0; q < 4; ++q)
            if (at(i + di[q], j + dj[q])) {
                int kk = (j + dj[q]) * W + i + di[q];
                if (!seen[kk]) {
                    seen[kk] = 1;
                    st.push_back(kk);
                }
            }
    }
    if (cnt != n)
        return SH_OTHER;
    /* holes: 4-connected complement (no pinches, so 4 and 8 agree) must reach the outside */
    std::vector<char> out((size_t) (W + 2) * (H + 2), 0);
    st.assign(1, 0);
    out[0] = 1;
    int oc = 0;
    while (!st.empty()) {
        int k = st.back();
        st.pop_back();
        ++oc;
        int i = k % (W + 2), j = k / (W + 2);
        const int di[] = { 1, -1, 0, 0 }, dj[] = { 0, 0, 1, -1 };
        for (int q = 0; q < 4; ++q) {
            int a = i + di[q], b = j + dj[q];
            if (a < 0 || b < 0 || a >= W + 2 || b >= H + 2)
                continue;
            int kk = b * (W + 2) + a;
            if (!out[kk] && !at(a - 1, b - 1)) {
                out[kk] = 1;
                st.push_back(kk);
            }
        }
    }
    if (oc + n != (W + 2) * (H + 2))
        return SH_OTHER;
    return SH_SIMPLE;
}

const std::vector<uint32_t>& simpleshapes(int W, int H)
{
    static std::map<std::pair<int, int>, std::vector<uint32_t>> cache;
    auto key = std::make_pair(W, H);
    auto it = cache.find(key);
    if (it != cache.end())
        return it->second;
    std::vector<uint32_t>& v = cache[key];
    for (uint32_t m = 1; m < (1u << (W * H)); ++m)
        if (classify(W, H, shapeof(W, H, m)) == SH_SIMPLE)
            v.push_back(m);
    return v;
}

const std::vector<uint64_t>& rectshapes(int W, int H)
{
    static std::map<std::pair<int, int>, std::vector<uint64_t>> cache;
    auto key = std::make_pair(W, H);
    auto it = cache.find(key);
    if (it != cache.end())
        return it->second;
    std::vector<uint64_t>& v = cache[key];
    std::vector<uint64_t> r(1, 0);
    uint64_t full = W * H == 64 ? ~0ULL : (1ULL << (W * H)) - 1;
    for (int j1 = 0; j1 < H; ++j1)
        for (int j2 = j1; j2 < H; ++j2)
            for (int i1 = 0; i1 < W; ++i1)
                for (int i2 = i1; i2 < W; ++i2) {
                    uint64_t m = 0;
                    for (int j = j1; j <= j2; ++j)
                        for (int i = i1; i <= i2; ++i)
                            m |= 1ULL << (j * W + i);
                    r.push_back(m);
                }
    std::vector<uint64_t> a;
    for (size_t p = 0; p < r.size(); ++p)
        for (size_t q = p; q < r.size(); ++q) {
            a.push_back(r[p] | r[q]);
            a.push_back(full & ~(r[p] | r[q]));
        }
    std::sort(a.begin(), a.end());
    a.erase(std::unique(a.begin(), a.end()), a.end());
    for (uint64_t m : a)
        if (m != 0 && classify(W, H, shapeof(W, H, m)) == SH_SIMPLE)
            v.push_back(m);
    return v;
}

static uint64_t choose(int n, int k)
{
    uint64_t c = 1;
    for (int i = 0; i < k; ++i)
        c = c * (uint64_t) (n - i) / (uint64_t) (i + 1);
    return k > n ? 0 : c;
}
uint64_t nfew(int n, int k)
{
    uint64_t s = 0;
    for (int i = 0; i <= k; ++i)
        s += choose(n, i);
    return s;
}
std::vector<int> few(int n, int k, uint64_t idx)
{
    int m = 0;
    while (m < k && idx >= choose(n, m))
        idx -= choose(n, m++);
    std::vector<int> v;
    for (int e = 0; m > 0; ++e) {
        uint64_t c = choose(n - e - 1, m - 1);
        if (idx < c) {
            v.push_back(e);
            --m;
        } else
            idx -= c;
    }
    return v;
}

std::vector<Named> bigshapes(bool thorough)
{
    std::vector<Named> v;
    auto add = [&](const char* name, int W, int H, std::function<bool(int, int)> f) {
        Named n{name, W, H, Shape((size_t) W * H)};
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i)
                n.s[(size_t) j * W + i] = f(i, j);
        if (classify(W, H, n.s) != SH_SIMPLE) {
            fprintf(stderr, "bad shape %s\n", name);
            abort();
        }
        v.push_back(n);
    };
    auto full = [](int, int) { return true; };
    add("full 1x1", 1, 1, full);
    add("full 2x1", 2, 1, full);
    add("full 1x2", 1, 2, full);
    add("full 40x1", 40, 1, full);
    add("full 1x40", 1, 40, full);
    add("full 20x13", 20, 13, full);
    add("full 13x20", 13, 20, full);
    add("full 31x2", 31, 2, full);
    add("full 3x33", 3, 33, full);
    add("full 33x31", 33, 31, full);
    add("L 12x12", 12, 12, [](int i, int j) { return i < 3 || j < 3; });
    add("L-rev 12x9", 12, 9, [](int i, int j) { return i >= 9 || j >= 6; });
    add("U 11x10", 11, 10, [](int i, int j) { return i < 3 || i >= 8 || j >= 7; });
    add("cap 11x10", 11, 10, [](int i, int j) { return i < 3 || i >= 8 || j < 3; });
    add("C 10x11", 10, 11, [](int i, int j) { return j < 3 || j >= 8 || i < 2; });
    add("T 11x9", 11, 9, [](int i, int j) { return j < 2 || (i >= 4 && i < 7); });
    add("plus 9x9", 9, 9, [](int i, int j) { return (i >= 3 && i < 6) || (j >= 3 && j < 6); });
    add("Z 12x9", 12, 9, [](int i, int j) { return (j < 3 && i < 8) || (j >= 3 && j < 6 && i >= 5 && i < 8) || (j >= 6 && i >= 5); });
    add("H 11x9", 11, 9, [](int i, int j) { return i < 3 || i >= 8 || (j >= 3 && j < 6); });
    add("comb 17x7", 17, 7, [](int i, int j) { return j < 2 || i % 3 == 0; });
    add("comb-down 17x7", 17, 7, [](int i, int j) { return j >= 5 || i % 3 == 1; });
    add("comb-right 7x17", 7, 17, [](int i, int j) { return i < 2 || j % 4 == 2; });
    add("stairs 10x10", 10, 10, [](int i, int j) { return i >= j; });
    add("anti-stairs 10x10", 10, 10, [](int i, int j) { return i + j >= 9; });
    add("notch 16x16", 16, 16, [](int i, int j) { return !(i >= 7 && i < 9 && j < 10); });
    add("offset block 14x12", 14, 12, [](int i, int j) { return i >= 5 && i < 11 && j >= 4 && j < 9; });
    add("last corner 15x14", 15, 14, [](int i, int j) { return i == 14 && j == 13; });
    add("serpent 13x11", 13, 11, [](int i, int j) { return j % 3 == 0 ? true : j % 3 == 1 && j < 10 && ((j / 3) % 2 == 0 ? i == 12 : i == 0) ? true : j % 3 == 2 && j < 10 && ((j / 3) % 2 == 0 ? i == 12 : i == 0); });
    {
        /* spiral corridor of width 1 with walls of width 2 (so that no further cells close) */
        int N = 19;
        std::vector<char> s((size_t) N * N, 0);
        int i = 0, j = 0, di = 1, dj = 0, len = N - 1, k;
        s[0] = 1;
        for (int leg = 0; len > 0 && leg < 9; ++leg) {
            for (k = 0; k < len; ++k) {
                i += di;
                j += dj;
                s[(size_t) j * N + i] = 1;
            }
            int t = di;
            di = -dj;
            dj = t;
            if (leg == 0 || leg == 1)
                len = N - 1;
            else if (leg % 2 == 0)
                len -= 3;
            if (leg == 2)
                len = N - 1 - 3;
        }
        add("spiral 19x19", N, N, [&](int a, int b) { return s[(size_t) b * N + a] != 0; });
    }
    add("full 100x1", 100, 1, full);
    add("full 1x300", 1, 300, full);
    add("full 64x64", 64, 64, full);
    add("full 127x129", 127, 129, full);
    add("comb 60x40", 60, 40, [](int i, int j) { return j < 2 || i % 3 == 0; });
    add("stairs 50x50", 50, 50, [](int i, int j) { return i >= j; });
    add("L 80x70", 80, 70, [](int i, int j) { return i < 30 || j < 20; });
    if (thorough) {
        add("full 1100x1", 1100, 1, full);
        add("full 256x255", 256, 255, full);
        add("full 2x600", 2, 600, full);
        add("comb 200x60", 200, 60, [](int i, int j) { return j < 2 || i % 3 == 0; });
        add("comb-down 150x90", 150, 90, [](int i, int j) { return j >= 85 || i % 4 == 1; });
        add("stairs 150x150", 150, 150, [](int i, int j) { return i >= j; });
        add("anti-stairs 120x120", 120, 120, [](int i, int j) { return i + j >= 119; });
        add("C 150x160", 150, 160, [](int i, int j) { return j < 50 || j >= 100 || i < 20; });
    }
    return v;
}

double segdist(double ax, double ay, double bx, double by, double px, double py)
{
    double dx = bx - ax, dy = by - ay, L = dx * dx + dy * dy;
    double t = L > 0 ? ((px - ax) * dx + (py - ay) * dy) / L : 0;
    t = std::max(0.0, std::min(1.0, t));
    return hypot(ax + t * dx - px, ay + t * dy - py);
}

int pip(const vd& x, const vd& y, double px, double py, double tol)
{
    size_t n = x.size();
    if (n < 2)
        return 0;
    bool in = false;
    for (size_t a = 0, b = n - 1; a < n; b = a++) {
        if (tol >= 0 && segdist(x[a], y[a], x[b], y[b], px, py) <= tol)
            return 2;
        if ((y[a] > py) != (y[b] > py)) {
            long double xx = (long double) x[a] + ((long double) py - y[a]) * ((long double) x[b] - x[a]) / ((long double) y[b] - y[a]);
            if (px < xx)
                in = !in;
        }
    }
    return in;
}

double shoelace(const vd& x, const vd& y)
{
    long double s = 0;
    size_t n = x.size();
    for (size_t a = 0; a < n; ++a) {
        size_t b = (a + 1) % n;
        s += ((long double) x[a] - x[0]) * ((long double) y[b] - y[0]) - ((long double) x[b] - x[0]) * ((long double) y[a] - y[0]);
    }
    return (double) (s / 2);
}

G validCO(const G& g)
{
    G r = g;
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i)
            if (!(g.cell(i, j) || g.cell(i - 1, j) || g.cell(i, j - 1) || g.cell(i - 1, j - 1)))
                r.kill(i, j);
    return r;
}

G validDD(const G& g)
{
    G r = g;
    auto cell = [&](int i, int j) {     /* (i,j): first corner of the cell */
        return g.in(i, j) && g.in(i + 2, j + 2) && g.ok(i, j) && g.ok(i + 2, j) && g.ok(i, j + 2) && g.ok(i + 2, j + 2);
    };
    for (int j = 0; j < g.ny; j += 2)
        for (int i = 0; i < g.nx; i += 2)
            if (!(cell(i, j) || cell(i - 2, j) || cell(i, j - 2) || cell(i - 2, j - 2)))
                r.kill(i, j);
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i) {
            bool good = true;
            if (i % 2 == 1 && j % 2 == 1)
                good = r.ok(i - 1, j - 1) && r.ok(i + 1, j - 1) && r.ok(i - 1, j + 1) && r.ok(i + 1, j + 1);
            else if (i % 2 == 1)
                good = r.ok(i - 1, j) && r.ok(i + 1, j);
            else if (j % 2 == 1)
                good = r.ok(i, j - 1) && r.ok(i, j + 1);
            if (!good)
                r.kill(i, j);
        }
    return r;
}

std::string gridtext(const G& g)
{
    std::string s = mc::strf("## %d x %d\n", g.nx, g.ny);
    for (size_t k = 0; k < g.x.size(); ++k)
        s += num(g.x[k]) + " " + num(g.y[k]) + "\n";
    return s;
}

std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) {
            v.push_back(s.substr(p));
            break;
        }
        v.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return v;
}

bool parsegrid(const std::string& s, G& g, int columns)
{
    std::vector<std::string> l = lines(s);
    int nx, ny, used = 0;
    if (s.empty() || s.back() != '\n')
        return false;
    if (l.empty() || sscanf(l[0].c_str(), "## %d x %d%n", &nx, &ny, &used) != 2 || used != (int) l[0].size())
        return false;
    if (nx < 1 || ny < 1 || (size_t) nx * ny + 1 != l.size())
        return false;
    g = G(nx, ny);
    for (size_t k = 1; k < l.size(); ++k) {
        const char* p = l[k].c_str();
        char* e;
        double a = strtod(p, &e), b;
        if (e == p)
            return false;
        p = e;
        if (columns == 2) {
            b = strtod(p, &e);
            if (e == p)
                return false;
        } else
            b = a;
        while (*e == ' ')
            ++e;
        if (*e != 0)
            return false;
        g.x[k - 1] = a;
        g.y[k - 1] = b;
    }
    return true;
}

/* ---- statistics of the cells of a grid ---- */
static double angle_dev(double ax, double ay, double bx, double by)
{
    double cr = ax * by - ay * bx, dt = ax * bx + ay * by;
    double a = atan2(fabs(cr), dt) * 180.0 / M_PI;
    return fabs(90.0 - a);
}
/* compares the statistics written to stderr with those of the cells of corner nodes co */
void verifystats(mc::Ctx& c, const G& co, const std::string& err, const std::string& what)
{
    int n = 0, i, j;
    double dmax = 0, dsum = 0, amax = 1, asum = 0, dx = 0, dy = 0;
    double a, b;
    int W = co.nx - 1, H = co.ny - 1;
    std::vector<double> D((size_t) W * H, -1), A((size_t) W * H, -1);
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i) {
            if (!co.cell(i, j))
                continue;
            ++n;
            double px[4] = { co.X(i, j), co.X(i + 1, j), co.X(i + 1, j + 1), co.X(i, j + 1) }, py[4] = { co.Y(i, j), co.Y(i + 1, j), co.Y(i + 1, j + 1), co.Y(i, j + 1) };
            double m = 0;
            for (int k = 0; k < 4; ++k) {
                int b = (k + 1) % 4, a = (k + 3) % 4;
                double e = angle_dev(px[b] - px[k], py[b] - py[k], px[a] - px[k], py[a] - py[k]);
                dsum += e;
                m = std::max(m, e);
            }
            D[(size_t) j * W + i] = m;
            dmax = std::max(dmax, m);
            double u = hypot((px[2] + px[3] - px[0] - px[1]) / 2, (py[2] + py[3] - py[0] - py[1]) / 2), w = hypot((px[1] + px[2] - px[0] - px[3]) / 2, (py[1] + py[2] - py[0] - py[3]) / 2);
            double ar = std::max(u / w, w / u);
            A[(size_t) j * W + i] = ar;
            asum += ar;
            amax = std::max(amax, ar);
            auto len = [&](int p, int q) { return hypot(px[p] - px[q], py[p] - py[q]); };
            dx += (len(0, 1) + len(3, 2)) / 2;
            dy += (len(0, 3) + len(1, 2)) / 2;
        }
    auto find = [&](const char* key) {
        size_t p = err.find(key);
        MC_CHECK(c, p != std::string::npos, "%s: no \"%s\" in\n%s", what.c_str(), key, err.c_str());
        return err.c_str() + p + strlen(key);
    };
    if (n == 0)
        return;                 /* no cells: nothing to say */
    const double tol = 0.0006;
    MC_CHECK(c, sscanf(find("maximum deviation from orthogonality ="), "%lf deg, in cell (%d,%d)", &a, &i, &j) == 3 && fabs(a - dmax) < tol, "%s: maximum deviation %g:\n%s", what.c_str(), dmax, err.c_str());
    if (dmax > 0.01)
        MC_CHECK(c, i >= 0 && j >= 0 && i < W && j < H && fabs(D[(size_t) j * W + i] - dmax) < 1e-6, "%s: the maximum deviation %g is not in cell (%d,%d)", what.c_str(), dmax, i, j);
    MC_CHECK(c, sscanf(find("mean deviation from orthogonality ="), "%lf deg", &a) == 1 && fabs(a - dsum / n / 4) < tol, "%s: mean deviation %g:\n%s", what.c_str(), dsum / n / 4, err.c_str());
    MC_CHECK(c, sscanf(find("maximum aspect ratio ="), "%lf, in cell (%d,%d)", &a, &i, &j) == 3 && fabs(a - amax) < tol, "%s: maximum aspect ratio %g:\n%s", what.c_str(), amax, err.c_str());
    if (amax > 1.0001)
        MC_CHECK(c, i >= 0 && j >= 0 && i < W && j < H && fabs(A[(size_t) j * W + i] - amax) < 1e-9 * amax, "%s: the maximum aspect ratio %g is not in cell (%d,%d)", what.c_str(), amax, i, j);
    MC_CHECK(c, sscanf(find("mean aspect ratio ="), "%lf", &a) == 1 && fabs(a - asum / n) < tol, "%s: mean aspect ratio %g:\n%s", what.c_str(), asum / n, err.c_str());
    MC_CHECK(c, sscanf(find("mean cell size ="), "%lf x %lf", &a, &b) == 2 && fabs(a - dx / n) < 0.0051 * dx / n && fabs(b - dy / n) < 0.0051 * dy / n, "%s: mean cell size %g x %g:\n%s", what.c_str(), dx / n, dy / n, err.c_str());
}

bool nicecells(const G& co)
{
    for (int j = 0; j + 1 < co.ny; ++j)
        for (int i = 0; i + 1 < co.nx; ++i) {
            if (!co.cell(i, j))
                continue;
            double px[4] = { co.X(i, j), co.X(i + 1, j), co.X(i + 1, j + 1), co.X(i, j + 1) }, py[4] = { co.Y(i, j), co.Y(i + 1, j), co.Y(i + 1, j + 1), co.Y(i, j + 1) }, M = 0, m = INFINITY;
            for (int k = 0; k < 4; ++k) {
                M = std::max(M, fabs(px[k]) + fabs(py[k]));
                m = std::min(m, hypot(px[k] - px[(k + 1) % 4], py[k] - py[(k + 1) % 4]));
            }
            m = std::min(m, hypot(px[2] + px[3] - px[0] - px[1], py[2] + py[3] - py[0] - py[1]) / 2);
            m = std::min(m, hypot(px[1] + px[2] - px[0] - px[3], py[1] + py[2] - py[0] - py[3]) / 2);
            if (!(m > 1e-6 * M))
                return false;
        }
    return true;
}
std::string errof(const std::function<void()>& f)
{
    fflush(stderr);
    off_t o = lseek(2, 0, SEEK_END);
    f();
    fflush(stderr);
    off_t e = lseek(2, 0, SEEK_END);
    std::string s((size_t) std::max<off_t>(e - o, 0), 0);
    ssize_t n = pread(2, &s[0], s.size(), o);
    s.resize((size_t) std::max<ssize_t>(n, 0));
    if (ftruncate(2, o) != 0)
        lseek(2, 0, SEEK_END);
    return s;
}
