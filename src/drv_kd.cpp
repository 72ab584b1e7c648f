/* the kd-tree against a plain list of points */
#include "util.h"
using namespace mc;

enum { MAXD = 16 };
struct MP {
    double x[MAXD];
    size_t orig;
};
typedef std::vector<MP> MV;

static std::string mstr(const MV& m, int nd)
{
    std::string s = "{";
    for (size_t k = 0; k < m.size() && k < 40; ++k) {
        s += "(";
        for (int d = 0; d < nd; ++d)
            s += strf("%s%g", d ? "," : "", m[k].x[d]);
        s += strf(")#%zu ", m[k].orig);
    }
    return s + (m.size() > 40 ? "...}" : "}");
}
struct KT {
    kdtree* t;
    int nd;
    explicit KT(int n) : t(kd_create(n)), nd(n) {}
    ~KT() { kd_destroy(t); }
    KT(const KT&) = delete;
};
static double d2(const double* a, const double* b, int nd)
{
    double s = 0;
    for (int d = 0; d < nd; ++d)
        s += (a[d] - b[d]) * (a[d] - b[d]);
    return s;
}

/* size, coordinates, identifiers, bounding box; fills m in the order of the node ids */
static void checktree(Ctx& c, KT& k, const MV& want, bool inorder, MV& got)
{
    size_t n = kd_getsize(k.t);
    MC_CHECK(c, n == want.size(), "size is %zu, expected %zu", n, want.size());
    got.assign(n, MP());
    for (size_t i = 0; i < n; ++i) {
        double* p = kd_getnodecoords(k.t, i);
        for (int d = 0; d < k.nd; ++d)
            got[i].x[d] = p[d];
        got[i].orig = kd_getnodeorigid(k.t, i);
    }
    c.step();
    if (inorder) {
        for (size_t i = 0; i < n; ++i)
            MC_CHECK(c, memcmp(got[i].x, want[i].x, sizeof(double) * k.nd) == 0 && got[i].orig == want[i].orig, "node %zu is #%zu (%g,...), expected #%zu (%g,...)", i, got[i].orig, got[i].x[0], want[i].orig, want[i].x[0]);
    } else {
        auto key = [&](const MP& a) {
            std::vector<double> v(a.x, a.x + k.nd);
            v.push_back((double) a.orig);
            return v;
        };
        std::vector<std::vector<double>> a, b;
        for (auto& q : got)
            a.push_back(key(q));
        for (auto& q : want)
            b.push_back(key(q));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        MC_CHECK(c, a == b, "nodes with their identifiers are %s, expected %s (in any order)", mstr(got, k.nd).c_str(), mstr(want, k.nd).c_str());
    }
    if (n > 0) {
        double* mm = kd_getminmax(k.t);
        for (int d = 0; d < k.nd; ++d) {
            double lo = 1e300, hi = -1e300;
            for (auto& q : want) {
                lo = std::min(lo, q.x[d]);
                hi = std::max(hi, q.x[d]);
            }
            MC_CHECK(c, mm[d] == lo && mm[k.nd + d] == hi, "bounding box in dimension %d: [%g,%g], expected [%g,%g]", d, mm[d], mm[k.nd + d], lo, hi);
        }
    }
}
static void checknearest(Ctx& c, KT& k, const MV& got, const double* q)
{
    size_t r = kd_findnearestnode(k.t, q);
    c.step();
    if (got.empty()) {
        MC_CHECK(c, r == SIZE_MAX, "nearest node of an empty tree: %zu", r);
        return;
    }
    double best = 1e300;
    for (auto& p : got)
        best = std::min(best, d2(p.x, q, k.nd));
    MC_CHECK(c, r < got.size(), "nearest node to (%g,%g): %zu of %zu", q[0], k.nd > 1 ? q[1] : 0, r, got.size());
    double d = d2(got[r].x, q, k.nd);
    MC_CHECK(c, d <= best * (1 + 1e-12), "nearest node to (%g,%g,%g): node %zu at squared distance %.17g, but there is one at %.17g; tree %s", q[0], k.nd > 1 ? q[1] : 0, k.nd > 2 ? q[2] : 0, r, d, best, mstr(got, k.nd).c_str());
}
/* range2: exact square of the range */
static void checkrange(Ctx& c, KT& k, const MV& got, const double* q, double range, bool ordered, bool partial)
{
    kdset* s = kd_findnodeswithinrange(k.t, q, range, ordered);
    c.step();
    std::vector<size_t> want;
    for (size_t i = 0; i < got.size(); ++i)
        if (d2(got[i].x, q, k.nd) <= range * range)
            want.push_back(i);
    size_t n = kdset_getsize(s);
    auto where = [&]() { return strf("within %g of (%g,%g,%g)%s in %s", range, q[0], k.nd > 1 ? q[1] : 0, k.nd > 2 ? q[2] : 0, ordered ? ", ordered," : "", mstr(got, k.nd).c_str()); };
    MC_CHECK(c, n == want.size(), "%zu nodes found, expected %zu, %s", n, want.size(), where().c_str());
    std::vector<size_t> ids;
    double last = -1;
    size_t lim = partial ? n / 2 : n;
    for (size_t i = 0; i < lim; ++i) {
        double dist = -7;
        size_t id = kdset_read(s, &dist);
        MC_CHECK(c, id < got.size(), "result %zu of %zu is node %zu, %s", i, n, id, where().c_str());
        double e = sqrt(d2(got[id].x, q, k.nd));
        MC_CHECK(c, fabs(dist - e) <= 1e-12 * e, "node %zu reported at distance %.17g, it is at %.17g, %s", id, dist, e, where().c_str());
        if (ordered)
            MC_CHECK(c, dist >= last, "results not ordered by distance (%g after %g), %s", dist, last, where().c_str());
        last = dist;
        ids.push_back(id);
        MC_CHECK(c, kdset_getsize(s) == n, "size of the result set changes while it is read");
    }
    if (!partial) {
        std::sort(ids.begin(), ids.end());
        MC_CHECK(c, ids == want, "wrong set of nodes %s", where().c_str());
        for (int z = 0; z < 3; ++z) {
            double dist = 1;
            size_t id = kdset_read(s, &dist);
            MC_CHECK(c, id == SIZE_MAX && std::isnan(dist), "reading past the end gives node %zu, %s", id, where().c_str());
        }
    }
    kdset_free(s);
}

static bool allfinite(const std::vector<double>& p)
{
    for (double x : p)
        if (!std::isfinite(x))
            return false;
    return true;
}
/* queries at points that are not finite */
static void checkodd(Ctx& c, KT& k, const MV& got)
{
    for (int e = -1; e < k.nd; ++e) {
        double q[MAXD] = { 0 };
        for (int y = 0; y < k.nd; ++y)
            q[y] = e < 0 || y == e ? NAN : got.empty() ? 0 : got[0].x[y];
        size_t r = kd_findnearestnode(k.t, q);
        c.step(3);
        MC_CHECK(c, r == SIZE_MAX, "nearest node to a point with NaN (in dimension %d): %zu", e, r);
        kdset* s = kd_findnodeswithinrange(k.t, q, 1e9, 1);
        double dist = 0;
        MC_CHECK(c, kdset_getsize(s) == 0 && kdset_read(s, &dist) == SIZE_MAX, "%zu nodes in range of a point with NaN (in dimension %d)", kdset_getsize(s), e);
        kdset_free(s);
        for (int y = 0; y < k.nd; ++y)
            if (std::isnan(q[y]))
                q[y] = e % 2 ? INFINITY : -INFINITY;
        r = kd_findnearestnode(k.t, q);
        MC_CHECK(c, got.empty() ? r == SIZE_MAX : r < got.size(), "nearest node to a point at infinity: %zu of %zu", r, got.size());
    }
}
/* exact affine changes of the coordinates: small, large, negative, translated */
struct XF {
    double s, o;
};
static const XF XFS[] = { {1, 0}, {0.0625, 0}, {1, -70}, {-1, 0}, {1048576, 1073741824}, {9.313225746154785e-10, -1.1920928955078125e-07}, {-0.125, 0}, {0.0009765625, -0.0625} };
enum { NXF = sizeof XFS / sizeof XFS[0] };
static std::vector<std::vector<double>> xform(std::vector<std::vector<double>> v, const XF& X)
{
    for (auto& p : v)
        for (auto& x : p)
            x = X.s * x + X.o;
    return v;
}
struct XQ {
    double q[MAXD];
    XQ(const double* p, const XF& X)
    {
        for (int d = 0; d < MAXD; ++d)
            q[d] = X.s * p[d] + X.o;
    }
};
static uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}
/* decode a sequence of lattice points; digit 0 of the alphabet is a point to be ignored (NaN) */
struct Lat {
    int nd, L, len;
    bool nan;
    int alpha() const { return (int) ipow(L, nd) + (nan ? 1 : 0); }
    uint64_t count() const { return ipow(alpha(), len); }
};
static const std::vector<Lat> LATS = { {1, 4, 5, true}, {2, 2, 6, true}, {2, 3, 5, false}, {3, 2, 5, false}, {2, 4, 3, true}, {1, 6, 5, false} };
/* ... in all scales and positions */
static const std::vector<Lat> LATSX = { {1, 4, 4, true}, {2, 2, 5, true}, {2, 3, 4, false}, {3, 2, 4, false}, {2, 4, 3, false} };
static const std::vector<Lat> LATST = { {1, 4, 7, true}, {2, 2, 8, true}, {2, 3, 6, true}, {3, 2, 6, true}, {2, 4, 5, false}, {1, 7, 6, false}, {3, 3, 4, false} };

/* mode 0: one by one; 1: in one go, 2: in one go, shuffled; 3: the first one by one, the rest shuffled */
static void buildtree(KT& k, const std::vector<std::vector<double>>& pts, int mode, MV& want)
{
    int n = (int) pts.size(), n0 = mode == 0 ? n : mode == 3 ? n / 2 : 0;
    want.clear();
    for (int i = 0; i < n0; ++i) {
        kd_insertnode(k.t, pts[i].data(), 100 + i * 3);
        if (allfinite(pts[i])) {
            MP m;
            std::copy(pts[i].begin(), pts[i].end(), m.x);
            m.orig = 100 + i * 3;
            want.push_back(m);
        }
    }
    if (n0 < n) {
        size_t base = want.size();
        std::vector<vd> col(k.nd);
        std::vector<double*> src(k.nd);
        for (int d = 0; d < k.nd; ++d) {
            for (int i = n0; i < n; ++i)
                col[d].push_back(pts[i][d]);
            src[d] = col[d].data();
        }
        kd_insertnodes(k.t, n - n0, src.data(), mode >= 2);
        for (int i = n0; i < n; ++i)
            if (allfinite(pts[i])) {
                MP m;
                std::copy(pts[i].begin(), pts[i].end(), m.x);
                m.orig = base + i - n0;
                want.push_back(m);
            }
    }
}
static std::vector<std::vector<double>> lattice(uint64_t idx, const Lat& L)
{
    Dec d(idx);
    std::vector<std::vector<double>> v;
    for (int k = 0; k < L.len; ++k) {
        int a = d.take(L.alpha());
        std::vector<double> p(L.nd, NAN);
        if (L.nan && a == 0 && k % 3 > 0)       /* only one coordinate is not finite */
            for (int q = 0; q < L.nd; ++q)
                p[q] = k % 3 == 1 ? (q == L.nd - 1 ? NAN : 0) : (q == 0 ? INFINITY : 1);
        if (!L.nan || a > 0) {
            if (L.nan)
                --a;
            for (int q = 0; q < L.nd; ++q) {
                p[q] = a % L.L;
                a /= L.L;
            }
        }
        v.push_back(p);
    }
    return v;
}
template <class Fn> static void queries(const Lat& L, double stepv, Fn f)
{
    int m = (int) ((L.L + 1) / stepv) + 1;
    int tot = (int) ipow(m, L.nd);
    for (int z = 0; z < tot; ++z) {
        double q[MAXD] = { 0 };
        int y = z;
        for (int d = 0; d < L.nd; ++d) {
            q[d] = -1 + stepv * (y % m);
            y /= m;
        }
        f(q);
    }
}

/* point sets of many sizes, for capacity effects: generated by a fixed rule */
static const int SIZES[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 255, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4096, 4097 };
enum { NSZ = sizeof SIZES / sizeof SIZES[0] };
enum { NPAT = 7 };
static std::vector<std::vector<double>> pattern(int pat, int n, int nd)
{
    std::vector<std::vector<double>> v;
    for (int k = 0; k < n; ++k) {
        std::vector<double> p(nd);
        for (int d = 0; d < nd; ++d)
            switch (pat) {
            case 0: p[d] = (double) ((k * (7 + 6 * d) + 3 * d) % 64); break;  /* lattice, with duplicates */
            case 1: p[d] = k * (d == 0 ? 1.0 : 0.25); break;                 /* sorted */
            case 2: p[d] = (d % 2 ? k : n - k); break;                       /* anti-sorted */
            case 3: p[d] = 5.0; break;                                       /* all equal */
            case 4: p[d] = (double) (mix(k + 1, d) % 100003) / 128.0; break; /* scattered */
            case 5: p[d] = d == 0 ? (double) (k % 3) : (double) (k / 3); break;      /* narrow strip */
            default: p[d] = (double) (mix(k + 1, d) % 509) - 250; break;
            }
        if (pat == 6 && k % 5 == 0) {
            if (k % 10 == 0)
                p[(k / 10) % nd] = k % 20 ? NAN : -INFINITY;
            else
                std::fill(p.begin(), p.end(), NAN);
        }
        v.push_back(p);
    }
    return v;
}

/* queries for such trees: a coarse lattice over and around the points, and the points themselves, as they are and shifted */
static void around(const MV& got, int nd, const XF& X, const std::function<void(int, const double*)>& f)
{
    static const double CO[] = { -3.25, 15, 31.5, 47.75, 64, 700.125 };
    int m = nd == 1 ? 6 : nd == 2 ? 6 : 3, tot = (int) ipow(m, nd), z = 0;
    for (; z < tot; ++z) {
        double q[MAXD] = { 0 };
        for (int e = 0, y = z; e < nd; ++e, y /= m)
            q[e] = X.s * CO[m == 3 ? y % m * 2 : y % m] + X.o;
        f(z, q);
    }
    for (int k = 0; k < 24 && !got.empty(); ++k, ++z) {
        double q[MAXD] = { 0 };
        for (int e = 0; e < nd; ++e)
            q[e] = got[(k * got.size() / 24) % got.size()].x[e] + (k % 2 ? 0.25 * X.s : 0);
        f(z, q);
    }
}
/* dimensions beyond those of the lattices */
static const int HD[] = { 4, 5, 6, 7, 8, 9, 12, 15, 16 };
enum { NHD = sizeof HD / sizeof HD[0] };
static const int HSZ[] = { 0, 1, 2, 3, 9, 40, 129, 600, 1025 };
enum { NHSZ = sizeof HSZ / sizeof HSZ[0] };
static void highd(Ctx& c, uint64_t idx, bool range)
{
    Dec d(idx);
    int mode = d.take(4), nd = HD[d.take(NHD)], pat = d.take(NPAT), n = HSZ[d.take(NHSZ)];
    KT k(nd);
    MV want, got;
    const XF& X = XFS[(mode + idx / 4) % NXF];
    auto pts = xform(pattern(pat, n, nd), X);
    buildtree(k, pts, mode, want);
    checktree(c, k, want, mode < 2, got);
    c.log("%d %d-D points, pattern %d, mode %d, %g x + %g", n, nd, pat, mode, X.s, X.o);
    for (int z = 0; z < 24; ++z) {
        double q[MAXD] = { 0 };
        for (int e = 0; e < nd; ++e)
            q[e] = z % 2 == 0 && !got.empty() ? got[(z * 37) % got.size()].x[e] + (z % 3 == e % 3 ? 0.25 * X.s : 0) : X.s * ((double) ((z * (e + 5) + 11 * e) % 64) + 0.5 * (z % 2)) + X.o;
        static const double R[] = { 0, 1, 5, 20, 60, 1e4 };
        if (range)
            checkrange(c, k, got, q, R[z % 6] * fabs(X.s), (z / 6) % 2, z % 5 == 4);
        else
            checknearest(c, k, got, q);
    }
    c.state(idx);
}
/* sets of corners of a hypercube (every axis is a splitting plane), queried at the centre, at the corners and next to them */
static void hypercube(Ctx& c, uint64_t idx, int nd, bool range, int mode, const std::function<bool(int)>& has)
{
    int nc = 1 << nd;
    std::vector<std::vector<double>> pts;
    for (int b = 0; b < nc; ++b)
        if (has(b)) {
            std::vector<double> p(nd);
            for (int e = 0; e < nd; ++e)
                p[e] = b >> e & 1;
            pts.push_back(p);
        }
    KT k(nd);
    MV want, got;
    const XF& X = XFS[(idx ^ idx >> 3 ^ idx >> 7) % NXF];
    pts = xform(pts, X);
    buildtree(k, pts, mode, want);
    checktree(c, k, want, mode < 2, got);
    c.log("corners of a %d-D cube, mode %d: %s", nd, mode, mstr(got, nd).c_str());
    for (int z = -1; z < nc; z += nd > 6 ? 5 : 1) {
        double q[MAXD] = { 0 };
        for (int e = 0; e < nd; ++e)
            q[e] = z < 0 ? 0.5 : (z >> e & 1) ? (e % 2 ? 0.75 : 1) : (e % 2 ? 0 : 0.25);
        static const double R[] = { 0.5, 1, 1.5, 0.25, 2 };
        XQ y(q, X);
        if (range)
            checkrange(c, k, got, y.q, R[(z + 1 + idx) % 5] * fabs(X.s), z % 2 != 0, false);
        else
            checknearest(c, k, got, y.q);
    }
    c.state(mix(idx, nd));
}
static void addcubes(std::vector<Family>& F, bool thorough, bool range)
{
    add(F, "all sets of corners of a 4-D cube", 65536ULL * (thorough ? 4 : 1), [=](Ctx& c, uint64_t idx) {
        uint64_t m = thorough ? idx / 4 : idx;
        hypercube(c, idx, 4, range, (int) (thorough ? idx % 4 : (idx ^ idx >> 4 ^ idx >> 9) % 4), [=](int b) { return m >> b & 1; });
    });
    for (int nd : { 5, 6, 7, 8 }) {
        uint64_t nf = 1;
        for (int k = 0; k < nd; ++k)
            nf *= 3;
        bool allmodes = thorough || nd < 7;
        add(F, strf("all faces of all dimensions of a %d-D cube, and what they leave", nd), nf * 2 * (allmodes ? 4 : 1), [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int mode = allmodes ? d.take(4) : (int) (idx % 7 % 4), inv = d.take(2);
            uint64_t f = d.v;
            hypercube(c, idx, nd, range, mode, [=](int b) {
                uint64_t q = f;
                bool in = true;
                for (int e = 0; e < nd; ++e, q /= 3)
                    in &= q % 3 == 2 || (int) (q % 3) == (b >> e & 1);
                return in != (inv != 0);
            });
        });
    }
    add(F, "all pairs of corners of a 6-D cube, and what they leave", 64ULL * 64 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = d.take(64), e = d.take(64), inv = d.take(2);
        hypercube(c, idx, 6, range, (int) ((a + e) % 4), [=](int b) { return (b == a || b == e) != (inv != 0); });
    });
}

/* histories of insertions and queries on two trees, which are also destroyed and created anew (the memory of a destroyed
 * tree is used again at once: no quarantine in these checks) */
enum { NHOP = 14 };
static void history(Ctx& c, uint64_t idx, int depth, int nd, bool range)
{
    static const double PT[3][3] = { {0, 0, 0}, {2, 0, 1}, {1, 2, 2} }, Q[2][3] = { {0.5, 0.25, 0}, {1.75, 1, 1.5} };
    static const double B0[3] = { 2, 0, NAN }, B1[3] = { 1, 2, 0 }, B2[3] = { 0.5, 2, 1 };
    static const double R[] = { 1.5, 0, 2.25, 100 };
    Dec d(idx);
    std::unique_ptr<KT> k[2] = { std::unique_ptr<KT>(new KT(nd)), std::unique_ptr<KT>(new KT(nd)) };
    MV m[2];
    uint64_t h = nd;
    auto query = [&](int w, int q, int z) {
        if (range)
            checkrange(c, *k[w], m[w], Q[q], R[(z + idx / 11) % 4], idx % 2, false);
        else
            checknearest(c, *k[w], m[w], Q[q]);
    };
    for (int z = 0; z < depth; ++z) {
        int op = d.take(NHOP), w = op & 1;
        c.step();
        h = mix(h, op);
        c.state(h);
        switch (op /= 2) {
        case 0: case 1: case 2:{
                MP p;
                std::copy(PT[op], PT[op] + 3, p.x);
                p.orig = 50 + z;
                kd_insertnode(k[w]->t, p.x, p.orig);
                m[w].push_back(p);
                c.log("tree %d: insert (%g,%g,%g)", w, p.x[0], p.x[1], p.x[2]);
                break;
            }
        case 3:{
                double* src[3] = { (double*) B0, (double*) B1, (double*) B2 };
                size_t base = m[w].size();
                kd_insertnodes(k[w]->t, 3, src, 0);
                for (int e = 0; e < 2; ++e) {
                    MP p;
                    p.x[0] = B0[e];
                    p.x[1] = B1[e];
                    p.x[2] = B2[e];
                    p.orig = base + e;
                    m[w].push_back(p);
                }
                c.log("tree %d: insert three points", w);
                break;
            }
        case 4: case 5:
            c.log("tree %d: query %d", w, op - 4);
            query(w, op - 4, z);
            break;
        case 6:
            c.log("tree %d: destroyed and created anew", w);
            k[w].reset();
            k[w].reset(new KT(nd));
            m[w].clear();
            break;
        }
    }
    for (int w = 0; w < 2; ++w) {
        MV got;
        checktree(c, *k[w], m[w], true, got);
        for (int q = 0; q < 2; ++q)
            query(w, q, q);
    }
    query(1, 0, 2);
    query(0, 1, 3);
}
static void addhistories(std::vector<Family>& F, bool thorough, bool range)
{
    for (int nd = 1; nd <= 3; ++nd) {
        int depth = thorough ? (nd == 2 ? 6 : 5) : nd == 2 ? 5 : 4;
        add(F, strf("histories of %d insertions, queries and destructions of two %d-D trees", depth, nd), ipow(NHOP, depth), [=](Ctx& c, uint64_t idx) { history(c, idx, depth, nd, range); });
    }
}

/* ------------------------------------------------------------------ C22 */
PROPERTY(C22)
{
    /* distances that are nearly the same */
    add(F, "all sequences of up to four points on the axes at nearly the same distance", 6 * (16 + 256 + 4096 + 65536), [](Ctx& c, uint64_t idx) {
        static const int N[4] = { 16, 256, 4096, 65536 }, EXP[6] = { 10, 20, 24, 28, 32, 37 };
        Dec d(idx);
        double eps = ldexp(1.0, -EXP[d.take(6)]);
        int n = 1, mode = (int) ((idx ^ idx >> 4 ^ idx >> 8) % 4);
        uint64_t v = d.v;
        while (v >= (uint64_t) N[n - 1])
            v -= N[n++ - 1];
        std::vector<std::vector<double>> pts;
        for (int k = 0; k < n; ++k, v /= 16) {
            double r = (1 + eps * (v / 4 % 4)) * (v & 1 ? -1 : 1);
            pts.push_back(v & 2 ? std::vector<double>{ r, 0 } : std::vector<double>{ 0, r });
        }
        KT k(2);
        MV want, got;
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        double q[MAXD] = { 0, 0 };
        checknearest(c, k, got, q);
        c.state(idx);
    });
    add(F, "trees of up to 16 dimensions", 4 * NHD * NPAT * NHSZ, [](Ctx& c, uint64_t idx) { highd(c, idx, false); }, 32);
    addcubes(F, thorough, false);
    addhistories(F, thorough, false);
    for (auto L : thorough ? LATST : LATS)
        add(F, strf("all sequences of %d %d-D lattice points (side %d%s)", L.len, L.nd, L.L, L.nan ? ", with NaNs" : ""), L.count() * 4, [=](Ctx& c, uint64_t idx4) {
            uint64_t idx = idx4 / 4;
            const XF& X = XFS[(idx4 ^ idx4 >> 5) % NXF];
            auto pts = xform(lattice(idx, L), X);
            KT k(L.nd);
            MV want, got;
            int mode = (int) (idx4 % 4);
            buildtree(k, pts, mode, want);
            checktree(c, k, want, mode < 2, got);
            c.log("tree (mode %d) %s", mode, mstr(got, L.nd).c_str());
            queries(L, 0.5, [&](const double* q) { checknearest(c, k, got, XQ(q, X).q); });
            checkodd(c, k, got);
            c.state(mix(mix(idx4, L.nd * 100 + L.L), L.len));
        });
    for (auto L : LATSX)
        add(F, strf("all sequences of %d %d-D lattice points (side %d%s), all scales and positions", L.len, L.nd, L.L, L.nan ? ", with NaNs" : ""), L.count() * 4 * NXF, [=](Ctx& c, uint64_t idx0) {
            const XF& X = XFS[idx0 % NXF];
            uint64_t idx4 = idx0 / NXF;
            auto pts = xform(lattice(idx4 / 4, L), X);
            KT k(L.nd);
            MV want, got;
            int mode = (int) (idx4 % 4);
            buildtree(k, pts, mode, want);
            checktree(c, k, want, mode < 2, got);
            c.log("tree (mode %d) %s", mode, mstr(got, L.nd).c_str());
            queries(L, L.nd < 3 ? 0.25 : 0.5, [&](const double* q) { checknearest(c, k, got, XQ(q, X).q); });
            checkodd(c, k, got);
            c.state(mix(mix(idx0, L.nd * 100 + L.L), L.len));
        });
    add(F, "trees of many sizes", NSZ * NPAT * 3 * 4 * (thorough ? NXF : 2), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int mode = d.take(4), nd = 1 + d.take(3), pat = d.take(NPAT), in = d.take(NSZ), n = SIZES[in], xf = d.take(thorough ? NXF : 2);
        const XF& X = XFS[thorough ? xf : (xf * 4 + mode + nd + pat + in) % NXF];
        if ((pat == 1 || pat == 2 || pat == 3 || pat == 5) && n > 2049)
            return;
        KT k(nd);
        MV want, got;
        auto pts = xform(pattern(pat, n, nd), X);
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        c.log("%d %d-D points, pattern %d, mode %d, %g x + %g", n, nd, pat, mode, X.s, X.o);
        around(got, nd, X, [&](int, const double* q) { checknearest(c, k, got, q); });
        checkodd(c, k, got);
        c.state(idx);
    }, 8);
    add(F, "very large trees", 3 * 3 * 4 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int N[] = { 65535, 65537, 131073 }, PAT[] = { 4, 0, 6 };
        int nd = 1 + d.take(3), n = N[d.take(3)], mode = d.take(4), pat = PAT[d.take(3)];
        if (nd == 1 && pat != 4)
            return;             /* too many equal points */
        const XF& X = XFS[(idx + idx / 3 + idx / 9) % NXF];
        KT k(nd);
        MV want, got;
        auto pts = xform(pattern(pat, n, nd), X);
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        c.log("%d %d-D points, pattern %d, mode %d, %g x + %g", n, nd, pat, mode, X.s, X.o);
        around(got, nd, X, [&](int z, const double* q) {
            if (z % 3 == mode % 3)
                checknearest(c, k, got, q);
        });
        c.state(idx);
    }, 1);
}

/* ------------------------------------------------------------------ C23 */
static const double RANGES[] = { 1, 0, 0.5, 1.5, 2, 2.5, 5, 100 };
PROPERTY(C23)
{
    add(F, "trees of up to 16 dimensions", 4 * NHD * NPAT * NHSZ, [](Ctx& c, uint64_t idx) { highd(c, idx, true); }, 32);
    addcubes(F, thorough, true);
    addhistories(F, thorough, true);
    for (auto L : thorough ? LATST : LATS)
        add(F, strf("all sequences of %d %d-D lattice points (side %d%s)", L.len, L.nd, L.L, L.nan ? ", with NaNs" : ""), L.count() * (thorough ? 4 : 2), [=](Ctx& c, uint64_t idx4) {
            uint64_t idx = idx4 / (thorough ? 4 : 2);
            const XF& X = XFS[(idx4 ^ idx4 >> 5) % NXF];
            auto pts = xform(lattice(idx, L), X);
            KT k(L.nd);
            MV want, got;
            int mode = thorough ? (int) (idx4 % 4) : (int) (idx4 % 2) * 2;
            buildtree(k, pts, mode, want);
            checktree(c, k, want, mode < 2, got);
            c.log("tree (mode %d) %s", mode, mstr(got, L.nd).c_str());
            int z = 0;
            queries(L, L.nd == 3 || (!thorough && L.count() > 20000) ? 1 : 0.5, [&](const double* q) {
                if (thorough)
                    for (double r : RANGES)
                        for (int o = 0; o < 2; ++o)
                            checkrange(c, k, got, XQ(q, X).q, r * fabs(X.s), o, false);
                else
                    checkrange(c, k, got, XQ(q, X).q, RANGES[(z + idx4 / 4) % 8] * fabs(X.s), (z + idx4 / 8) % 2, z % 7 == 6);
                ++z;
            });
            c.state(mix(mix(idx4, L.nd * 100 + L.L), L.len));
        });
    /* all ranges at all lattice points, around complete lattices */
    add(F, "full lattices, every centre and range", 6 * 3 * 2 * 4 * NXF, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const XF& X = XFS[d.take(NXF)];
        int L = 1 + d.take(6), nd = 1 + d.take(3), ordered = d.take(2), mode = d.take(4);
        std::vector<std::vector<double>> pts;
        int n = (int) ipow(L, nd);
        for (int k = 0; k < n; ++k) {
            std::vector<double> p;
            int y = k;
            for (int e = 0; e < nd; ++e) {
                p.push_back(y % L);
                y /= L;
            }
            pts.push_back(p);
        }
        KT k(nd);
        MV want, got;
        pts = xform(pts, X);
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        c.log("%d^%d lattice, mode %d", L, nd, mode);
        Lat Q = { nd, L, 0, false };
        queries(Q, nd == 3 ? 1 : 0.5, [&](const double* q) {
            for (double r : RANGES)
                checkrange(c, k, got, XQ(q, X).q, r * fabs(X.s), ordered, false);
        });
        c.state(idx);
    }, 4);
    add(F, "trees of many sizes", NSZ * NPAT * 3 * 4 * (thorough ? NXF : 2), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int mode = d.take(4), nd = 1 + d.take(3), pat = d.take(NPAT), in = d.take(NSZ), n = SIZES[in], xf = d.take(thorough ? NXF : 2);
        const XF& X = XFS[thorough ? xf : (xf * 4 + mode + nd + pat + in) % NXF];
        if (n > 2100 && (pat != 4 || !thorough))
            return;
        KT k(nd);
        MV want, got;
        auto pts = xform(pattern(pat, n, nd), X);
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        c.log("%d %d-D points, pattern %d, mode %d, %g x + %g", n, nd, pat, mode, X.s, X.o);
        around(got, nd, X, [&](int z, const double* q) {
            static const double R[] = { 0, 1, 2, 5, 20, 1e4 };
            if (!thorough && (z % 6 == 5 && n > 600 ? (z / 6 + pat + nd + mode) % 4 != 0 : z % 2 == 1 && n > 1100))
                return;
            checkrange(c, k, got, q, R[z % 6] * fabs(X.s), (z / 6) % 2 && n < 1100, z % 5 == 4);
        });
        c.state(idx);
    }, 8);
    add(F, "very large trees", 3 * 3 * 4 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int N[] = { 65535, 65537, 131073 }, PAT[] = { 4, 0, 6 };
        int nd = 1 + d.take(3), n = N[d.take(3)], mode = d.take(4), pat = PAT[d.take(3)];
        if (nd == 1 && pat != 4)
            return;             /* too many equal points */
        const XF& X = XFS[(idx + idx / 3 + idx / 9) % NXF];
        KT k(nd);
        MV want, got;
        auto pts = xform(pattern(pat, n, nd), X);
        buildtree(k, pts, mode, want);
        checktree(c, k, want, mode < 2, got);
        c.log("%d %d-D points, pattern %d, mode %d, %g x + %g", n, nd, pat, mode, X.s, X.o);
        around(got, nd, X, [&](int z, const double* q) {
            if (z % 3 == mode % 3)
                checkrange(c, k, got, q, (nd == 1 ? 2 : nd == 2 ? 5 : 12) * fabs(X.s), z % 2, false);
        });
        c.state(idx);
    }, 1);
}

/* ------------------------------------------------------------------ C24 */
PROPERTY(C24)
{
    /* histories: mixes of single and bulk insertions, with queries in between */
    int depth = thorough ? 5 : 4;
    static const int bulk[] = { 0, 1, 2, 3, 10, 500, 1022, 1023, 1024, 1025 };
    enum { NOP = 4 + 2 * 10 };
    auto op = [](Ctx& c, KT& k, MV& want, int o, bool& inorder, int& serial, const XF& X = XFS[0]) {
        auto pt = [&](int s, std::vector<double>& p) {
            p.resize(k.nd);
            for (int d = 0; d < k.nd; ++d)
                p[d] = X.s * ((double) (mix(s + 1, d) % 211) / 4.0) + X.o;
        };
        std::vector<double> p;
        if (o < 3) {
            static const int cnt[3] = { 1, 2, 600 };
            for (int z = 0; z < cnt[o]; ++z) {
                pt(serial++, p);
                kd_insertnode(k.t, p.data(), (size_t) serial * 5000000000ULL);
                MP m;
                std::copy(p.begin(), p.end(), m.x);
                m.orig = (size_t) serial * 5000000000ULL;
                want.push_back(m);
            }
            c.log("insert %d single nodes", cnt[o]);
        } else if (o == 3) {
            p.assign(k.nd, NAN);
            kd_insertnode(k.t, p.data(), 1);
            p.assign(k.nd, INFINITY);
            kd_insertnode(k.t, p.data(), 2);
            for (int e = 0; e < k.nd; ++e) {
                p.assign(k.nd, 7);
                p[e] = e % 2 ? -INFINITY : NAN;
                kd_insertnode(k.t, p.data(), 3);
            }
            c.log("insert nodes at NaN and Inf");
        } else {
            int n = bulk[(o - 4) / 2], sh = (o - 4) % 2;
            std::vector<vd> col(k.nd);
            std::vector<double*> src(k.nd);
            size_t base = want.size();
            for (int z = 0; z < n; ++z) {
                pt(serial++, p);
                if (z % 4 == 2) {
                    if (z % 8 == 2)
                        p.assign(k.nd, NAN);
                    else
                        p[(z / 8) % k.nd] = z % 16 == 6 ? NAN : INFINITY;
                }
                for (int d = 0; d < k.nd; ++d)
                    col[d].push_back(p[d]);
                if (z % 4 != 2) {
                    MP m;
                    std::copy(p.begin(), p.end(), m.x);
                    m.orig = base + z;
                    want.push_back(m);
                }
            }
            for (int d = 0; d < k.nd; ++d)
                src[d] = col[d].data();
            std::vector<vd> save = col;
            kd_insertnodes(k.t, n, src.data(), sh);
            for (int d = 0; d < k.nd; ++d)
                MC_CHECK(c, memcmp(save[d].data(), col[d].data(), n * sizeof(double)) == 0, "the input array has been altered");
            if (sh && n > 1)
                inorder = false;
            c.log("insert %d nodes in one go%s", n, sh ? ", shuffled" : "");
        }
        c.step();
    };
    add(F, strf("all histories of %d insertions, small", depth), 4 * 4 * ipow(14, depth), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int ND[4] = { 1, 2, 3, 8 };
        static const XF XS[4] = { {1, 0}, {1, -26}, {-1, 0}, {0.0009765625, 1024} };
        KT k(ND[d.take(4)]);
        const XF& X = XS[d.take(4)];
        MV want, got;
        bool inorder = true;
        int serial = 0;
        uint64_t h = k.nd;
        for (int z = 0; z < depth; ++z) {
            int o = d.take(14);
            if (o == 2)
                o = 14;
            op(c, k, want, o > 3 ? 4 + (o - 4) % 10 : o == 14 ? 3 : o, inorder, serial, X);
            checktree(c, k, want, inorder, got);
            h = mix(h, o);
            c.state(h);
            double q[MAXD] = { 20.3, 11.1, 30.9, 7.7, 25.5, 30.1, 12.2, 40 };
            XQ y(q, X);
            checknearest(c, k, got, y.q);
            checkrange(c, k, got, y.q, 9.5 * fabs(X.s), z % 2, false);
            checkodd(c, k, got);
        }
    });
    int d2 = thorough ? 4 : 3;
    add(F, strf("all histories of %d insertions, crossing capacities", d2), (thorough ? 2 : 1) * ipow(NOP, d2), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        KT k(thorough ? 1 + d.take(2) : 2);
        const XF& X = XFS[idx % 4];
        MV want, got;
        bool inorder = true;
        int serial = 0;
        uint64_t h = k.nd * 7;
        for (int z = 0; z < d2; ++z) {
            int o = d.take(NOP);
            op(c, k, want, o, inorder, serial, X);
            h = mix(h, o);
            c.state(h);
            if (!thorough && z + 1 < d2)
                continue;
            checktree(c, k, want, inorder, got);
            for (int y = 0; y < 3; ++y) {
                double q0[MAXD] = { 10.3 + 17 * y, 41.1 - 13 * y, 0 };
                XQ q(q0, X);
                checknearest(c, k, got, q.q);
                checkrange(c, k, got, q.q, 2.5 * fabs(X.s), 0, false);
            }
        }
    });
    /* large insertions in one go, after insertions of other sizes */
    static const int BIG[] = { 5000, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 140001 };
    static const int BEF[] = { 0, 1, 1023, 1024, 30000 };
    add(F, "large insertions in one go", (9 + 300) * 5 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kn = d.take(9 + 300), n = kn < 9 ? BIG[kn] : kn - 8, n0 = BEF[d.take(5)], sh = d.take(2), nd = 2 + d.take(2);
        KT k(nd);
        MV want, got;
        for (int part = 0; part < 2; ++part) {
            int m = part ? n : n0;
            size_t base = want.size();
            std::vector<vd> col(nd);
            std::vector<double*> src(nd);
            for (int z = 0; z < m; ++z) {
                /* a lattice of 500 columns, walked in a scattered order so that the tree is flat */
                uint64_t y = ((uint64_t) z * 100003u) % 160001u;
                bool bad = z % 97 == 5;
                MP q;
                q.orig = base + z;
                for (int e = 0; e < nd; ++e) {
                    q.x[e] = bad ? NAN : e == 0 ? (double) (y % 500) : e == 1 ? (double) (y / 500) : (double) ((y * 7) % 11) + 1000 * part;
                    col[e].push_back(q.x[e]);
                }
                if (!bad)
                    want.push_back(q);
            }
            for (int e = 0; e < nd; ++e)
                src[e] = col[e].data();
            kd_insertnodes(k.t, m, src.data(), sh);
            c.log("insert %d %d-D nodes in one go%s", m, nd, sh ? ", shuffled" : "");
        }
        checktree(c, k, want, !sh, got);
        for (int y = 0; y < 3; ++y) {
            double q[MAXD] = { 10.3 + 217 * y, 141.1 - 43 * y, 3.25 };
            checknearest(c, k, got, q);
            checkrange(c, k, got, q, 2.5 + 4 * y, y % 2, false);
        }
        c.state(mix(idx, 4242));
    }, 4);
    /* points of all kinds at all places of a bulk insertion */
    int nb = thorough ? 6 : 5;
    add(F, strf("all bulk insertions of %d points of 7 kinds, after 0 or 2 others", nb), ipow(7, nb) * 3 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int nd = 1 + d.take(3), sh = d.take(2), n0 = d.take(2) * 2;
        KT k(nd);
        MV want, got;
        for (int z = 0; z < n0; ++z) {
            MP m;
            for (int e = 0; e < nd; ++e)
                m.x[e] = 3 - 2 * z + e;
            m.orig = 70 + z;
            kd_insertnode(k.t, m.x, m.orig);
            want.push_back(m);
        }
        std::vector<vd> col(nd);
        std::vector<double*> src(nd);
        std::string what;
        for (int z = 0; z < nb; ++z) {
            int o = d.take(7);
            static const double X[4][3] = { {-5, 9, 0}, {8, -7, 2}, {0, 0, -3}, {1, 11, 10} };
            MP m;
            m.orig = want.size() * 0 + n0 + z;
            for (int e = 0; e < nd; ++e) {
                m.x[e] = o < 4 ? X[o][e] : o == 4 ? NAN : o == 5 ? (e == nd - 1 ? INFINITY : 1) : e == 0 ? -INFINITY : 2;
                col[e].push_back(m.x[e]);
            }
            if (o < 4)
                want.push_back(m);
            what += (char) ('0' + o);
        }
        for (int e = 0; e < nd; ++e)
            src[e] = col[e].data();
        kd_insertnodes(k.t, nb, src.data(), sh);
        c.log("insert %s in one go into %d-D tree%s", what.c_str(), nd, sh ? ", shuffled" : "");
        checktree(c, k, want, !sh, got);
        if (!want.empty()) {
            double q[MAXD] = { 1.25, 1.5, 1.75 };
            checknearest(c, k, got, q);
        }
        c.state(idx);
    });
    /* two trees at a time do not disturb each other */
    add(F, "interleaved insertions into two trees", ipow(12, 4), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        KT a(2), b(1);
        MV wa, wb, got;
        bool ia = true, ib = true;
        int s1 = 0, s2 = 1000;
        for (int z = 0; z < 4; ++z) {
            int o = d.take(12), w = o % 2;
            static const int ops[6] = { 0, 1, 3, 8, 11, 13 };
            op(c, w ? b : a, w ? wb : wa, ops[o / 2], w ? ib : ia, w ? s2 : s1);
        }
        checktree(c, a, wa, ia, got);
        double q[MAXD] = { 20.3, 11.1, 0 };
        checknearest(c, a, got, q);
        checktree(c, b, wb, ib, got);
        checknearest(c, b, got, q);
        c.state(idx);
    });
}
