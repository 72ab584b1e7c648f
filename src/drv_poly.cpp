/* polylines: boundary extraction, compaction, containment, editing, area, I/O */
#include "util.h"
#include "sizes.h"
using namespace mc;

typedef std::pair<double, double> P;
typedef std::vector<P> VP;

static VP getp(poly* p)
{
    VP v;
    for (int k = 0; k < p->n; ++k)
        v.push_back(P(p->x[k], p->y[k]));
    return v;
}
static std::string pstr(const VP& v)
{
    std::string s = "{";
    for (size_t k = 0; k < v.size() && k < 60; ++k)
        s += strf("%s(%.12g,%.12g)", k ? " " : "", v[k].first, v[k].second);
    return s + (v.size() > 60 ? " ...}" : "}");
}
static poly* mkpoly(const VP& v)
{
    poly* p = poly_create();
    for (auto& q : v)
        poly_addpoint(p, q.first, q.second);
    return p;
}
static void split(const VP& v, vd& x, vd& y)
{
    x.clear();
    y.clear();
    for (auto& q : v) {
        x.push_back(q.first);
        y.push_back(q.second);
    }
}
/* the observable state of a polyline agrees with a list of points */
static void checkpoly(Ctx& c, poly* p, const VP& m, const char* what)
{
    VP v = getp(p);
    MC_CHECK(c, v == m, "%s: polyline is %s, expected %s", what, pstr(v).c_str(), pstr(m).c_str());
    MC_CHECK(c, p->nallocated >= p->n, "%s: %d points but room for %d", what, p->n, p->nallocated);
    if (!m.empty()) {
        double a = 1e300, b = -1e300, d = 1e300, e = -1e300;
        for (auto& q : m) {
            a = std::min(a, q.first);
            b = std::max(b, q.first);
            d = std::min(d, q.second);
            e = std::max(e, q.second);
        }
        MC_CHECK(c, p->e.xmin == a && p->e.xmax == b && p->e.ymin == d && p->e.ymax == e, "%s: extent [%g,%g]x[%g,%g], expected [%g,%g]x[%g,%g] for %s", what, p->e.xmin, p->e.xmax, p->e.ymin, p->e.ymax, a, b, d, e, pstr(m).c_str());
    } else
        MC_CHECK(c, poly_containspoint(p, 0.0, 0.0) == 0, "%s: an empty polyline contains (0,0)", what);
}
static bool closed(const VP& v)
{
    return v.size() > 1 && v.front() == v.back();
}

/* a comb of T teeth, 4*T vertices, counter-clockwise; teeth are one wide and between them the comb is one high */
static VP comb(int T)
{
    VP v = { P(0, 0), P(2 * T - 1, 0) };
    for (int k = T - 1; k >= 0; --k) {
        v.push_back(P(2 * k + 1, 5 + k % 7));
        v.push_back(P(2 * k, 5 + k % 7));
        if (k > 0) {
            v.push_back(P(2 * k, 1));
            v.push_back(P(2 * k - 1, 1));
        }
    }
    return v;
}
static bool incomb(int T, double x, double y)
{
    if (x < 0 || x > 2 * T - 1 || y < 0)
        return false;
    int k = (int) floor(x);
    double top = k % 2 == 0 ? 5 + (k / 2) % 7 : 1;
    if (x == k && k % 2 == 1)
        top = 5 + (k / 2) % 7;          /* the right side of a tooth */
    return y <= top;
}
/* numbers of vertices beyond 16 bits */
static const int BIGN[] = { 1000, 1024, 4096, 32764, 32768, 32772, 65532, 65536, 65540, 70000, 131072, 140000 };
enum { NBIGN = 12 };

/* ------------------------------------------------------------------ C14 */
/* edit histories against a list of points */
static const P PTS[] = { P(0, 0), P(1, 0), P(0, 1), P(5, 3) };

static void m_resample(VP& m, double eps)
{
    if (m.size() <= 1)
        return;
    VP r(1, m[0]);
    for (size_t k = 1; k < m.size(); ++k)
        if (hypot(m[k].first - r.back().first, m[k].second - r.back().second) > eps)
            r.push_back(m[k]);
    m = r;
}
static void m_despike(VP& m, double d)
{
    if (m.size() <= 1)
        return;
    VP r(1, m[0]);
    for (size_t k = 1; k < m.size(); ++k)
        if (hypot(m[k].first - r.back().first, m[k].second - r.back().second) < d)
            r.push_back(m[k]);
    m = r;
}

enum { NOPS = 26 };
static bool apply(Ctx& c, int op, poly*& p, VP& m)
{
    int n = (int) m.size();
    char what[64];
    auto at = [&](int idx, P q) {
        snprintf(what, sizeof what, "insert (%g,%g) at %d of %d", q.first, q.second, idx, n);
        poly_addpointat(p, idx, q.first, q.second);
        if (idx >= 0)
            m.insert(idx >= n ? m.end() : m.begin() + idx, q);
    };
    auto del = [&](int idx) {
        snprintf(what, sizeof what, "delete point %d of %d", idx, n);
        poly_deletepoint(p, idx);
        m.erase(m.begin() + idx);
    };
    auto app = [&](int k) {
        snprintf(what, sizeof what, "append %d points to %d", k, n);
        VP q;
        for (int t = 0; t < k; ++t)
            q.push_back(P(t % 3 - 1, 10 - t));
        PL src(mkpoly(q));
        poly_append(p, src);
        checkpoly(c, src, q, "appended polyline");
        m.insert(m.end(), q.begin(), q.end());
    };
    switch (op) {
    case 0: case 1: case 2: case 3:
        snprintf(what, sizeof what, "add (%g,%g)", PTS[op].first, PTS[op].second);
        poly_addpoint(p, PTS[op].first, PTS[op].second);
        m.push_back(PTS[op]);
        break;
    case 4: at(0, P(0, 1)); break;
    case 5: at(1, P(1, 0)); break;
    case 6: at(n - 1, P(-3, 7)); break;
    case 7: at(n / 2, P(0, 0)); break;
    case 8: at(n + 3, P(2, -8)); break;
    case 9: at(-1, P(4, 4)); break;
    case 10: if (n == 0) return false; del(0); break;
    case 11: if (n == 0) return false; del(n - 1); break;
    case 12: if (n < 3) return false; del(n / 2); break;
    case 13: app(0); break;
    case 14: app(1); break;
    case 15: app(5); break;
    case 16: app(17); break;
    case 17:
        snprintf(what, sizeof what, "clear");
        poly_clear(p);
        m.clear();
        break;
    case 18:
        snprintf(what, sizeof what, "close");
        poly_close(p);
        if (!m.empty() && !closed(m))
            m.push_back(P(m[0]));
        break;
    case 19:
        snprintf(what, sizeof what, "reverse");
        poly_reverse(p);
        std::reverse(m.begin(), m.end());
        break;
    case 20:{
            snprintf(what, sizeof what, "copy");
            poly* q = poly_copy(p);
            checkpoly(c, p, m, "original after copying");
            /* the copy must be deep: wreck and destroy the original */
            for (int k = 0; k < p->n; ++k)
                p->x[k] = p->y[k] = -12345;
            poly_addpoint(p, 1, 1);
            poly_destroy(p);
            p = q;
            break;
        }
    case 21:
        snprintf(what, sizeof what, "resample 0.5");
        poly_resample(p, 0.5);
        m_resample(m, 0.5);
        break;
    case 22:
        snprintf(what, sizeof what, "despike 100");
        poly_despike(p, 100.0);
        m_despike(m, 100.0);
        break;
    case 23:
        snprintf(what, sizeof what, "despike 2");
        poly_despike(p, 2.0);
        m_despike(m, 2.0);
        break;
    case 24:{
            snprintf(what, sizeof what, "NaN point");
            bool q = quits([&] { poly_addpoint(p, NAN, 1.0); });
            MC_CHECK(c, q, "NaN point accepted");
            break;
        }
    case 25:{
            P q = PTS[(n + 1) % 4];
            snprintf(what, sizeof what, "find (%g,%g)", q.first, q.second);
            int e = -1;
            for (int k = 0; k < n && e < 0; ++k)
                if (m[k] == q)
                    e = k;
            int g = poly_findindex(p, q.first, q.second);
            MC_CHECK(c, g == e, "find (%g,%g) in %s: %d, expected %d", q.first, q.second, pstr(m).c_str(), g, e);
            MC_CHECK(c, !!poly_isclosed(p, 1e-15) == closed(m), "isclosed of %s: %d", pstr(m).c_str(), poly_isclosed(p, 1e-15));
            break;
        }
    }
    c.step();
    c.log("  %s -> %d points", what, (int) m.size());
    checkpoly(c, p, m, what);
    return true;
}
static uint64_t hashp(const VP& m)
{
    uint64_t h = m.size();
    for (auto& q : m)
        h = hashd(hashd(h, q.first), q.second);
    return h;
}

PROPERTY(C14)
{
    int depth = thorough ? 4 : 3;
    static const int init[] = { 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64 };
    int ni = sizeof init / sizeof init[0];
    uint64_t n = ni;
    for (int k = 0; k < depth; ++k)
        n *= NOPS;
    add(F, strf("all edit sequences of length %d from %d initial sizes", depth, ni), n, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ops[8];
        for (int k = 0; k < depth; ++k)
            ops[depth - 1 - k] = d.take(NOPS);
        int n0 = init[d.take(ni)];
        VP m;
        for (int k = 0; k < n0; ++k)
            m.push_back(P((k * 7) % 5 - 1, (k * 3) % 4));
        poly* p = mkpoly(m);
        checkpoly(c, p, m, "initial");
        c.log("initial %s", pstr(m).c_str());
        for (int k = 0; k < depth; ++k) {
            if (!apply(c, ops[k], p, m))
                break;
            c.state(hashp(m));
        }
        poly_destroy(p);
    });
    /* deeper sequences over the growing operations only, from the empty polyline */
    static const int gops[] = { 0, 3, 4, 5, 6, 11, 15, 20 };
    int gd = thorough ? 7 : 5;
    uint64_t gn = 1;
    for (int k = 0; k < gd; ++k)
        gn *= 8;
    add(F, strf("growing/shrinking sequences of length %d", gd), gn, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        VP m;
        poly* p = poly_create();
        for (int k = 0; k < gd; ++k) {
            if (!apply(c, gops[d.take(8)], p, m))
                break;
            c.state(hashp(m));
        }
        poly_destroy(p);
    });
    /* long histories: every pattern of two (three) operations repeated many times */
    {
        int per = thorough ? 3 : 2;
        uint64_t pn = 1;
        for (int k = 0; k < per; ++k)
            pn *= NOPS;
        add(F, strf("periodic histories of 240 operations, all patterns of %d", per), pn, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int ops[3];
            for (int k = 0; k < per; ++k)
                ops[k] = d.take(NOPS);
            VP m;
            poly* p = poly_create();
            for (int k = 0; k < 240; ++k) {
                int op = ops[k % per];
                if (!apply(c, op, p, m))
                    apply(c, 3, p, m);
                if (m.size() > 2000)
                    apply(c, 17, p, m);
            }
            c.state(hashp(m));
            poly_destroy(p);
        });
    }
    /* large polylines: every operation, then growth again; appending all sizes to all sizes */
    add(F, "large polylines: all operations", 7 * NOPS * 4, [](Ctx& c, uint64_t idx) {
        static const int N0[] = { 1023, 1024, 4097, 32768, 65535, 65536, 70001 };
        static const int second[] = { 3, 15, 20, 19 };
        Dec d(idx);
        int n0 = N0[d.take(7)], op = d.take(NOPS), op2 = second[d.take(4)];
        VP m;
        for (int k = 0; k < n0; ++k)
            m.push_back(P((k * 7) % 65537 - 100, (k * 3) % 40009));
        poly* p = mkpoly(m);
        checkpoly(c, p, m, "initial");
        if (apply(c, op, p, m))
            apply(c, op2, p, m);
        c.state(hashp(m));
        poly_destroy(p);
    });
    add(F, "appending large polylines", 12 * 12, [](Ctx& c, uint64_t idx) {
        static const int S[] = { 0, 1, 2, 3, 4, 999, 1024, 32767, 32768, 65535, 65536, 70001 };
        VP a, b;
        for (int k = 0; k < S[idx % 12]; ++k)
            a.push_back(P(k, k % 1000));
        for (int k = 0; k < S[idx / 12]; ++k)
            b.push_back(P(-k, 2000 + k % 999));
        PL p(mkpoly(a)), q(mkpoly(b));
        poly_append(p, q);
        VP e = a;
        e.insert(e.end(), b.begin(), b.end());
        c.step();
        c.state(mix(idx, 9000));
        checkpoly(c, p, e, "append");
        checkpoly(c, q, b, "appended");
        PL r(poly_copy(p));
        poly_addpoint(p, 1, 1);
        checkpoly(c, r, e, "copy");
        e.push_back(P(1, 1));
        checkpoly(c, p, e, "add after append");
    });
    /* resampling / spike removal on all short walks along a line */
    uint64_t w = thorough ? 279936 : 46656;     /* 6^7, 6^6 */
    add(F, "resample/despike on walks", w, [=](Ctx& c, uint64_t idx) {
        static const double xs[] = { 0, 1, 1.5, 4, 10, -2 };
        Dec d(idx);
        VP m;
        int len = 1 + (int) (idx % (thorough ? 7 : 6));
        for (int k = 0; k < len; ++k)
            m.push_back(P(xs[d.take(6)], 2.0));
        static const double thr[] = { 0.25, 0.75, 1.25, 2.25, 3.25, 20 };
        for (double t : thr) {
            for (int op = 0; op < 2; ++op) {
                VP e = m;
                PL p(mkpoly(m));
                if (op) {
                    poly_resample(p, t);
                    m_resample(e, t);
                } else {
                    poly_despike(p, t);
                    m_despike(e, t);
                }
                c.step();
                c.log("%s(%g) of %s", op ? "resample" : "despike", t, pstr(m).c_str());
                checkpoly(c, p, e, op ? "resample" : "despike");
                c.state(mix(hashp(m), (uint64_t) (t * 8 + op)));
            }
        }
    });
}

/* ------------------------------------------------- lattice polygon tools */
static int64_t cross(P a, P b, P p)
{
    return (int64_t) ((b.first - a.first) * (p.second - a.second) - (b.second - a.second) * (p.first - a.first));
}
static int sgn(int64_t v)
{
    return (v > 0) - (v < 0);
}
static bool onseg(P a, P b, P p)
{
    return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
}
static bool segx(P a, P b, P e, P f)
{
    int d1 = sgn(cross(a, b, e)), d2 = sgn(cross(a, b, f)), d3 = sgn(cross(e, f, a)), d4 = sgn(cross(e, f, b));
    if (d1 * d2 < 0 && d3 * d4 < 0)
        return true;
    return onseg(a, b, e) || onseg(a, b, f) || onseg(e, f, a) || onseg(e, f, b);
}
/* a simple polygon (vertices may be collinear), integer coordinates */
static bool simple(const VP& v)
{
    size_t n = v.size();
    if (n < 3)
        return false;
    for (size_t a = 0; a < n; ++a)
        for (size_t b = a + 1; b < n; ++b)
            if (v[a] == v[b])
                return false;
    for (size_t a = 0; a < n; ++a) {
        size_t a1 = (a + 1) % n;
        size_t a2 = (a + 2) % n;
        if (onseg(v[a], v[a1], v[a2]) || onseg(v[a1], v[a2], v[a]))
            return false;
        for (size_t b = a + 2; b < n; ++b) {
            size_t b1 = (b + 1) % n;
            if (b1 == a)
                continue;
            if (segx(v[a], v[a1], v[b], v[b1]))
                return false;
        }
    }
    return true;
}
/* decodes an index into a sequence of lattice points; the first vertex is the
 * smallest one (rotations are explored explicitly) */
static VP lattice(uint64_t idx, int len, int W, int H)
{
    Dec d(idx);
    VP v;
    for (int k = 0; k < len; ++k) {
        int q = d.take(W * H);
        v.push_back(P(q % W, q / W));
    }
    return v;
}
static bool canonical(const VP& v)
{
    for (size_t k = 1; k < v.size(); ++k)
        if (v[k] <= v[0])
            return false;
    return true;
}
static uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}
struct LatFam {
    int len, W, H;
};
static std::vector<LatFam> latfams(bool thorough)
{
    std::vector<LatFam> v = { {3, 4, 4}, {4, 4, 4}, {5, 3, 3}, {6, 3, 3}, {5, 4, 3} };
    if (thorough) {
        v.push_back({7, 3, 3});
        v.push_back({5, 4, 4});
        v.push_back({6, 4, 3});
    }
    return v;
}

/* ------------------------------------------------------------------ C13 */
/* exact even-odd rule in integers: 1 inside or on an edge, 0 outside; coordinates are multiples of 2^-41 below 2^6.
 * (the computations of the code are exact too where a query point is on an edge: lattice points, or next to them on
 * axis-parallel and diagonal edges) */
static int pipexact(const VP& v, double px, double py)
{
    typedef __int128 I;
    auto I_ = [](double a) { return (I) (long long) (a * 2199023255552.0); };
    auto S_ = [](I a) { return a < 0 ? -1 : a > 0; };
    I qx = I_(px), qy = I_(py);
    bool in = false;
    for (size_t s = 0; s < v.size(); ++s) {
        const P &A = v[s], &B = v[(s + 1) % v.size()];
        I x1 = I_(A.first) - qx, y1 = I_(A.second) - qy, x2 = I_(B.first) - qx, y2 = I_(B.second) - qy;
        I cr = x1 * y2 - x2 * y1;
        if (cr == 0 && S_(x1) * S_(x2) <= 0 && S_(y1) * S_(y2) <= 0)
            return 1;
        if ((y1 > 0) != (y2 > 0) && (y2 > y1 ? cr > 0 : cr < 0))
            in = !in;
    }
    return in;
}
static const double NEAR = 9.094947017729282379150390625e-13;      /* 2^-40 */
struct Xf { double sc, ox, oy; };
enum { NXF = 8 };
static const Xf XF[NXF] = { {1, 0, 0}, {0.25, -1, -0.5}, {1024, 524288, -65536}, {0.0009765625, 147, -43},
    {9.094947017729282379150390625e-13, 0, 0}, {1099511627776.0, 0, 0}, {4.909093465297727e-91, 0, 0}, {2.037035976334486e90, 0, 0} };
static void containsall(Ctx& c, const VP& v, const Xf& xf, int W, int H)
{
    double scale = xf.sc, ox = xf.ox, oy = xf.oy;
    VP t;
    for (auto& q : v)
        t.push_back(P(ox + scale * q.first, oy + scale * q.second));
    vd x, y;
    split(v, x, y);
    /* representations of the same polygon: open, closed, reversed, rotated, with a repeated vertex */
    for (int rep = 0; rep < 5; ++rep) {
        VP u = t;
        switch (rep) {
        case 1: u.push_back(u[0]); break;
        case 2: std::reverse(u.begin(), u.end()); break;
        case 3: std::rotate(u.begin(), u.begin() + u.size() / 2, u.end()); break;
        case 4: u.insert(u.begin() + 1, u[1]); break;
        }
        PL p(mkpoly(u));
        for (int b = -1; b <= 2 * H; ++b)
            for (int a = -1; a <= 2 * W; ++a) {
                double qx = a / 2.0, qy = b / 2.0;
                auto one = [&](double px, double py) {
                    int e = pipexact(v, px, py);
                    int r = poly_containspoint(p, ox + scale * px, oy + scale * py);
                    c.step();
                    MC_CHECK(c, (r != 0) == (e == 1), "point (%.17g,%.17g) vs polygon %s: got %d, expected %d", ox + scale * px, oy + scale * py, pstr(u).c_str(), r, e);
                };
                one(qx, qy);
                one(qx + 0.125, qy + 0.375);
                /* just beside the edges and vertices */
                if (ox == 0 && oy == 0 && pip(x, y, qx, qy, 1e-9) == 2)
                    for (int k = 0; k < 9; ++k)
                        if (k != 4)
                            one(qx + (k % 3 - 1) * NEAR, qy + (k / 3 - 1) * NEAR);
            }
        checkpoly(c, p, u, "containment test altered the polyline");
    }
}

/* edits for C13 (C14 has all of them) */
enum { NEOP = 12 };
static void edit(Ctx& c, int op, poly*& p, VP& m)
{
    int n = (int) m.size();
    switch (op) {
    case 0: poly_addpoint(p, 1, 3); m.push_back(P(1, 3)); break;
    case 1: poly_addpoint(p, 3, 1); m.push_back(P(3, 1)); break;
    case 2: poly_addpointat(p, n / 2, 2, 2); m.insert(m.begin() + n / 2, P(2, 2)); break;
    case 3: poly_addpointat(p, 0, 1, 2); m.insert(m.begin(), P(1, 2)); break;
    case 4: if (n > 0) { poly_deletepoint(p, 0); m.erase(m.begin()); } break;
    case 5: if (n > 0) { poly_deletepoint(p, n - 1); m.pop_back(); } break;
    case 6: if (n > 2) { poly_deletepoint(p, 1); m.erase(m.begin() + 1); } break;
    case 7: poly_reverse(p); std::reverse(m.begin(), m.end()); break;
    case 8: poly_close(p); if (!m.empty() && !closed(m)) m.push_back(P(m[0])); break;
    case 9: poly_clear(p); m.clear(); break;
    case 10:{                   /* another polygon in the same place */
            VP r;
            for (auto& q : m)
                r.push_back(P(q.second, 3 - q.first));
            poly_destroy(p);
            p = mkpoly(r);
            m = r;
            break;
        }
    case 11:{
            PL q(mkpoly({ P(0, 2), P(2, 0) }));
            poly_append(p, q);
            m.push_back(P(0, 2));
            m.push_back(P(2, 0));
            break;
        }
    }
    c.step();
    c.log("edit %d: %s", op, pstr(m).c_str());
}
/* the queries are in the reverse order every second time: the last query before an edit is the first one after it */
static void ask(Ctx& c, poly* p, const VP& m, int z)
{
    static const P Q[] = { P(0.5, 0.5), P(2.5, 2.5), P(1, 1), P(2, 0.5), P(0.5, 2.5), P(3, 1.5), P(1.5, 1.75) };
    for (int k = 0; k < 7; ++k) {
        const P& q = Q[z % 2 ? 6 - k : k];
        int e = m.size() < 2 ? 0 : pipexact(m, q.first, q.second), r = poly_containspoint(p, q.first, q.second);
        c.step();
        MC_CHECK(c, (r != 0) == (e == 1), "point (%g,%g) vs polygon %s: got %d, expected %d", q.first, q.second, pstr(m).c_str(), r, e);
    }
}
PROPERTY(C13)
{
    for (auto lf : latfams(thorough)) {
        uint64_t n = ipow(lf.W * lf.H, lf.len);
        bool every = thorough || n < 100000;
        add(F, strf("simple %d-gons on a %dx%d lattice%s", lf.len, lf.W, lf.H, every ? ", all scales" : ""), n * (every ? NXF : 1), [=](Ctx& c, uint64_t idx) {
            int k = (int) (idx % NXF);
            VP v = lattice(every ? idx / NXF : idx, lf.len, lf.W, lf.H);
            if (!canonical(v) || !simple(v))
                return;
            c.log("polygon %s", pstr(v).c_str());
            c.state(mix(hashp(v), k));
            containsall(c, v, XF[k], lf.W, lf.H);
        });
    }
    /* polygons that cross or touch themselves, with repeated and redundant vertices */
    struct WalkFam {
        int len, W, H;
        bool every;
    };
    std::vector<WalkFam> walks = { {2, 4, 3, true}, {3, 3, 3, true}, {4, 3, 3, true}, {5, 3, 3, thorough}, {4, 4, 4, thorough} };
    if (thorough)
        walks.push_back({6, 3, 3, false});
    for (auto w : walks) {
        uint64_t n = ipow(w.W * w.H, w.len);
        add(F, strf("all closed walks of %d points on a %dx%d lattice%s", w.len, w.W, w.H, w.every ? ", all scales" : ""), n * (w.every ? NXF : 1), [=](Ctx& c, uint64_t idx) {
            int k = (int) (w.every ? idx % NXF : (idx ^ idx >> 3 ^ idx >> 6) % NXF);
            VP v = lattice(w.every ? idx / NXF : idx, w.len, w.W, w.H);
            if (simple(v))
                return;         /* above */
            c.log("walk %s", pstr(v).c_str());
            c.state(mix(hashp(v), k));
            containsall(c, v, XF[k], w.W, w.H);
        });
    }
    /* queries between edits: the answer is that for the present points */
    {
        int depth = thorough ? 5 : 4;
        add(F, strf("queries between edits, all sequences of %d edits", depth), 6 * ipow(NEOP, depth), [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            static const VP init[6] = {
                { P(0, 0), P(3, 0), P(3, 3), P(0, 3) }, { P(0, 0), P(3, 0), P(0, 3) }, { P(0, 0), P(0, 3), P(3, 3), P(3, 0), P(0, 0) },
                { P(0, 0), P(3, 0), P(3, 3), P(1, 1), P(0, 3) }, { P(0, 0), P(0, 1), P(1, 1), P(1, 0) }, {}
            };
            int a = d.take(6);
            VP m = init[a];
            poly* p = mkpoly(m);
            c.log("initial %s", pstr(m).c_str());
            c.state(mix(hashp(m), depth));
            ask(c, p, m, 0);
            for (int k = 0; k < depth; ++k) {
                int op = d.take(NEOP);
                edit(c, op, p, m);
                c.state(mix(hashp(m), depth - 1 - k));
                ask(c, p, m, k + 1);
            }
            poly_destroy(p);
        });
    }
    /* degenerate polylines contain nothing (0, 1 points) */
    add(F, "points and far queries", 64, [](Ctx& c, uint64_t idx) {
        VP v;
        for (uint64_t k = 0; k < idx % 4; ++k)
            v.push_back(P(k == 2 ? 1 : (double) k * 2, k == 2 ? 2 : 0));
        PL p(mkpoly(v));
        static const double far[] = { -1e300, -1e9, -3, 7, 1e9, 1e300, INFINITY, -INFINITY };
        double f = far[idx / 8];
        c.step(3);
        MC_CHECK(c, !poly_containspoint(p, f, 0.0) && !poly_containspoint(p, 0.5, f) && !poly_containspoint(p, f, f), "%s contains a far point %g", pstr(v).c_str(), f);
        if (v.size() < 2)
            MC_CHECK(c, !poly_containspoint(p, 0, 0), "a polyline of %d points contains (0,0)", (int) v.size());
        MC_CHECK(c, !poly_containspoint(p, NAN, 0.25) && !poly_containspoint(p, 0.25, NAN), "%s contains NaN", pstr(v).c_str());
        c.state(idx);
    });
    /* combs with many vertices, open and closed, both directions, several starting vertices */
    add(F, "combs with many vertices", (NBIGN + 140) * 2 * 2 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kn = d.take(NBIGN + 140), n = kn < NBIGN ? BIGN[kn] : 8 + 4 * (kn - NBIGN), T = n / 4, rev = d.take(2), cl = d.take(2), rot = d.take(3);
        VP v = comb(T);
        if (rev)
            std::reverse(v.begin(), v.end());
        std::rotate(v.begin(), v.begin() + (rot == 0 ? 0 : rot == 1 ? n / 2 + 1 : n - 1), v.end());
        if (cl)
            v.push_back(P(v[0]));
        PL p(mkpoly(v));
        c.log("comb of %d teeth", T);
        c.state(mix(idx, 9000));
        int every = std::max(1, T / 17);
        for (int k = 0; k < T; k = k + every < T || k == T - 1 ? k + every : T - 1)
            for (int a = -1; a < 4; ++a)
                for (double y : { -0.5, 0.0, 0.5, 1.0, 3.0, 5.0, 5.5, 8.0, 11.0, 11.5 }) {
                    double x = 2 * k + a * 0.5;
                    int r = poly_containspoint(p, x, y);
                    c.step();
                    MC_CHECK(c, !!r == incomb(T, x, y), "comb of %d teeth: point (%g,%g): got %d, expected %d", T, x, y, r, (int) incomb(T, x, y));
                }
    }, 4);
    add(F, "regular polygons of any number of vertices", 800 * 2 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int rev = d.take(2), cl = d.take(2), n = 3 + (int) d.v;
        VP v;
        for (int k = 0; k < n; ++k)
            v.push_back(P(3 + 2 * cos(2 * M_PI * k / n), -1 + 2 * sin(2 * M_PI * k / n)));
        if (rev)
            std::reverse(v.begin(), v.end());
        if (cl)
            v.push_back(P(v[0]));
        PL p(mkpoly(v));
        c.log("regular %d-gon", n);
        c.state(idx);
        double r1 = 2 * cos(M_PI / n);      /* radius of the inscribed circle */
        for (int k = 0; k < n * 2; ++k) {
            double a = M_PI * k / n + 1e-3 / n, ca = cos(a), sa = sin(a);
            for (double f : { 0.5, 1 - 1e-4 }) {
                c.step(2);
                MC_CHECK(c, poly_containspoint(p, 3 + r1 * f * ca, -1 + r1 * f * sa), "regular %d-gon: (%g,%g) is inside", n, 3 + r1 * f * ca, -1 + r1 * f * sa);
                MC_CHECK(c, !poly_containspoint(p, 3 + 2 / f * ca, -1 + 2 / f * sa), "regular %d-gon: (%g,%g) is outside", n, 3 + 2 / f * ca, -1 + 2 / f * sa);
            }
        }
    });
    /* boundary-like polygons with many vertices */
    static std::vector<Named> big;
    big = bigshapes(thorough);
    add(F, "boundaries of large shapes", big.size() * 4, [](Ctx& c, uint64_t idx) {
        const Named& n = big[idx / 4];
        /* trace the outline in index space independently of the library: collect directed edges */
        std::map<P, P> nxt;
        auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < n.W && j < n.H && n.s[(size_t) j * n.W + i]; };
        for (int j = 0; j < n.H; ++j)
            for (int i = 0; i < n.W; ++i)
                if (at(i, j)) {
                    if (!at(i, j - 1)) nxt[P(i, j)] = P(i + 1, j);
                    if (!at(i + 1, j)) nxt[P(i + 1, j)] = P(i + 1, j + 1);
                    if (!at(i, j + 1)) nxt[P(i + 1, j + 1)] = P(i, j + 1);
                    if (!at(i - 1, j)) nxt[P(i, j + 1)] = P(i, j);
                }
        VP v;
        P q = nxt.begin()->first, q0 = q;
        do {
            v.push_back(q);
            q = nxt[q];
        } while (q != q0);
        if (v.size() != nxt.size())
            c.fail("harness: outline of %s", n.name.c_str());
        c.log("%s: %d vertices", n.name.c_str(), (int) v.size());
        double sc = (idx & 1) ? 1.0 : 880.0, ox = (idx & 1) ? 0 : 513252.5, oy = (idx & 2) ? 0 : 5186890.25;
        VP u;
        for (auto& s : v)
            u.push_back(P(ox + sc * s.first, oy + sc * s.second));
        PL p(mkpoly(u));
        for (int j = -1; j <= n.H; ++j)
            for (int i = -1; i <= n.W; ++i)
                for (int k = 0; k < 3; ++k) {
                    double px = i + 0.5 - 0.375 * (k == 1), py = j + 0.5 + 0.375 * (k == 2);
                    int r = poly_containspoint(p, ox + sc * px, oy + sc * py);
                    c.step();
                    MC_CHECK(c, !!r == !!at(i, j), "%s: point (%g,%g) of the outline: got %d, expected %d", n.name.c_str(), px, py, r, at(i, j));
                }
        for (int j = 0; j <= n.H; ++j)
            for (int i = 0; i <= n.W; ++i) {
                bool e = at(i, j) || at(i - 1, j) || at(i, j - 1) || at(i - 1, j - 1);
                int r = poly_containspoint(p, ox + sc * i, oy + sc * j);
                c.step();
                MC_CHECK(c, !!r == e, "%s: lattice point (%d,%d): got %d, expected %d", n.name.c_str(), i, j, r, (int) e);
            }
        c.state(mix(hashs(n.name.c_str()), idx));
    }, 1);
}

/* ------------------------------------------------------------------ C15 */
PROPERTY(C15)
{
    std::vector<LatFam> L = { {1, 3, 3}, {2, 3, 3}, {3, 3, 3}, {4, 3, 3}, {5, 3, 3}, {3, 4, 4} };
    if (thorough)
        L.push_back({6, 3, 3});
    for (auto lf : L)
        add(F, strf("area/closure of all %d-point polylines on %dx%d", lf.len, lf.W, lf.H), ipow(lf.W * lf.H, lf.len), [=](Ctx& c, uint64_t idx) {
            VP v = lattice(idx, lf.len, lf.W, lf.H);
            static const double sc[] = { 1, 0.25, 1024, 1, 9.094947017729282379150390625e-13, 1099511627776.0, 4.909093465297727e-91, 2.037035976334486e90 };
            static const double ox[] = { 0, -2, 524288, -3, 0, 0, 0, 0 }, oy[] = { 0, 7, -65536, -5, 0, 0, 0, 0 };
            int s = (int) ((idx ^ idx >> 3 ^ idx >> 6 ^ idx >> 9) % 8);
            VP t;
            for (auto& q : v)
                t.push_back(P(ox[s] + sc[s] * q.first, oy[s] + sc[s] * q.second));
            vd x, y;
            split(t, x, y);
            double e = shoelace(x, y), tol = 1e-9 * sc[s] * sc[s];
            c.state(hashp(t));
            c.log("%s area %g", pstr(t).c_str(), e);
            {
                PL p(mkpoly(t));
                double a = poly_area(p);
                c.step(3);
                MC_CHECK(c, close_(a, e, tol), "area of %s: %.17g, expected %.17g", pstr(t).c_str(), a, e);
                MC_CHECK(c, !!poly_isclosed(p, 0.0) == closed(t), "isclosed(%s) = %d", pstr(t).c_str(), poly_isclosed(p, 0.0));
                bool near = t.size() > 1 && fabs(t[0].first - t.back().first) <= 1.25 * sc[s] && fabs(t[0].second - t.back().second) <= 1.25 * sc[s];
                MC_CHECK(c, !!poly_isclosed(p, 1.25 * sc[s]) == near, "isclosed(%s, %g) = %d", pstr(t).c_str(), 1.25 * sc[s], poly_isclosed(p, 1.25 * sc[s]));
                for (size_t k = 0; k < t.size(); ++k) {
                    int g = poly_findindex(p, t[k].first, t[k].second);
                    size_t f = std::find(t.begin(), t.end(), t[k]) - t.begin();
                    MC_CHECK(c, g == (int) f, "findindex in %s: %d, expected %d", pstr(t).c_str(), g, (int) f);
                }
                MC_CHECK(c, poly_findindex(p, t[0].first, t[0].second + 0.125 * sc[s]) == -1 && poly_findindex(p, t[0].first + 0.125 * sc[s], t[0].second) == -1, "findindex reports a point that is not in %s", pstr(t).c_str());
                checkpoly(c, p, t, "queries altered the polyline");
                /* closing does not change the area, reversing negates it */
                poly_close(p);
                VP t2 = t;
                if (!closed(t2))
                    t2.push_back(P(t2[0]));
                checkpoly(c, p, t2, "close");
                MC_CHECK(c, close_(poly_area(p), e, tol), "area of closed %s: %.17g, expected %.17g", pstr(t).c_str(), poly_area(p), e);
                poly_reverse(p);
                MC_CHECK(c, close_(poly_area(p), -e, tol), "area of reversed %s: %.17g, expected %.17g", pstr(t).c_str(), poly_area(p), -e);
                c.step(3);
            }
        });
    {
        int depth = thorough ? 5 : 4;
        add(F, strf("area and closedness between edits, all sequences of %d edits", depth), 6 * ipow(NEOP, depth), [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            static const VP init[6] = {
                { P(0, 0), P(3, 0), P(3, 3), P(0, 3) }, { P(0, 0), P(3, 0), P(0, 3) }, { P(0, 0), P(0, 3), P(3, 3), P(3, 0), P(0, 0) },
                { P(0, 0), P(3, 0), P(3, 3), P(1, 1), P(0, 3) }, { P(0, 0), P(0, 1), P(1, 1), P(1, 0) }, {}
            };
            VP m = init[d.take(6)];
            poly* p = mkpoly(m);
            c.log("initial %s", pstr(m).c_str());
            for (int k = 0;; ++k) {
                vd x, y;
                split(m, x, y);
                double e = m.empty() ? 0 : shoelace(x, y);
                c.step(3);
                c.state(mix(hashp(m), depth - k));
                MC_CHECK(c, close_(poly_area(p), e, 1e-9), "area of %s: %.17g, expected %.17g", pstr(m).c_str(), poly_area(p), e);
                MC_CHECK(c, !!poly_isclosed(p, 1e-9) == closed(m), "isclosed(%s) = %d", pstr(m).c_str(), poly_isclosed(p, 1e-9));
                bool near = m.size() > 1 && fabs(m[0].first - m.back().first) <= 1.5 && fabs(m[0].second - m.back().second) <= 1.5;
                MC_CHECK(c, !!poly_isclosed(p, 1.5) == near, "isclosed(%s, 1.5) = %d", pstr(m).c_str(), poly_isclosed(p, 1.5));
                if (k == depth)
                    break;
                edit(c, d.take(NEOP), p, m);
            }
            poly_destroy(p);
        });
    }
    /* far from the origin: the area is as accurate as the coordinates are */
    for (int len = 3; len <= (thorough ? 5 : 4); ++len)
        add(F, strf("area of all %d-point polylines on 3x3, small and far from the origin", len), ipow(9, len) * 8, [=](Ctx& c, uint64_t idx) {
            static const double sc[] = { 0.0078125, 9.5367431640625e-07, 1, 9.5367431640625e-07 };
            static const double ox[] = { 513252.5, 513252.5, -1099511627776.0, 1073741824.0 }, oy[] = { 5186890.25, 5186890.25, 1099511627776.0, -4194304.0 };
            Dec d(idx);
            int s = d.take(4), close = d.take(2);
            VP v = lattice(d.v, len, 3, 3), t;
            vd x, y;
            split(v, x, y);
            double e = shoelace(x, y) * sc[s] * sc[s];
            for (auto& q : v)
                t.push_back(P(ox[s] + sc[s] * q.first, oy[s] + sc[s] * q.second));
            double M = std::max(fabs(ox[s]), fabs(oy[s])), tol = 16.0 * len * 2.220446049250313e-16 * M * 3 * sc[s];
            PL p(mkpoly(t));
            if (close)
                poly_close(p);
            double a = poly_area(p);
            c.step(2);
            c.state(mix(hashp(t), close));
            MC_CHECK(c, close_(a, e, tol), "area of %s: %.17g, expected %.17g", pstr(t).c_str(), a, e);
            poly_reverse(p);
            a = poly_area(p);
            MC_CHECK(c, close_(a, -e, tol), "area of reversed %s: %.17g, expected %.17g", pstr(t).c_str(), a, -e);
        });
    add(F, "polylines that are empty, from the beginning or after edits", 64, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int n = d.take(8), way = d.take(4), twice = d.take(2);
        PL p(poly_create());
        for (int k = 0; k < n; ++k)
            poly_addpoint(p, k + 0.5, 2 * k);
        if (way == 0)
            poly_clear(p);
        else
            while (((poly*) p)->n > 0)
                poly_deletepoint(p, way == 1 ? 0 : way == 2 ? ((poly*) p)->n - 1 : ((poly*) p)->n / 2);
        c.state(idx);
        c.step(3);
        for (int k = 0; k <= twice; ++k) {
            poly_close(p);
            MC_CHECK(c, ((poly*) p)->n == 0, "closing an empty polyline gives %d points", ((poly*) p)->n);
        }
        MC_CHECK(c, poly_area(p) == 0, "area of an empty polyline: %g", poly_area(p));
        poly_addpoint(p, 1.5, -2.5);
        MC_CHECK(c, ((poly*) p)->n == 1 && ((poly*) p)->x[0] == 1.5 && ((poly*) p)->y[0] == -2.5, "a point added to an emptied polyline");
    });
    add(F, "combs with many vertices", (NBIGN + 140) * 2 * 2 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kn = d.take(NBIGN + 140), n = kn < NBIGN ? BIGN[kn] : 8 + 4 * (kn - NBIGN), T = n / 4, rev = d.take(2), cl = d.take(2), off = d.take(2);
        VP v = comb(T);
        double e = T - 1;
        for (int k = 0; k < T; ++k)
            e += 5 + k % 7;
        if (rev)
            std::reverse(v.begin(), v.end());
        if (cl)
            v.push_back(P(v[0]));
        if (off)
            for (auto& q : v) {
                q.first += 4096;
                q.second -= 1024;
            }
        PL p(mkpoly(v));
        double a = poly_area(p);
        c.step();
        c.state(mix(idx, 9000));
        MC_CHECK(c, close_(a, rev ? -e : e, 1e-9 * e), "comb of %d teeth: area %.15g, expected %.15g", T, a, rev ? -e : e);
        MC_CHECK(c, !!poly_isclosed(p, 0.125) == !!cl, "comb of %d teeth: closed %d", T, poly_isclosed(p, 0.125));
        poly_close(p);
        if (!cl)
            v.push_back(P(v[0]));
        checkpoly(c, p, v, "closed comb");
        MC_CHECK(c, close_(poly_area(p), rev ? -e : e, 1e-9 * e), "closed comb of %d teeth: area %.15g, expected %.15g", T, poly_area(p), rev ? -e : e);
    });
    add(F, "regular polygons with many vertices", thorough ? 4000 : 1200, [](Ctx& c, uint64_t idx) {
        int n = 3 + (int) idx / 2;
        VP v;
        for (int k = 0; k < n; ++k)
            v.push_back(P(3 + 2 * cos(2 * M_PI * k / n), -1 + 2 * sin(2 * M_PI * k / n)));
        if (idx & 1)
            std::reverse(v.begin(), v.end());
        PL p(mkpoly(v));
        double e = 2.0 * n * sin(2 * M_PI / n) * ((idx & 1) ? -1 : 1);
        MC_CHECK(c, close_(poly_area(p), e, 1e-9), "area of a regular %d-gon: %.15g, expected %.15g", n, poly_area(p), e);
        c.step();
        c.state(idx);
    });
}

/* ------------------------------------------------------------------ C11 */
/* the boundary polygon of a grid */
static void checkboundary(Ctx& c, const G& g, const Shape& s, const char* name, int stride = 1)
{
    int W = g.nx - 1, H = g.ny - 1;
    Arr x(g, true), y(g, false);
    PL ij(poly_formboundij(W, H, x.p));
    PL xy(poly_formbound(W, H, x.p, y.p));
    c.step(2);
    for (int j = 0; j <= H; ++j)
        for (int i = 0; i <= W; ++i)
            MC_CHECK(c, same(x.p[j][i], g.X(i, j)) && same(y.p[j][i], g.Y(i, j)), "%s: forming the boundary altered node (%d,%d)", name, i, j);
    auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < W && j < H && s[(size_t) j * W + i]; };
    /* expected set of boundary edges */
    std::set<std::pair<P, P>> edges;
    double area = 0;
    int ncell = 0;
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i)
            if (at(i, j)) {
                ++ncell;
                if (!at(i, j - 1)) edges.insert({P(i, j), P(i + 1, j)});
                if (!at(i, j + 1)) edges.insert({P(i, j + 1), P(i + 1, j + 1)});
                if (!at(i - 1, j)) edges.insert({P(i, j), P(i, j + 1)});
                if (!at(i + 1, j)) edges.insert({P(i + 1, j), P(i + 1, j + 1)});
                vd cx = { g.X(i, j), g.X(i + 1, j), g.X(i + 1, j + 1), g.X(i, j + 1) }, cy = { g.Y(i, j), g.Y(i + 1, j), g.Y(i + 1, j + 1), g.Y(i, j + 1) };
                area += shoelace(cx, cy);      /* (signed: cells may be folded over) */
            }
    area = fabs(area);
    VP v = getp(ij), w = getp(xy);
    checkpoly(c, ij, v, "index-space boundary");
    checkpoly(c, xy, w, "boundary");
    if (ncell == 0) {
        MC_CHECK(c, v.empty() && w.empty(), "%s: non-empty boundary of an empty grid", name);
        return;
    }
    MC_CHECK(c, closed(v) && closed(w), "%s: boundary is not closed: %s", name, pstr(v).c_str());
    MC_CHECK(c, v.size() == edges.size() + 1, "%s: the boundary has %d vertices, expected %d: %s", name, (int) v.size(), (int) edges.size() + 1, pstr(v).c_str());
    MC_CHECK(c, v.size() == w.size(), "%s: boundaries in index and physical space have %d and %d vertices", name, (int) v.size(), (int) w.size());
    for (size_t k = 0; k + 1 < v.size(); ++k) {
        P a = std::min(v[k], v[k + 1]), b = std::max(v[k], v[k + 1]);
        auto it = edges.find({a, b});
        MC_CHECK(c, it != edges.end(), "%s: segment (%g,%g)-(%g,%g) is not an edge between a valid cell and the outside (or is walked twice); boundary %s", name, a.first, a.second, b.first, b.second, pstr(v).c_str());
        edges.erase(it);
    }
    double ai = fabs(poly_area(ij)), ax = fabs(poly_area(xy));
    c.step(2);
    MC_CHECK(c, close_(ai, ncell, 1e-6), "%s: boundary encloses %g cells of %d", name, ai, ncell);
    double m = 0;
    for (auto& q : w)
        m = std::max(m, std::max(fabs(q.first), fabs(q.second)));
    MC_CHECK(c, close_(ax, area, 1e-9 * area + 1e-13 * m * m * v.size()), "%s: boundary encloses area %.12g, cells sum up to %.12g", name, ax, area);
    /* the physical boundary consists of the same nodes in the same order (up to start and direction) */
    VP e;
    for (auto& q : v)
        e.push_back(P(g.X((int) q.first, (int) q.second), g.Y((int) q.first, (int) q.second)));
    if (e != w) {
        e.pop_back();
        w.pop_back();
        bool ok = false;
        for (int r = 0; r < 2 && !ok; ++r) {
            for (size_t k = 0; k < e.size() && !ok; ++k) {
                VP t = e;
                std::rotate(t.begin(), t.begin() + k, t.end());
                ok = t == w;
            }
            std::reverse(e.begin(), e.end());
        }
        MC_CHECK(c, ok, "%s: the boundary in physical space %s does not follow the one in index space %s", name, pstr(w).c_str(), pstr(v).c_str());
    }
    /* every valid cell is inside, every other one is outside (in index space) */
    for (int j = -1; j <= H; ++j)
        for (int i = -1; i <= W; ++i) {
            if (stride > 1 && (j * W + i) % stride != 0)
                continue;
            int r = poly_containspoint(ij, i + 0.5, j + 0.5);
            c.step();
            MC_CHECK(c, !!r == !!at(i, j), "%s: centre of cell (%d,%d) vs index-space boundary: %d, expected %d", name, i, j, r, (int) at(i, j));
        }
}

static std::vector<std::pair<int, int>> shapedims(bool thorough)
{
    std::vector<std::pair<int, int>> v = { {1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {2, 4}, {5, 2}, {2, 5}, {6, 1}, {1, 6}, {4, 3}, {3, 4}, {4, 4}, {5, 3}, {3, 5} };
    if (thorough) {
        v.push_back({5, 4});
        v.push_back({4, 5});
        v.push_back({6, 3});
        v.push_back({3, 6});
        v.push_back({8, 2});
        v.push_back({5, 5});
    }
    return v;
}

PROPERTY(C11)
{
    for (auto d : shapedims(thorough)) {
        int W = d.first, H = d.second;
        const std::vector<uint32_t>& sh = simpleshapes(W, H);
        static const int geos[] = { GEO_CURVI, GEO_UTM, GEO_LEFT, GEO_SMALL, GEO_FINE };
        int ng = (W * H > 16) ? 1 : (W * H > 12 && !thorough) ? 2 : 5;
        add(F, strf("all simply connected shapes of %dx%d cells", W, H), sh.size() * ng, [=, &sh](Ctx& c, uint64_t idx) {
            Shape s = shapeof(W, H, sh[idx / ng]);
            int geo = geos[idx % ng];
            G g = geogrid(W + 1, H + 1, geo);
            applyshape(g, s);
            std::string n = strf("%s %s", shstr(W, H, s).c_str(), geoname[geo]);
            c.log("%s", n.c_str());
            c.state(mix(mix(W * 100 + H, sh[idx / ng]), geo));
            checkboundary(c, g, s, n.c_str());
        });
    }
    for (auto d : rectdims(thorough)) {
        int W = d.first, H = d.second;
        const std::vector<uint64_t>& sh = rectshapes(W, H);
        add(F, strf("all simply connected unions of two rectangles of %dx%d cells, and what they leave", W, H), sh.size(), [=, &sh](Ctx& c, uint64_t idx) {
            static const int geos[] = { GEO_CURVI, GEO_FINE, GEO_UTM, GEO_LEFT };
            int geo = geos[idx % 4];
            Shape s = shapeof(W, H, sh[idx]);
            G g = geogrid(W + 1, H + 1, geo);
            applyshape(g, s);
            std::string n = strf("%s %s", shstr(W, H, s).c_str(), geoname[geo]);
            c.log("%s", n.c_str());
            c.state(mix(mix(W * 100 + H, sh[idx]), geo));
            checkboundary(c, g, s, n.c_str());
        });
    }
    /* neighbouring nodes at the same place: collapsed edges, poles */
    for (auto d : std::vector<std::pair<int, int>>(thorough ? std::vector<std::pair<int, int>>{ {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3} } : std::vector<std::pair<int, int>>{ {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3} })) {
        int W = d.first, H = d.second, ne = W * (H + 1) + H * (W + 1);
        const std::vector<uint32_t>& sh = simpleshapes(W, H);
        add(F, strf("all simply connected shapes of %dx%d cells x collapsed edges and sides", W, H), sh.size() * (ne + 8), [=, &sh](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int k = dd.take(ne + 8);
            Shape s = shapeof(W, H, sh[dd.v]);
            G g = geogrid(W + 1, H + 1, k % 2 ? GEO_CURVI : GEO_FINE);
            auto merge = [&](int i, int j, int i2, int j2) { g.set(i, j, g.X(i2, j2), g.Y(i2, j2)); };
            auto edge = [&](int q) {
                if (q < W * (H + 1))
                    merge(q % W, q / W, q % W + 1, q / W);
                else {
                    q -= W * (H + 1);
                    merge(q % (W + 1), q / (W + 1), q % (W + 1), q / (W + 1) + 1);
                }
            };
            if (k < ne)
                edge(k);
            else {
                int side = k - ne;
                if (side == 4 || side == 6)
                    edge((int) (dd.v * 5 % ne));
                for (int q = 0; q <= std::max(W, H); ++q) {
                    if (q <= W && (side == 0 || side == 2 || side == 4))
                        merge(q, 0, W, 0);
                    if (q <= W && (side == 1 || side == 2 || side == 5))
                        merge(q, H, 0, H);
                    if (q <= H && (side == 3 || side == 5))
                        merge(0, q, 0, H / 2);
                    if (q <= H && (side == 6 || side == 7))
                        merge(W, q, W, 0);
                }
            }
            applyshape(g, s);
            std::string n = strf("%s, collapsed %d", shstr(W, H, s).c_str(), k);
            c.log("%s %s", n.c_str(), gstr(g).c_str());
            c.state(mix(mix(W * 100 + H, sh[dd.v]), 5000 + k));
            checkboundary(c, g, s, n.c_str());
        });
    }
    static std::vector<Named> big;
    big = bigshapes(thorough);
    add(F, "large shapes", big.size() * GEO_ALL, [](Ctx& c, uint64_t idx) {
        const Named& n = big[idx / GEO_ALL];
        int geo = (int) (idx % GEO_ALL);
        G g = geogrid(n.W + 1, n.H + 1, geo);
        applyshape(g, n.s);
        c.log("%s %s", n.name.c_str(), geoname[geo]);
        c.state(mix(hashs(n.name.c_str()), geo));
        checkboundary(c, g, n.s, (n.name + " " + geoname[geo]).c_str());
    }, 2);
    static const struct { int W, H, how; } VL[] = { {300, 230, 0}, {256, 256, 0}, {65537, 1, 0}, {1, 70001, 0}, {2, 40000, 0}, {33000, 3, 0}, {257, 255, 1}, {300, 230, 2}, {40001, 5, 3}, {230, 301, 4} };
    add(F, "very large grids", 10 * 3, [](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_CURVI, GEO_FINE, GEO_LEFT };
        Dec d(idx);
        int z = d.take(10), geo = geos[d.take(3)], W = VL[z].W, H = VL[z].H, how = VL[z].how;
        Shape s((size_t) W * H);
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i)
                s[(size_t) j * W + i] = how == 0 ? 1 : how == 1 ? i < 90 || j >= 170 : how == 2 ? j < 5 || i % 12 < 6 : how == 3 ? j == 0 || i % 1000 < 500 : (j / 10) % 2 == 0 || ((j / 10) % 4 == 1 ? i >= W - 9 : i < 9);
        G g = geogrid(W + 1, H + 1, geo);
        applyshape(g, s);
        std::string nm = strf("very large %dx%d, shape %d, %s", W, H, how, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9000));
        checkboundary(c, g, s, nm.c_str(), 997);
    }, 1);
    add(F, "middle-sized grids", sizes(1).size() * NMIDSHAPE, [](Ctx& c, uint64_t idx) {
        static const int geos[] = { GEO_CURVI, GEO_FINE, GEO_LEFT, GEO_UTM };
        int k = (int) idx % NMIDSHAPE, W = sizes(1)[idx / NMIDSHAPE].nx, H = sizes(1)[idx / NMIDSHAPE].ny, geo = geos[(idx / NMIDSHAPE + k) % 4];
        Shape s = midshape(W, H, k);
        if (classify(W, H, s) != SH_SIMPLE)
            return;
        G g = geogrid(W + 1, H + 1, geo);
        applyshape(g, s);
        std::string nm = strf("%dx%d, shape %d, %s", W, H, k, geoname[geo]);
        c.log("%s", nm.c_str());
        c.state(mix(idx, 9500));
        checkboundary(c, g, s, nm.c_str(), W * H > 200 ? 7 : 1);
    }, 8);
    add(F, "empty grids", 36, [](Ctx& c, uint64_t idx) {
        int W = 1 + (int) idx % 6, H = 1 + (int) idx / 6;
        G g = geogrid(W + 1, H + 1, 0);
        Shape s((size_t) W * H, 0);
        applyshape(g, s);
        checkboundary(c, g, s, "empty");
        c.state(idx);
    });
}

/* ------------------------------------------------------------------ C12 */
/* reference: corners of a closed polygon = vertices that are not repeated and
 * not in between their neighbours */
static VP corners(const VP& in)
{
    VP v;
    for (auto& q : in)
        if (v.empty() || v.back() != q)
            v.push_back(q);
    while (v.size() > 1 && v.back() == v.front())
        v.pop_back();
    VP r;
    for (size_t k = 0; k < v.size(); ++k) {
        P a = v[(k + v.size() - 1) % v.size()], b = v[k], e = v[(k + 1) % v.size()];
        if (cross(a, b, e) != 0)
            r.push_back(b);
    }
    return r;
}
static bool cyclic_equal(const VP& a, const VP& b)
{
    size_t n = a.size();
    if (n != b.size())
        return false;
    for (size_t k = 0; k < n; ++k)
        if (a[k] == b[0] && std::equal(a.begin() + k, a.end(), b.begin()) && std::equal(a.begin(), a.begin() + k, b.begin() + (n - k)))
            return true;
    return n == 0;
}
static void checkcompact(Ctx& c, const VP& v, const VP& orig, double sc, double ox, double oy, const char* name, double eps = 1e-10)
{
    VP t;
    for (auto& q : v)
        t.push_back(P(ox + sc * q.first, oy + sc * q.second));
    PL p(mkpoly(t));
    poly_compact(p, eps);
    c.step();
    VP r = getp(p);
    checkpoly(c, p, r, "compacted polyline");
    if (v.size() <= 4) {
        /* small polylines may be left as they are */
        if (r == t)
            return;
    }
    VP e;
    for (auto& q : corners(orig))
        e.push_back(P(ox + sc * q.first, oy + sc * q.second));
    VP r2 = r;
    if (v.size() <= 4 && closed(r2))
        r2.pop_back();
    MC_CHECK(c, cyclic_equal(r2, e), "%s: compacting %s gives %s, expected the corners %s", name, pstr(t).c_str(), pstr(r).c_str(), pstr(e).c_str());
    vd x, y, x1, y1;
    split(t, x, y);
    split(r, x1, y1);
    double tol = 1e-9 * sc * (sc + fabs(ox) + fabs(oy));
    MC_CHECK(c, close_(poly_area(p), shoelace(x, y), tol), "%s: compacting changed the area from %g to %g", name, shoelace(x, y), poly_area(p));
    /* once more: no change of the region, still a working polyline */
    poly_compact(p, eps);
    c.step(2);
    VP r3 = getp(p);
    if (r.size() <= 4 && closed(r3))
        r3.pop_back();
    MC_CHECK(c, cyclic_equal(r3, e), "%s: compacting twice gives %s, expected %s", name, pstr(r3).c_str(), pstr(e).c_str());
    r3 = getp(p);
    for (int k = 0; k < 6; ++k) {
        poly_addpoint(p, k + 0.5, -k);
        r3.push_back(P(k + 0.5, -k));
    }
    checkpoly(c, p, r3, "adding points after compacting");
}

PROPERTY(C12)
{
    auto bounds = [&](const char* name, int W, int H, const auto& sh) {
        add(F, strf(name, W, H), sh.size() * 4, [=, &sh](Ctx& c, uint64_t idx0) {
            int how = (int) (idx0 % 4);
            uint64_t idx = idx0 / 4 * 2 + (how != 0);
            Shape s = shapeof(W, H, sh[idx / 2]);
            G g = geogrid(W + 1, H + 1, 0);
            applyshape(g, s);
            Arr x(g, true);
            PL ij(poly_formboundij(W, H, x.p));
            VP v = getp(ij);
            std::string n = shstr(W, H, s);
            c.log("%s", n.c_str());
            c.state(mix(W * 100 + H, sh[idx / 2]));
            if (idx % 2 == 0)
                checkcompact(c, v, v, 1, 0, 0, n.c_str());
            else if (how == 1)
                checkcompact(c, v, v, 512, 513252.5, 5186890.25, n.c_str());
            else if (how == 2)
                checkcompact(c, v, v, 0x1p-17, 147, -43, n.c_str());
            else
                checkcompact(c, v, v, 0x1p-26, 0, 0, n.c_str());
            /* containment is the same for the compacted polygon */
            if (idx % 2 == 0) {
                poly_compact(ij, 1e-10);
                for (int j = -1; j <= H; ++j)
                    for (int i = -1; i <= W; ++i) {
                        bool at = i >= 0 && j >= 0 && i < W && j < H && s[(size_t) j * W + i];
                        c.step();
                        MC_CHECK(c, !!poly_containspoint(ij, i + 0.5, j + 0.5) == at, "%s: cell (%d,%d) vs compacted boundary", n.c_str(), i, j);
                    }
            }
        });
    };
    for (auto d : shapedims(thorough))
        bounds("boundaries of all simply connected shapes of %dx%d cells", d.first, d.second, simpleshapes(d.first, d.second));
    for (auto d : rectdims(thorough))
        bounds("boundaries of all simply connected unions of two rectangles of %dx%d cells, and of what they leave", d.first, d.second, rectshapes(d.first, d.second));
    /* simple lattice polygons with repeated vertices, midpoints on the edges, any starting point */
    for (auto lf : latfams(thorough)) {
        if (lf.len > 6 && !thorough)
            continue;
        add(F, strf("simple %d-gons on a %dx%d lattice with redundant vertices", lf.len, lf.W, lf.H), ipow(lf.W * lf.H, lf.len), [=](Ctx& c, uint64_t idx) {
            VP v = lattice(idx, lf.len, lf.W, lf.H);
            if (!canonical(v) || !simple(v))
                return;
            c.log("polygon %s", pstr(v).c_str());
            c.state(hashp(v));
            for (auto& q : v) {
                q.first *= 2;
                q.second *= 2;
            }
            for (int var = 0; var < 6; ++var) {
                VP u;
                for (size_t k = 0; k < v.size(); ++k) {
                    P a = v[k], b = v[(k + 1) % v.size()];
                    u.push_back(a);
                    if (var & 1)
                        u.push_back(P((a.first + b.first) / 2, (a.second + b.second) / 2));
                    if (var & 2 && (k % 2 == 0))
                        u.push_back(u.back());
                    if (var == 5 && k == 1) {
                        u.push_back(u.back());
                        u.push_back(u.back());
                    }
                }
                if (var & 4)
                    std::rotate(u.begin(), u.begin() + 1 + (idx % (u.size() - 1)), u.end());
                if (var % 3 != 1)
                    u.push_back(P(u[0]));
                checkcompact(c, u, u, var == 3 ? 0.125 : 1, var == 4 ? 1000 : 0, var == 2 ? -7 : 0, "lattice polygon");
                /* other scales and tolerances */
                static const struct { double sc, ox, eps; } T[] = { {1, 0, 0}, {1, 0, 0.3}, {NEAR, 0, 0}, {NEAR, 0, NEAR * NEAR / 4}, {1048576, 0, 1e-10}, {1048576, -3e6, 1000}, {1 / 1024.0, 2, 0x1p-24}, {1 / NEAR, 0, 1},
                    {0x1p-17, 147, 1e-10}, {0x1p-20, 0, 1e-10}, {0x1p-28, 0, 1e-10} };
                auto& q = T[(idx / 3 + var) % 11];
                checkcompact(c, u, u, q.sc, q.ox, 0, "lattice polygon", q.eps);
            }
        });
    }
    /* many vertices, and from few to many redundant ones among them */
    add(F, "combs with many vertices, with redundant vertices", (NBIGN + 140) * 6 * 3 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kn = d.take(NBIGN + 140), n = kn < NBIGN ? BIGN[kn] : 8 + 4 * (kn - NBIGN), var = d.take(6), rot = d.take(3), cl = d.take(2);
        VP v = comb(n / 4), u;
        for (size_t k = 0; k < v.size(); ++k) {
            P a = v[k], b = v[(k + 1) % v.size()];
            u.push_back(a);
            bool some = var == 1 ? k % 1000 == 999 : var == 2 || var == 4 ? true : var == 3 ? k + 1 == v.size() : var == 5 ? k > v.size() - 20 : false;
            if (some && var != 4)
                u.push_back(P((a.first + b.first) / 2, (a.second + b.second) / 2));
            if (some && var >= 4)
                u.push_back(u.back());
        }
        std::rotate(u.begin(), u.begin() + (rot == 0 ? 0 : rot == 1 ? u.size() / 3 : u.size() - 1), u.end());
        if (cl)
            u.push_back(P(u[0]));
        c.log("comb of %d vertices, %zu with the redundant ones", n, u.size());
        c.state(mix(idx, 9000));
        for (auto& q : v)
            q = P(q.first * 2, q.second * 2);
        for (auto& q : u)
            q = P(q.first * 2, q.second * 2);
        checkcompact(c, u, v, 1, 0, 0, "comb");
    });
    /* degenerate input: all points coincide or lie on a line */
    add(F, "degenerate polylines", 7776, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        VP v;
        int len = 5 + (int) (idx % 3);
        for (int k = 0; k < 5; ++k) {
            int q = d.take(6);
            v.push_back(P(q < 3 ? 0 : q - 2, 2.0));
        }
        while ((int) v.size() < len)
            v.push_back(v[0]);
        PL p(mkpoly(v));
        poly_compact(p, 1e-10);
        c.step();
        VP r = getp(p);
        c.log("%s -> %s", pstr(v).c_str(), pstr(r).c_str());
        checkpoly(c, p, r, "compacted degenerate polyline");
        MC_CHECK(c, r.size() <= v.size(), "compacting added points");
        for (int k = 0; k < 9; ++k) {
            poly_addpoint(p, k + 0.5, -k);
            r.push_back(P(k + 0.5, -k));
        }
        checkpoly(c, p, r, "adding points after compacting a degenerate polyline");
        c.state(hashp(v));
    });
}

/* ------------------------------------------------------------------ C16 */
static const double VALS[] = { 0, 1, -1, 0.1, 1.0 / 3, 123456.789012345, -43.123456789012345, 1e-12, 5186890.274, -1e15, 3e-308, 1e200 };
enum { NV = sizeof VALS / sizeof VALS[0] };
static void checknear(Ctx& c, poly* p, const VP& m, const char* what)
{
    MC_CHECK(c, p->n == (int) m.size(), "%s: %d points, expected %d", what, p->n, (int) m.size());
    for (int k = 0; k < p->n; ++k)
        MC_CHECK(c, fabs(p->x[k] - m[k].first) <= 5.25e-15 * fabs(m[k].first) && fabs(p->y[k] - m[k].second) <= 5.25e-15 * fabs(m[k].second), "%s: point %d is (%.17g,%.17g), expected (%.17g,%.17g)", what, k, p->x[k], p->y[k], m[k].first, m[k].second);
    VP v = getp(p);
    checkpoly(c, p, v, what);
}

PROPERTY(C16)
{
    /* write a few polylines into a stream, read them back one by one */
    add(F, "streams of up to three polylines", thorough ? 200000 : 40000, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int sizes[] = { 1, 2, 3, 4, 5, 9, 17, 64 };
        int np = 1 + d.take(3);
        std::vector<VP> ps;
        int v0 = d.take(NV), st = 1 + d.take(5);
        for (int k = 0; k < np; ++k) {
            VP v;
            int n = sizes[d.take(8)];
            for (int t = 0; t < n; ++t)
                v.push_back(P(VALS[(v0 + t * st) % NV], VALS[(v0 + 3 + t) % NV]));
            ps.push_back(v);
        }
        FILE* f = tmpfile();
        for (auto& v : ps) {
            PL p(mkpoly(v));
            poly_write(p, f);
            checkpoly(c, p, v, "writing altered the polyline");
            c.step();
        }
        rewind(f);
        for (size_t k = 0; k < ps.size(); ++k) {
            PL p(poly_create());
            int r = poly_read(p, f);
            c.step();
            c.log("polyline %d: %d points, read %d", (int) k, (int) ps[k].size(), r);
            MC_CHECK(c, r == (int) ps[k].size(), "reading polyline %d of %d: returned %d, expected %d", (int) k, np, r, (int) ps[k].size());
            checknear(c, p, ps[k], "read polyline");
            c.state(hashp(ps[k]));
        }
        PL q(poly_create());
        MC_CHECK(c, poly_read(q, f) == 0 && q->n == 0, "reading at the end of the stream gives %d points", q->n);
        fclose(f);
    });
    /* text variants: comments, blank lines, trailing columns, terminators */
    static const char* pre[] = { "", "# comment\n", "\n", "  \t \n", "## 3\n# x\n\n", "\r\n", " \t\r\n\n", "# x\r\n\r\n", "\f\n\v\n", "#\n# y\n" };
    static const char* body[] = { "%a %b\n", "  %a\t%b\n", "%a %b 17 extra\n", "%a %b\r\n" };
    static const char* term[] = { "", "\n", "# end\n", "abc\n", "1\n", "x 1\n" };
    add(F, "text variants", 10 * 4 * 6 * 5 * 2 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        std::string s = pre[d.take(10)];
        int b = d.take(4), t = d.take(6), n = 1 + d.take(5), nonl = d.take(2), pre_n = d.take(3);
        VP m;
        std::string txt = s;
        for (int k = 0; k < n; ++k) {
            double x = VALS[(k + 3) % NV], y = VALS[(k * 5 + 1) % NV];
            m.push_back(P(x, y));
            for (const char* q = body[b]; *q; ++q)
                if (*q == '%') {
                    ++q;
                    txt += strf("%.17g", *q == 'a' ? x : y);
                } else
                    txt += *q;
        }
        if (t == 0 && nonl)
            txt.pop_back();
        txt += term[t];
        VP before;
        for (int k = 0; k < pre_n; ++k)
            before.push_back(P(k, -k));
        FILE* f = tmpfile();
        fwrite(txt.data(), 1, txt.size(), f);
        rewind(f);
        PL p(mkpoly(before));
        int r = poly_read(p, f);
        c.step();
        c.log("text \"%s\" -> %d", txt.c_str(), r);
        before.insert(before.end(), m.begin(), m.end());
        MC_CHECK(c, r == (int) before.size(), "reading \"%s\" into a polyline of %d points: returned %d, expected %d", txt.c_str(), pre_n, r, (int) before.size());
        checknear(c, p, before, "read");
        fclose(f);
        c.state(mix(hashs(txt.c_str()), pre_n));
    });
    /* long lines: comments, data, blank lines and terminators */
    add(F, "long lines", 7 * NLONGKIND * NLINELEN_POLY * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int at = d.take(7), kind = d.take(NLONGKIND), len = LINELEN[d.take(NLINELEN_POLY)], second = d.take(3);
        std::string s;
        VP m;
        if (at == 0)
            s += "#" + longline("7", "8", kind, len - 1) + "\n";
        else if (at == 1)
            s += std::string(len, kind % 2 ? ' ' : '\t') + "\n";
        for (int k = 0; k < 3; ++k) {
            P q(k + 0.5, k * k - 2.0);
            m.push_back(q);
            std::string a = strf("%.17g", q.first), b = strf("%.17g", q.second);
            s += (at == 2 + k ? longline(a.c_str(), b.c_str(), kind, len) : a + " " + b) + "\n";
        }
        if (at == 5)
            s += "#" + longline("3", "4", kind, len - 1) + "\n";
        else if (at == 6)
            s += std::string(len, 'x') + "\n";
        else
            s += "#\n";
        if (second)
            s += "5 6\n7 8\n9 10\n#\n";
        FILE* f = tmpfile();
        fwrite(s.data(), 1, s.size(), f);
        rewind(f);
        PL p(poly_create());
        int r = poly_read(p, f);
        c.step();
        c.log("text \"%s\" -> %d", s.c_str(), r);
        MC_CHECK(c, r == 3, "reading \"%s\": returned %d, expected 3", s.c_str(), r);
        checknear(c, p, m, "read");
        PL q(poly_create());
        r = poly_read(q, f);
        MC_CHECK(c, r == (second ? 3 : 0), "reading the next polyline of \"%s\": returned %d", s.c_str(), r);
        if (second)
            checknear(c, q, VP{ P(5, 6), P(7, 8), P(9, 10) }, "next");
        fclose(f);
        c.state(hashs(s.c_str()));
    });
    add(F, "all characters", 255 * 4 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ch = 1 + d.take(255), ctx = d.take(4), at = d.take(3);
        static const char* CX[4][2] = { {"a", "b"}, {"%", "d"}, {"", ""}, {"x 1 2 ", " 3 4"} };
        std::string q = std::string(CX[ctx][0]) + (char) ch + CX[ctx][1];
        std::string s = at == 0 ? "#" + q + "\n1 2\n3 4\n#" + q + "\n5 6\n" : at == 1 ? "1 2 " + q + "\n3 4\t" + q + "\n# e\n5 6 " + q + "\n" : "1 2\n3 4\nx" + q + "\n5 6\n";
        FILE* f = tmpfile();
        fwrite(s.data(), 1, s.size(), f);
        rewind(f);
        c.log("text \"%s\"", s.c_str());
        c.state(hashs(s.c_str()));
        if (ch == '\n') {
            fclose(f);
            return;
        }
        PL p(poly_create()), r(poly_create());
        int n = poly_read(p, f), m = poly_read(r, f);
        c.step(2);
        MC_CHECK(c, n == 2 && m == 1, "reading \"%s\": %d and %d points, expected 2 and 1", s.c_str(), n, m);
        checknear(c, p, VP{ P(1, 2), P(3, 4) }, "read");
        checknear(c, r, VP{ P(5, 6) }, "read");
        fclose(f);
    });
    add(F, "large polylines", 38 + 1200, [](Ctx& c, uint64_t idx) {
        static const int n[] = { 1, 3, 4, 5, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 10007, 32768, 65535, 65536, 65537, 70001, 131072, 140001 };
        VP v;
        for (int k = 0, m = idx < 38 ? n[idx / 2] : 1 + (int) (idx - 38) / 2; k < m; ++k)
            v.push_back(P(500000.0 + k * 1.001, -43.0 - k / 3.0));
        PL p(mkpoly(v));
        FILE* f = tmpfile();
        if (idx % 2)
            fputs("# leading comment\n", f);
        poly_write(p, f);
        fputs("# another one\n7 8\n9 10\n", f);
        rewind(f);
        PL q(poly_create());
        int r = poly_read(q, f);
        MC_CHECK(c, r == (int) v.size(), "read %d points of %d", r, (int) v.size());
        checknear(c, q, v, "large polyline");
        PL q2(poly_create());
        r = poly_read(q2, f);
        MC_CHECK(c, r == 2, "read %d points of the next polyline, which has 2", r);
        checknear(c, q2, VP{ P(7, 8), P(9, 10) }, "the polyline after a large one");
        fclose(f);
        c.step(2);
        c.state(idx);
    });
}
