/* the command-line tools, run as they are
 * BINDIR: plain
 * BINDIR: san for C33 */
#include "gridmodel.h"
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
using namespace mc;

typedef std::vector<std::string> SV;
typedef std::pair<double, double> P;
static const char* TNAME[] = { "none", "DD", "CE", "CO" };

static std::string join(const SV& v, const char* sep = " ")
{
    std::string s;
    for (auto& a : v)
        s += (s.empty() ? "" : sep) + a;
    return s;
}
static std::string file(const char* name)
{
    return scratch() + "/" + name;
}
static std::string put(const char* name, const std::string& data)
{
    std::string p = file(name);
    writefile(p, data);
    return p;
}
/* runs a tool; want: expected exit status */
static Out tool(Ctx& c, const SV& av, const std::string& in, int want)
{
    if (c.tracing)
        c.log("$ %s\n< %s", join(av).c_str(), in.substr(0, 1500).c_str());
    Out o = runtool(av, &in);
    c.step();
    if (c.tracing)
        c.log("status %d\nstdout: %s\nstderr: %s", o.status, o.out.substr(0, 1500).c_str(), o.err.substr(0, 1500).c_str());
    MC_CHECK(c, o.status == want, "%s: exit status %d, expected %d; stderr: %s", join(av).c_str(), o.status, want, o.err.substr(0, 300).c_str());
    if (want == 1)
        MC_CHECK(c, o.err.find("error") != std::string::npos, "%s: fails without an error message", join(av).c_str());
    return o;
}
/* all subsets of n elements with up to k members, and their complements if asked for */
static std::vector<int> subsets(int n, int k, bool compl_ = false)
{
    std::vector<int> v;
    for (int m = 0; m < 1 << n; ++m) {
        int b = __builtin_popcount((unsigned) m);
        if (b <= k || (compl_ && n - b <= k))
            v.push_back(m);
    }
    return v;
}
static double maxabs(const G& g)
{
    double M = 1e-300;
    for (size_t k = 0; k < g.x.size(); ++k)
        if (!std::isnan(g.x[k]))
            M = std::max(M, std::max(fabs(g.x[k]), fabs(g.y[k])));
    return M;
}
/* ct: 0 both, 1 X only, 2 Y only */
static void expectout(Ctx& c, const std::string& out, const G& want, int ct, const char* what, double rtol)
{
    G got;
    MC_CHECK(c, parsegrid(out, got, ct == 0 ? 2 : 1), "%s: malformed output:\n%s", what, out.substr(0, 600).c_str());
    MC_CHECK(c, got.nx == want.nx && got.ny == want.ny, "%s: output of %d x %d, expected %d x %d", what, got.nx, got.ny, want.nx, want.ny);
    double tol = rtol * maxabs(want);
    for (size_t k = 0; k < want.x.size(); ++k) {
        double wx = want.x[k], wy = want.y[k];
        if (std::isnan(wx) || std::isnan(wy))
            wx = wy = NAN;
        bool good = ct == 0 ? close_(got.x[k], wx, tol) && close_(got.y[k], wy, tol) : close_(got.x[k], ct == 1 ? wx : wy, tol);
        MC_CHECK(c, good, "%s: output node %d is (%.15g,%.15g), expected (%.15g,%.15g)", what, (int) k, got.x[k], got.y[k], wx, wy);
    }
}
static void addtype(SV& av, const char* opt, int t, bool dflt_dd = true, bool lower = false)
{
    if (t == NT_DD && dflt_dd && !lower)
        return;                 /* the default */
    av.push_back(opt);
    std::string s = TNAME[t];
    if (lower)
        for (auto& ch : s)
            ch = (char) tolower(ch);
    av.push_back(s);
}
/* a double density grid around the given corner shape */
static G ddgrid(int W, int H, const Shape& s, int geo)
{
    G co = geogrid(W + 1, H + 1, geo);
    applyshape(co, s);
    G g = geogrid(2 * W + 1, 2 * H + 1, geo);
    for (int j = 0; j <= H; ++j)
        for (int i = 0; i <= W; ++i)
            if (!co.ok(i, j))
                g.kill(2 * i, 2 * j);
    return g;
}

/* ------------------------------------------------------------ C09 insertgrid */
static G modinsert(const G& m, const G& s, int i0, int j0, bool merge)
{
    /* the smallest grid that holds both; at a negative position it is the master that is shifted */
    int mi = std::max(0, -i0), mj = std::max(0, -j0);
    i0 += mi;
    j0 += mj;
    G r(std::max(mi + m.nx, i0 + s.nx), std::max(mj + m.ny, j0 + s.ny));
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i) {
            bool ins = s.in(i - i0, j - j0);
            if (ins && merge && !s.ok(i - i0, j - j0))
                ins = false;
            if (ins)
                r.set(i, j, s.X(i - i0, j - j0), s.Y(i - i0, j - j0));
            else if (m.in(i - mi, j - mj))
                r.set(i, j, m.X(i - mi, j - mj), m.Y(i - mi, j - mj));
            else
                r.kill(i, j);
        }
    return r;
}
static void checkinsert(Ctx& c, const G& m, const G& s, int i0, int j0, bool merge, int t, int order)
{
    std::string f1 = put("master", gridtext(m)), f2 = put("slave", gridtext(s));
    SV av = { "insertgrid" }, opt;
    if (merge)
        opt.push_back("-m");
    if (t != NT_NONE) {
        opt.push_back("-i");
        opt.push_back(TNAME[t]);
    }
    SV pos = { f1, f2, strf("%d", i0), strf("%d", j0) };
    if (order == 0) {
        av.insert(av.end(), pos.begin(), pos.end());
        av.insert(av.end(), opt.begin(), opt.end());
    } else if (order == 1) {
        av.insert(av.end(), opt.begin(), opt.end());
        av.insert(av.end(), pos.begin(), pos.end());
    } else {                    /* master from standard input */
        pos[0] = "-";
        av.insert(av.end(), pos.begin(), pos.end());
        av.insert(av.end(), opt.begin(), opt.end());
    }
    G want = modinsert(m, s, i0, j0, merge);
    std::string what = strf("insert %dx%d at (%d,%d) of %dx%d%s type %s [master %s slave %s]", s.nx, s.ny, i0, j0, m.nx, m.ny, merge ? " merging" : "", TNAME[t], vstr(m).c_str(), vstr(s).c_str());
    c.state(hashs(what.c_str()));
    if (t == NT_DD && (want.nx % 2 == 0 || want.ny % 2 == 0)) {
        tool(c, av, order == 2 ? gridtext(m) : "", 1);
        return;
    }
    Out o = tool(c, av, order == 2 ? gridtext(m) : "", 0);
    expectout(c, o.out, modvalid(want, (NODETYPE) t), 0, what.c_str(), 1e-14);
}
static G slavegrid(int nx, int ny, uint64_t m)
{
    G s(nx, ny);
    for (size_t k = 0; k < s.x.size(); ++k) {
        s.x[k] = 1000.5 + k;
        s.y[k] = -2000.25 - k;
    }
    kill(s, m);
    return s;
}
PROPERTY(C09)
{
    int mx = thorough ? 4 : 3, sx = thorough ? 3 : 2, lo = thorough ? -5 : -4, rx = (thorough ? 6 : 5) - lo;
    uint64_t n = (uint64_t) mx * mx * sx * sx * rx * rx * 2;
    add(F, strf("all sizes up to %dx%d and %dx%d, all positions from %d to %d", mx, mx, sx, sx, lo, rx + lo - 1), n * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = 1 + d.take(mx), b = 1 + d.take(mx), e = 1 + d.take(sx), f = 1 + d.take(sx), i0 = lo + d.take(rx), j0 = lo + d.take(rx), merge = d.take(2), nan = d.take(2);
        G m = geogrid(a, b, GEO_CURVI);
        if (nan)
            kill(m, 0x5aa5 & ((1ULL << (a * b)) - 1));
        checkinsert(c, m, slavegrid(e, f, nan ? 0x2 : 0), i0, j0, merge, NT_NONE, (int) (idx / 7 % 3));
    });
    add(F, "all patterns of missing nodes, 3x3 master, 2x2 slave", 512ULL * 16 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int merge = d.take(2), s = d.take(16), m = d.take(512);
        static const int pos[][2] = { {1, 1}, {0, 0}, {2, 1}, {1, 2}, {0, 1}, {3, 2}, {-1, 0}, {1, -1}, {-1, -1} };
        const int* p = pos[(idx / 5) % 9];
        checkinsert(c, pattern(3, 3, m, GEO_AFFINE), slavegrid(2, 2, s), p[0], p[1], merge, NT_NONE, 0);
    });
    /* merging holds for every relative position: all positions for selected patterns */
    add(F, "all positions, overlapping gaps", 64ULL * 36 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int merge = d.take(2), i0 = d.take(6) - 2, j0 = d.take(6) - 2, m = d.take(8), s = d.take(8);
        static const int MP[8] = { 0, 0x1ff, 0x010, 0x007, 0x124, 0x111, 0x0aa, 0x1ef }, SPt[8] = { 0, 1, 2, 4, 8, 15, 9, 7 };
        checkinsert(c, pattern(3, 3, MP[m], GEO_RECTI), slavegrid(2, 2, SPt[s]), i0, j0, merge, NT_NONE, 1);
    });
    /* typed grids: all sets of up to one (two) missing corners of the master, all single missing nodes of the slave */
    static std::vector<int> few;
    few = subsets(9, thorough ? 2 : 1);
    int nf = (int) few.size();
    add(F, "typed grids: the result is validated", (uint64_t) nf * 10 * 3 * 7 * 7 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int t = T[d.take(3)], i0 = d.take(7) - 2, j0 = d.take(7) - 2, merge = d.take(2), sl = d.take(10), mm = few[d.v];
        G m = t == NT_DD ? pattern(5, 5, ddmask(5, 5, mm, 0, 0), GEO_AFFINE) : pattern(3, 3, mm, GEO_AFFINE);
        checkinsert(c, m, slavegrid(3, 3, sl ? 1ULL << (sl - 1) : 0), i0, j0, merge, t, 0);
    });
    /* nodes of the slave that share one of their coordinates, or both, with the nodes of the master they replace */
    add(F, "overlapping nodes with equal coordinates", 81ULL * 25 * 2 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int merge = d.take(2), dead = d.take(2), i0 = d.take(5) - 1, j0 = d.take(5) - 1;
        G m = geogrid(3, 3, GEO_CURVI), s = slavegrid(2, 2, 0);
        if (dead)
            kill(m, 0x11);
        for (int k = 0; k < 4; ++k) {
            int f = d.take(3), i = i0 + k % 2, j = j0 + k / 2;
            if (!m.ok(i, j))
                continue;
            if (f != 1)
                s.x[k] = m.X(i, j);
            if (f != 0)
                s.y[k] = m.Y(i, j) + (f == 2 && dead ? 1e-9 : 0);
        }
        checkinsert(c, m, s, i0, j0, merge, NT_NONE, (int) (idx / 11 % 3));
    });
    /* sizes beyond 16-bit counts: large masters, far positions, large slaves */
    static const int FAR[][2] = { {0, 0}, {1, 1}, {255, 1}, {65530, 0}, {0, 65534}, {65536, 2}, {3, 65536}, {300, 229}, {-1, -1}, {-255, 1}, {-65536, 0}, {2, -65535} };
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * 3 * (mid ? 4 : 12 * 2) * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int MF[4] = { 0, 1, 8, 9 };
        int l = d.take(sizes(mid).size()), pat = d.take(3), f = mid ? MF[d.take(4)] : d.take(12), merge = mid ? (int) (idx / 3 % 2) : d.take(2), swap = d.take(2);
        static const int PAT[3] = { 0, 1, 5 };
        G a = largegrid(sizes(mid)[l].nx, sizes(mid)[l].ny, PAT[pat], GEO_AFFINE), b = slavegrid(3, 2, pat == 1 ? 0x2 : 0);
        int i0 = FAR[f][0], j0 = FAR[f][1];
        double area = ((double) std::max(swap ? 3 : a.nx, i0 + (swap ? a.nx : 3)) + std::max(0, -i0)) * ((double) std::max(swap ? 2 : a.ny, j0 + (swap ? a.ny : 2)) + std::max(0, -j0));
        if (area > 6e5)
            return;
        checkinsert(c, swap ? b : a, swap ? a : b, i0, j0, merge, pat == 1 ? NT_DD : NT_NONE, (int) (idx % 3));
    }, mid ? 0 : 1);
    /* positions for which the grid would have more nodes than an int can count, however the sums are formed */
    static const int HUGEP[] = { INT_MAX, INT_MAX - 1, INT_MAX - 2, -INT_MAX, -INT_MAX + 1, -INT_MAX + 2, 2000000000, -2000000000, 1073741824, -1073741824, 715827883, 65536, -65536, 46341, -46341, 32768, 1000000, -1000000, 0, 1, -1 };
    const int NH = (int) (sizeof(HUGEP) / sizeof(int));
    add(F, "positions out of reach", (uint64_t) NH * NH * 3 * 3 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int64_t i0 = HUGEP[d.take(NH)], j0 = HUGEP[d.take(NH)];
        int sm = d.take(3), ss = d.take(3), merge = d.take(2);
        static const int SZ[3][2] = { {2, 2}, {1, 3}, {3, 1} };
        int a = SZ[sm][0], b = SZ[sm][1], e = SZ[ss][0], f = SZ[ss][1];
        __int128 nx = std::max<int64_t>(0, -i0) + std::max<int64_t>(a, i0 + e), ny = std::max<int64_t>(0, -j0) + std::max<int64_t>(b, j0 + f);
        if (nx * ny <= INT_MAX)
            return;             /* could be made, given the memory */
        std::string f1 = put("master", gridtext(geogrid(a, b, GEO_AFFINE))), f2 = put("slave", gridtext(slavegrid(e, f, 0)));
        SV av = { "insertgrid", f1, f2, strf("%d", (int) i0), strf("%d", (int) j0) };
        if (merge)
            av.push_back("-m");
        if (idx % 4 == 1) {
            av.push_back("-i");
            av.push_back(TNAME[NT_COR]);
        }
        c.state(mix(hashs(join(av).c_str()), mix((uint64_t) i0, (uint64_t) j0)));
        Out o = tool(c, av, "", 1);
        MC_CHECK(c, o.out.empty(), "%s: an impossible grid, yet output: %s", join(av).c_str(), o.out.substr(0, 200).c_str());
    });
}

/* -------------------------------------------------------------- C10 setbathy */
PROPERTY(C10)
{
    static const int R[][2] = { {INT_MIN, INT_MAX}, {0, 0}, {1, 1}, {0, 1}, {1, 2}, {2, 2}, {-1, 0}, {1, 7}, {2, 1}, {5, 9}, {-3, -1}, {0, 2} };
    const int NR = 12;
    int mx = thorough ? 4 : 3;
    auto go = [](Ctx& c, int nx, int ny, const int* ri, const int* rj, int off, int dim, int trail, int kind, int cr) {
        SV data, pre, post;
        for (int k = 0; k < off; ++k)
            pre.push_back(k == 0 ? "first line 1 2 3" : k == 1 ? "## 9 x 9" : "");
        for (int k = 0; k < nx * ny; ++k)
            data.push_back(kind == 0 ? strf("%d.5", k) : kind == 1 ? (k % 3 == 0 ? "NaN" : k % 3 == 1 ? "" : strf("# %d", k)) : strf("%d  some text\t%d", k, -k));
        for (int k = 0; k < trail; ++k)
            post.push_back((nx + 2 * ny + k) % 6 == 0 ? "" : (nx + 2 * ny + k) % 6 == 1 ? "# comment" : (nx + 2 * ny + k) % 6 == 2 ? "3.25" : (nx + 2 * ny + k) % 6 == 3 ? " \t" : strf("trailing %d", k));
        std::string in, want;
        for (auto& s : pre) {
            in += s + "\n";
            want += s + "\n";
        }
        if (!dim)
            in += strf("## %d x %d\n", nx, ny);
        const char* z = kind == 0 ? "-99.75" : kind == 1 ? "NaN" : "a b";
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i) {
                in += data[(size_t) j * nx + i] + "\n";
                bool hit = i >= ri[0] && i <= ri[1] && j >= rj[0] && j <= rj[1];
                want += (hit ? std::string(z) : data[(size_t) j * nx + i]) + "\n";
            }
        for (auto& s : post) {
            in += s + "\n";
            want += s + "\n";
        }
        if (cr) {               /* the last line may be incomplete; a value is always a full line */
            bool hit = post.empty() && nx - 1 >= ri[0] && nx - 1 <= ri[1] && ny - 1 >= rj[0] && ny - 1 <= rj[1];
            if (!post.empty() || !data.back().empty()) {
                in.pop_back();
                if (!hit)
                    want.pop_back();
            }
        }
        SV av = { "setbathy" };
        if (ri[0] != INT_MIN) {
            av.push_back("-i");
            av.push_back(strf("%d:%d", ri[0], ri[1]));
        }
        if (rj[0] != INT_MIN) {
            av.push_back("-j");
            av.push_back(strf("%d:%d", rj[0], rj[1]));
        }
        if (dim) {
            av.push_back("-d");
            av.push_back(strf("%dx%d", nx, ny));
        }
        if (off) {
            av.push_back("-o");
            av.push_back(strf("%d", off));
        }
        av.push_back("-z");
        av.push_back(z);
        bool st = (nx + ny + off) % 2 == 0;
        av.push_back(st ? "-" : put("bathy", in));
        c.state(mix(hashs(in.c_str()), hashs(join(av).substr(0, 60).c_str())));
        Out o = tool(c, av, st ? in : "", 0);
        size_t q = 0;
        while (q < o.out.size() && q < want.size() && o.out[q] == want[q])
            ++q;
        size_t q0 = q > 500 ? q - 100 : 0;
        MC_CHECK(c, o.out == want, "%s: output of %dx%d values, from character %zu:\n%s\nexpected\n%s", join(av).c_str(), nx, ny, q0, o.out.substr(q0, 1000).c_str(), want.substr(q0, 1000).c_str());
    };
    add(F, strf("all sizes up to %dx%d, all pairs of index ranges", mx, mx), (uint64_t) mx * mx * NR * NR * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int dim = d.take(2), a = d.take(NR), b = d.take(NR), nx = 1 + d.take(mx), ny = 1 + d.take(mx);
        go(c, nx, ny, R[a], R[b], (int) (idx / 3 % 3), dim, (int) (idx / 5 % 3), (int) (idx / 7 % 3), (int) (idx / 11 % 2));
    });
    add(F, "all layouts of the file: offset, header, trailing lines, contents", 4ULL * 2 * 4 * 3 * 2 * 9 * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int off = d.take(4), dim = d.take(2), trail = d.take(4), kind = d.take(3), cr = d.take(2), nx = 1 + d.take(3), ny = 1 + d.take(3), r = d.take(4);
        static const int RI[4] = { 0, 3, 8, 4 }, RJ[4] = { 2, 0, 3, 1 };
        go(c, nx, ny, R[RI[r]], R[RJ[r]], off, dim, trail, kind, cr);
    });
    /* sizes beyond 16-bit counts */
    static const int BIGR[][2] = { {INT_MIN, INT_MAX}, {0, 0}, {255, 257}, {65535, 65536}, {65536, 70000}, {32767, 32768}, {229, 229}, {1, 65537} };
    add(F, "large files", 6ULL * 8 * 8 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int SZ[][2] = { {300, 230}, {1, 70001}, {70001, 1}, {257, 256}, {65537, 2}, {3, 32769} };
        int z = d.take(6), a = d.take(8), b = d.take(8), dim = d.take(2);
        go(c, SZ[z][0], SZ[z][1], BIGR[a], BIGR[b], (int) (idx % 2), dim, 1, 0, 0);
    }, 4);
    add(F, SIZENAME[1], sizes(1).size() * 8 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(1).size()), nx = sizes(1)[l].nx, ny = sizes(1)[l].ny, k = d.take(8), dim = d.take(2);
        static const int ALL[2] = { INT_MIN, INT_MAX };
        int RR[8][2] = { {0, 0}, {nx - 1, nx - 1}, {ny - 1, ny - 1}, {nx / 2, nx - 2}, {ny / 3, ny - 1}, {1, 2}, {31, 32}, {63, 66} };
        const int* ri = k == 0 ? RR[0] : k == 1 ? RR[1] : k == 2 ? ALL : k == 3 ? RR[3] : k == 4 ? RR[5] : k == 5 ? RR[6] : k == 6 ? RR[7] : RR[3];
        const int* rj = k == 0 ? ALL : k == 1 ? RR[2] : k == 2 ? RR[2] : k == 3 ? RR[4] : k == 4 ? RR[6] : k == 5 ? RR[5] : k == 6 ? ALL : RR[7];
        go(c, nx, ny, ri, rj, (int) (idx / 3 % 3), dim, (int) (idx / 5 % 3), (int) (idx / 7 % 3), (int) (idx / 11 % 2));
    }, 8);
    add(F, "large offsets", 7ULL * 2, [=](Ctx& c, uint64_t idx) {
        static const int OFF[] = { 255, 256, 1000, 32768, 65535, 65536, 70000 };
        go(c, 3, 2, R[3], R[2], OFF[idx / 2], (int) (idx % 2), 2, 0, 0);
    }, 1);
    /* long lines: before the data, the header, selected and other values, behind the data */
    add(F, "long lines", 5ULL * NLINELEN * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int at = d.take(5), len = LINELEN[d.take(NLINELEN)], kind = d.take(2), st = d.take(2);
        auto lng = [&](const std::string& s) { return s + std::string(len - s.size(), kind ? 'q' : ' '); };
        std::string in, want;
        auto both = [&](const std::string& s) { in += s + "\n"; want += s + "\n"; };
        both(at == 0 ? lng("first line") : "first line");
        in += (at == 1 ? lng("## 2 x 2") : "## 2 x 2") + "\n";
        both("1");
        in += (at == 2 ? lng("2") : "2") + "\n";
        want += "77\n";
        both(at == 3 ? lng("3") : "3");
        both("4");
        both(at == 4 ? lng("trailing") : "trailing");
        both("last");
        SV av = { "setbathy", "-i", "1:1", "-j", "0:0", "-o", "1", "-z", "77" };
        av.push_back(st ? "-" : put("bathy", in));
        c.state(mix(idx, 10));
        Out o = tool(c, av, st ? in : "", 0);
        MC_CHECK(c, o.out == want, "%s: output\n%s\nexpected\n%s", join(av).c_str(), o.out.c_str(), want.c_str());
    });
    /* every byte in the value and in the lines */
    add(F, "all characters", 255 * 5 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ch = 1 + d.take(255), ctx = d.take(5), st = d.take(2), dim = d.take(2);
        if (ch == '\n')
            return;
        static const char* CX[5][2] = { {"a", "b"}, {"%", "d"}, {"", ""}, {"%5", "n%s"}, {"x ", " %d y"} };
        std::string q = std::string(CX[ctx][0]) + (char) ch + CX[ctx][1], z = q;
        if (z[0] == '-')
            z = "x" + z;
        std::string in = q + "\n" + (dim ? "" : "## 2 x 2\n") + "1" + q + "\n" + q + "\n" + q + "3\n" + q + "\n" + q + "\n";
        std::string want = q + "\n1" + q + "\n" + z + "\n" + q + "3\n" + q + "\n" + q + "\n";
        SV av = { "setbathy", "-i", "1:1", "-j", "0:0", "-o", "1", "-z", z };
        if (dim) {
            av.push_back("-d");
            av.push_back("2x2");
        }
        av.push_back(st ? "-" : put("bathy", in));
        c.state(mix(idx, 100));
        Out o = tool(c, av, st ? in : "", 0);
        MC_CHECK(c, o.out == want, "setbathy with the character %d: output\n%s\nexpected\n%s", ch, o.out.c_str(), want.c_str());
    });
    /* the value is mandatory */
    add(F, "no value given", 2 * 3 * 3 * 4, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int dim = d.take(2), nx = 1 + d.take(3), ny = 1 + d.take(3), r = d.take(4);
        std::string in = dim ? "" : strf("## %d x %d\n", nx, ny);
        for (int k = 0; k < nx * ny; ++k)
            in += strf("%d\n", k);
        SV av = { "setbathy" };
        if (r & 1) {
            av.push_back("-i");
            av.push_back("0:0");
        }
        if (r & 2) {
            av.push_back("-j");
            av.push_back("5:7");
        }
        if (dim) {
            av.push_back("-d");
            av.push_back(strf("%dx%d", nx, ny));
        }
        av.push_back("-");
        c.state(hashs(join(av).c_str()) + idx);
        Out o = tool(c, av, in, 1);
        MC_CHECK(c, !o.err.empty(), "%s: no message", join(av).c_str());
    });
    /* files that are too short are refused, whatever the layout */
    add(F, "all truncations", 3ULL * 2 * 9 * 13, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int off = d.take(3), dim = d.take(2), nx = 1 + d.take(3), ny = 1 + d.take(3), have = d.take(13);
        int total = off + !dim + nx * ny;
        if (have >= total)
            return;
        std::string in;
        for (int k = 0; k < have; ++k)
            in += k < off ? "x\n" : k == off && !dim ? strf("## %d x %d\n", nx, ny) : strf("%d\n", k);
        SV av = { "setbathy", "-", "-z", "7", "-o", strf("%d", off) };
        if (dim) {
            av.push_back("-d");
            av.push_back(strf("%dx%d", nx, ny));
        }
        c.state(idx);
        tool(c, av, in, 1);
    });
}

/* ----------------------------------------------------------------- C27 xy2ij */
struct Pt {
    double a, b;                /* input */
    int kind;                   /* 0 converts, 1 NaN without failure, 2 fails */
    double ea, eb, tol;
};
/* every cell of the grid: points inside and their indices; kd: nearest-node limitation applies */
static bool kdreach(const G& g, int ci, int cj, double x, double y)
{
    double best = 1e300;
    auto d2 = [&](int i, int j) { return (g.X(i, j) - x) * (g.X(i, j) - x) + (g.Y(i, j) - y) * (g.Y(i, j) - y); };
    for (int b = 0; b <= 1; ++b)
        for (int a = 0; a <= 1; ++a)
            best = std::min(best, d2(ci + a, cj + b));
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i)
            if ((i < ci || i > ci + 1 || j < cj || j > cj + 1) && g.ok(i, j) && d2(i, j) <= best * (1 + 1e-9))
                return false;
    return true;
}
static const double UV[][2] = { {0.5, 0.5}, {0.125, 0.25}, {0.875, 0.0625}, {0.375, 0.9375} };
static std::vector<Pt> batch(const G& g, int geo, bool rev, bool kd)
{
    std::vector<Pt> v;
    int W = g.nx - 1, H = g.ny - 1;
    double M = maxabs(g), size = geosize(geo);
    G full = geogrid(g.nx + 2, g.ny + 2, geo);
    /* the ring around the grid */
    for (int j = -1; j <= H; ++j)
        for (int i = -1; i <= W; ++i)
            for (auto& uv : UV) {
                double fi = i + uv[0], fj = j + uv[1];
                bool in = i >= 0 && j >= 0 && i < W && j < H;
                if (in && g.cell(i, j)) {
                    double x, y;
                    bilin(g, i, j, uv[0], uv[1], &x, &y);
                    if (rev)
                        v.push_back({fi, fj, 0, x, y, 1e-13 * M});
                    else if (!kd || kdreach(g, i, j, x, y))
                        v.push_back({x, y, 0, fi, fj, 3e-8 + 1e-10 * M / size});
                } else if (rev)
                    v.push_back({fi, fj, in ? 1 : 2, 0, 0, 0});
                else {
                    /* the missing cell, unless a node position is not known */
                    double px[2][2], py[2][2], x, y;
                    for (int b = 0; b < 2; ++b)
                        for (int a = 0; a < 2; ++a)
                            geopos(geo, i + a, j + b, &px[b][a], &py[b][a]);
                    x = (1 - uv[1]) * ((1 - uv[0]) * px[0][0] + uv[0] * px[0][1]) + uv[1] * ((1 - uv[0]) * px[1][0] + uv[0] * px[1][1]);
                    y = (1 - uv[1]) * ((1 - uv[0]) * py[0][0] + uv[0] * py[0][1]) + uv[1] * ((1 - uv[0]) * py[1][0] + uv[0] * py[1][1]);
                    v.push_back({x, y, 2, 0, 0, 0});
                }
            }
    return v;
}
static void checkline(Ctx& c, const std::string& l, const Pt& p, const std::string& rem, const char* what)
{
    double a, b;
    int used = 0;
    bool ok = sscanf(l.c_str(), "%lf %lf%n", &a, &b, &used) == 2;
    MC_CHECK(c, ok, "%s: output line \"%s\"", what, l.c_str());
    std::string r = l.substr(used);
    while (!r.empty() && r[0] == ' ')
        r.erase(0, 1);
    MC_CHECK(c, r == rem, "%s: output line \"%s\" for (%g,%g): the rest of the input line was \"%s\"", what, l.c_str(), p.a, p.b, rem.c_str());
    if (p.kind == 0)
        MC_CHECK(c, fabs(a - p.ea) <= p.tol && fabs(b - p.eb) <= p.tol, "%s: (%.15g,%.15g) -> \"%s\", expected (%.15g,%.15g)", what, p.a, p.b, l.c_str(), p.ea, p.eb);
    else
        MC_CHECK(c, std::isnan(a) && std::isnan(b), "%s: (%.15g,%.15g) -> \"%s\", expected NaN", what, p.a, p.b, l.c_str());
}
PROPERTY(C27)
{
    static const int GEO[] = { GEO_UNIT, GEO_CURVI, GEO_UTM, GEO_LEFT, GEO_AFFINE, GEO_RECTI };
    int W = 3, H = thorough ? 3 : 2, ng = 6;
    static std::vector<uint32_t> sh;
    sh = simpleshapes(W, H);
    add(F, strf("all simply connected shapes of %dx%d cells, a lattice of points", W, H), sh.size() * ng * 8, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_COR, kd = d.take(2), rev = d.take(2), geo = GEO[d.take(ng)];
        Shape s = shapeof(W, H, sh[d.v]);
        G co, in;
        if (t == NT_DD) {
            in = ddgrid(W, H, s, GEO_UNIT);
            co = geogrid(W + 1, H + 1, geo);
            applyshape(co, s);
            for (int j = 0; j <= H; ++j)
                for (int i = 0; i <= W; ++i)
                    if (co.ok(i, j))
                        in.set(2 * i, 2 * j, co.X(i, j), co.Y(i, j));
        } else {
            in = co = geogrid(W + 1, H + 1, geo);
            applyshape(co, s);
            applyshape(in, s);
        }
        std::vector<Pt> v = batch(co, geo, rev, kd);
        std::string txt;
        for (size_t k = 0; k < v.size(); ++k)
            txt += strf("%.17g %.17g%s\n", v[k].a, v[k].b, k % 3 == 0 ? "" : strf(" z%d  rest", (int) k).c_str());
        SV av = { "xy2ij", "-f", "-g", put("grid", gridtext(in)), "-o", "-" };
        if (kd)
            av.push_back("-k");
        if (rev)
            av.push_back("-r");
        addtype(av, "-i", t, true, idx % 5 == 0);
        std::string what = strf("xy2ij %s %s %s %s %s", shstr(W, H, s).c_str(), geoname[geo], TNAME[t], kd ? "-k" : "", rev ? "-r" : "");
        c.state(hashs(what.c_str()));
        Out o = tool(c, av, txt, 0);
        SV l = lines(o.out);
        MC_CHECK(c, l.size() == v.size(), "%s: %d output lines for %d points", what.c_str(), (int) l.size(), (int) v.size());
        for (size_t k = 0; k < v.size(); ++k)
            checkline(c, l[k], v[k], k % 3 == 0 ? "" : strf("z%d  rest", (int) k), what.c_str());
    });
    /* any nodes may be missing, and nodes may belong to no cell: the grid is validated first */
    add(F, "all patterns of missing nodes of 3x3 nodes, a lattice of points", 512ULL * 2 * 2 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_COR, kd = d.take(2), rev = d.take(2), geo = d.take(2) ? GEO_CURVI : GEO_LEFT;
        G in = pattern(3, 3, d.v, geo);
        if (t == NT_DD) {
            G q(5, 5);
            for (int j = 0; j < 5; ++j)
                for (int i = 0; i < 5; ++i)
                    if (i % 2 == 0 && j % 2 == 0) {
                        if (in.ok(i / 2, j / 2))
                            q.set(i, j, in.X(i / 2, j / 2), in.Y(i / 2, j / 2));
                        else
                            q.kill(i, j);
                    } else
                        q.set(i, j, i, j);
            in = q;
        }
        G v = modvalid(in, (NODETYPE) t), co = t == NT_DD ? dd2co(v) : v;
        if (!kd && !bmapok(co))
            return;
        std::vector<Pt> pts = batch(co, geo, rev, kd);
        if (rev)
            for (int j = 0; j < 3; ++j)
                for (int i = 0; i < 3; ++i)
                    if (co.ok(i, j))
                        pts.push_back({(double) i, (double) j, 0, co.X(i, j), co.Y(i, j), 1e-13 * maxabs(co)});
                    else
                        pts.push_back({(double) i, (double) j, 1, 0, 0, 0});
        std::string txt;
        for (auto& q : pts)
            txt += strf("%.17g %.17g\n", q.a, q.b);
        SV av = { "xy2ij", "-f", "-g", put("grid", gridtext(in)), "-o", "-" };
        if (kd)
            av.push_back("-k");
        if (rev)
            av.push_back("-r");
        addtype(av, "-i", t, true, 0);
        std::string what = strf("xy2ij %s %s %s %s %s", vstr(in).c_str(), geoname[geo], TNAME[t], kd ? "-k" : "", rev ? "-r" : "");
        c.state(hashs(what.c_str()));
        Out o = tool(c, av, txt, 0);
        SV l = lines(o.out);
        MC_CHECK(c, l.size() == pts.size(), "%s: %d output lines for %d points", what.c_str(), (int) l.size(), (int) pts.size());
        for (size_t k = 0; k < pts.size(); ++k)
            checkline(c, l[k], pts[k], "", what.c_str());
    });
    /* point files: all sequences of line types */
    static const char* LT[] = { "inside", "inside with remainder", "outside", "missing cell", "comment", "empty", "text", "one number", "NaN", "tab separated" };
    const int NL = 10;
    int depth = thorough ? 4 : 3;
    uint64_t n = 0, p = 1;
    for (int k = 1; k <= depth; ++k)
        n += (p *= NL);
    int combos = 16;
    add(F, strf("all point files of up to %d lines", depth), n * combos, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int force = d.take(2), rev = d.take(2), kd = d.take(2), lastnl = d.take(2);
        uint64_t q = d.v, base = NL;
        int len = 1;
        while (q >= base) {
            q -= base;
            base *= NL;
            ++len;
        }
        Shape s = { 1, 1, 0, 1 };
        G g = geogrid(3, 3, GEO_UNIT);
        applyshape(g, s);
        /* cells (0,0), (1,0), (1,1) are valid */
        std::string txt, want;
        int status = 0, ntot = 0, nok = 0;
        std::string desc;
        for (int k = 0; k < len; ++k, q /= NL) {
            int t = (int) (q % NL);
            bool fail = false;
            desc += std::string(k ? ", " : "") + LT[t];
            std::string l, w;
            switch (t) {
            case 0: l = "0.5 0.25"; w = "0.5 0.25 "; break;
            case 1: l = "1.25 1.75 3.5 abc  # x"; w = "1.25 1.75 3.5 abc  # x"; break;
            case 2: l = "-4 0.5 rem"; w = "NaN NaN rem"; fail = true; break;
            case 3: l = "0.25 1.5 q"; w = "NaN NaN q"; fail = !rev; break;
            case 4: l = w = "# 0.5 0.5"; break;
            case 5: l = w = ""; break;
            case 6: l = w = "abc 0.5 0.5"; break;
            case 7: l = w = "  0.5"; break;
            case 8: l = "NaN NaN 7"; w = "NaN NaN 7"; fail = true; break;
            case 9: l = "\t1.5\t0.5\tz"; w = "1.5 0.5 z"; break;
            }
            bool nl = k + 1 < len || lastnl;
            bool verbatim = t >= 4 && t <= 7;
            txt += l + (nl ? "\n" : "");
            if (status == 0 && fail && !force)
                status = 1;
            if (status == 0) {
                want += w + (nl || !verbatim ? "\n" : "");
                ntot += !verbatim;
                nok += t == 0 || t == 1 || t == 9;
            }
        }
        SV av = { "xy2ij", "-g", put("grid", gridtext(g)), "-i", "co", "-o", "-", "-v" };
        if (force)
            av.push_back("-f");
        if (rev)
            av.push_back("-r");
        if (kd)
            av.push_back("-k");
        c.state(mix(idx, 27));
        c.log("lines: %s", desc.c_str());
        Out o = tool(c, av, txt, status);
        /* compare numerically: conversions are not exact */
        SV a = lines(o.out), b = lines(want);
        MC_CHECK(c, a.size() == b.size() && (o.out.empty() || o.out.back() == '\n') == (want.empty() || want.back() == '\n'), "%s: point file [%s]: output\n%s\nexpected\n%s", join(av).c_str(), desc.c_str(), o.out.c_str(), want.c_str());
        for (size_t k = 0; k < a.size(); ++k) {
            double x1, y1, x2, y2;
            int u1 = 0, u2 = 0;
            bool good = a[k] == b[k];
            if (!good && sscanf(a[k].c_str(), "%lf %lf%n", &x1, &y1, &u1) == 2 && sscanf(b[k].c_str(), "%lf %lf%n", &x2, &y2, &u2) == 2)
                good = close_(x1, x2, 1e-7) && close_(y1, y2, 1e-7) && a[k].substr(u1) == b[k].substr(u2);
            MC_CHECK(c, good, "%s: point file [%s]: output line \"%s\", expected \"%s\"", join(av).c_str(), desc.c_str(), a[k].c_str(), b[k].c_str());
        }
        if (status == 0) {
            MC_CHECK(c, o.err.find(strf("total mappings: %d\n", ntot)) != std::string::npos && o.err.find(strf("## successful: %d\n", nok)) == std::string::npos, "%s: [%s]: counts on stderr:\n%s\nexpected %d, %d successful", join(av).c_str(), desc.c_str(), o.err.c_str(), ntot, nok);
            MC_CHECK(c, o.err.find(strf("  successful: %d\n", nok)) != std::string::npos && o.err.find(strf("unsuccessful: %d\n", ntot - nok)) != std::string::npos, "%s: [%s]: counts on stderr:\n%s\nexpected %d, %d successful", join(av).c_str(), desc.c_str(), o.err.c_str(), ntot, nok);
        }
    });
    /* long lines and long files */
    add(F, "long lines", (NLONGKIND + 2) * NLINELEN * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kind = d.take(NLONGKIND + 2), len = LINELEN[d.take(NLINELEN)], rev = d.take(2);
        G g = geogrid(3, 3, GEO_UNIT);
        std::string ll = kind < NLONGKIND ? longline("1.5", "0.5", kind, len) : kind == NLONGKIND ? "#" + std::string(len - 1, 'a') : "text" + longline("1.5", "0.5", 1, len - 4);
        std::string txt = "0.5 0.25 first\n" + ll + "\n1.25 1.75 last\n", rest = kind < 2 ? ll.substr(8) : "";
        SV av = { "xy2ij", "-g", put("grid", gridtext(g)), "-i", "co", "-o", idx % 2 ? "-" : put("points", txt) };
        if (rev)
            av.push_back("-r");
        c.state(mix(idx, 28));
        Out o = tool(c, av, idx % 2 ? txt : "", 0);
        SV l = lines(o.out);
        MC_CHECK(c, l.size() == 3, "%s: %d output lines for 3 lines of input, one of them with %d characters (kind %d)", join(av).c_str(), (int) l.size(), len, kind);
        checkline(c, l[0], { 0.5, 0.25, 0, 0.5, 0.25, 3e-8 }, "first", "long lines");
        if (kind < NLONGKIND) {
            while (!rest.empty() && rest[0] == ' ')
                rest.erase(0, 1);
            size_t e = l[1].find_last_not_of(" \t");
            std::string got = kind == 1 ? l[1] : l[1].substr(0, e + 1);
            checkline(c, got, { 1.5, 0.5, 0, 1.5, 0.5, 3e-8 }, rest, "long lines");
        } else
            MC_CHECK(c, l[1] == ll, "a line of %d characters that is not a point was altered", len);
        checkline(c, l[2], { 1.25, 1.75, 0, 1.25, 1.75, 3e-8 }, "last", "long lines");
    });
    /* every byte in lines that are no points, and behind points */
    add(F, "all characters in the lines", 255 * 5 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ch = 1 + d.take(255), ctx = d.take(5), rev = d.take(2), st = d.take(2);
        if (ch == '\n')
            return;
        static const char* CX[5][2] = { {"a", "b"}, {"%", "d"}, {"100", "% s"}, {"%5", "n%s"}, {"x ", " %d y"} };
        std::string q = std::string(CX[ctx][0]) + (char) ch + CX[ctx][1];
        G g = geogrid(3, 3, GEO_UNIT);
        std::string txt = "0.5 0.25 " + q + "\n#" + q + "\ntext " + q + "\n1.25 1.75 " + q + " " + q + "\n";
        SV av = { "xy2ij", "-g", put("grid", gridtext(g)), "-i", "co", "-o", st ? "-" : put("points", txt) };
        if (rev)
            av.push_back("-r");
        c.state(mix(idx, 280));
        Out o = tool(c, av, st ? txt : "", 0);
        SV l = lines(o.out);
        MC_CHECK(c, l.size() == 4, "%s: %d output lines for 4 lines of input with the character %d:\n%s", join(av).c_str(), (int) l.size(), ch, o.out.c_str());
        checkline(c, l[0], { 0.5, 0.25, 0, 0.5, 0.25, 3e-8 }, q, "characters");
        MC_CHECK(c, l[1] == "#" + q && l[2] == "text " + q, "lines with the character %d that are no points were altered:\n%s\n%s", ch, l[1].c_str(), l[2].c_str());
        checkline(c, l[3], { 1.25, 1.75, 0, 1.25, 1.75, 3e-8 }, q + " " + q, "characters");
    });
    static const int NPTS[] = { 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 30000, 65535, 65536, 65537, 100001 };
    add(F, "long files", 22 * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int n = NPTS[d.take(22)], rev = d.take(2), kd = d.take(2);
        G g = geogrid(7, 6, GEO_UNIT);
        std::string txt;
        for (int k = 0; k < n; ++k)
            txt += k % 97 == 5 ? "# comment\n" : k % 89 == 7 ? "100 100 far\n" : strf("%.17g %.17g p%d\n", (k * 7 % 48) / 8.0 + 1.0 / 16, (k * 11 % 40) / 8.0 + 1.0 / 16, k);
        SV av = { "xy2ij", "-f", "-g", put("grid", gridtext(g)), "-i", "co", "-o", put("points", txt) };
        if (rev)
            av.push_back("-r");
        if (kd)
            av.push_back("-k");
        c.state(mix(idx, 29));
        Out o = tool(c, av, "", 0);
        SV l = lines(o.out), in = lines(txt);
        MC_CHECK(c, l.size() == in.size(), "%d output lines for %d lines of input", (int) l.size(), (int) in.size());
        for (int k = 0; k < n; ++k)
            if (k % 97 == 5)
                MC_CHECK(c, l[k] == in[k], "line %d, a comment, was altered: %s", k, l[k].c_str());
            else if (k % 89 == 7)
                checkline(c, l[k], { 100, 100, 2, 0, 0, 0 }, "far", "long files");
            else {
                double x = (k * 7 % 48) / 8.0 + 1.0 / 16, y = (k * 11 % 40) / 8.0 + 1.0 / 16;
                checkline(c, l[k], { x, y, 0, x, y, 3e-8 }, strf("p%d", k), "long files");
            }
    }, 1);
    /* sizes beyond 16-bit counts */
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * 2 * 2 * 2 * (mid ? 1 : 3), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(mid).size()), kd = d.take(2), rev = d.take(2), dd = d.take(2), pat = mid ? l % 3 : d.take(3);
        Size sz = fit(sizes(mid)[l], dd ? NT_DD : NT_COR);
        int nx = sz.nx, ny = sz.ny;
        static const int PAT[3] = { 0, 2, 6 };
        if (!dd)
            ++nx, ++ny;
        G in = largegrid(nx, ny, PAT[pat], GEO_UNIT), co = dd ? dd2co(validDD(in)) : validCO(in);
        int W = co.nx - 1, H = co.ny - 1;
        if (W < 1 || H < 1)
            return;
        std::vector<Pt> v;
        std::string txt;
        double M = maxabs(co);
        auto cell = [&](int i, int j) {
            auto& uv = UV[v.size() % 4];
            double fi = i + uv[0], fj = j + uv[1], x = dd ? 2 * fi : fi, y = dd ? 2 * fj : fj;
            bool ok = co.cell(i, j);
            if (rev)
                v.push_back({fi, fj, ok ? 0 : 1, x, y, 1e-13 * M});
            else
                v.push_back({x, y, ok ? 0 : 2, fi, fj, 1e-7});
        };
        long stride = std::max(1L, (long) W * H / 400);
        for (long k = 0; k < (long) W * H; k += stride)
            cell((int) (k % W), (int) (k / W));
        for (long k = std::max(0L, (long) W * H - 40); k < (long) W * H; ++k)
            cell((int) (k % W), (int) (k / W));
        for (long k : { 65534L, 65535L, 65536L, 65537L, 32767L, 32768L })
            if (k < (long) W * H)
                cell((int) (k % W), (int) (k / W));
        for (auto& p : v)
            txt += strf("%.17g %.17g t\n", p.a, p.b);
        SV av = { "xy2ij", "-f", "-g", put("grid", gridtext(in)), "-i", dd ? "DD" : "CO", "-o", "-" };
        if (kd)
            av.push_back("-k");
        if (rev)
            av.push_back("-r");
        c.state(mix(idx, 270));
        Out o = tool(c, av, txt, 0);
        SV ll = lines(o.out);
        std::string what = strf("xy2ij%s%s, %s nodes, pattern %d", kd ? " -k" : "", rev ? " -r" : "", vstr(in).c_str(), PAT[pat]);
        MC_CHECK(c, ll.size() == v.size(), "%s: %d output lines for %d points", what.c_str(), (int) ll.size(), (int) v.size());
        for (size_t k = 0; k < v.size(); ++k)
            checkline(c, ll[k], v[k], "t", what.c_str());
    }, mid ? 0 : 1);
    /* a grid in pieces, with the kd-tree */
    add(F, "all patterns of valid cells of 3x3 cells, kd-tree", 512ULL * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int rev = d.take(2), geo = d.take(2) ? GEO_CURVI : GEO_UNIT;
        Shape s = shapeof(3, 3, (uint32_t) d.v);
        G g = geogrid(4, 4, geo);
        applyshape(g, s);
        std::vector<Pt> v = batch(g, geo, rev, true);
        std::string txt;
        for (auto& q : v)
            txt += strf("%.17g %.17g\n", q.a, q.b);
        SV av = { "xy2ij", "-k", "-f", "-g", "-", "-i", "CO", "-o", put("points", txt) };
        if (rev)
            av.push_back("-r");
        c.state(mix(idx, 3));
        Out o = tool(c, av, gridtext(g), 0);
        SV l = lines(o.out);
        std::string what = strf("xy2ij -k %s %s", shstr(3, 3, s).c_str(), geoname[geo]);
        MC_CHECK(c, l.size() == v.size(), "%s: %d output lines for %d points", what.c_str(), (int) l.size(), (int) v.size());
        for (size_t k = 0; k < v.size(); ++k)
            checkline(c, l[k], v[k], "", what.c_str());
    });
    /* round trip through two runs */
    add(F, "there and back", (uint64_t) GEO_N * 6 * 6 * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int geo = d.take(GEO_N), nx = 1 + d.take(6), ny = 1 + d.take(6), kd1 = d.take(2), kd2 = d.take(2);
        if (geo == GEO_SHEAR || geo == GEO_RECTI)
            kd1 = kd2 = 0;
        G g = geogrid(nx + 1, ny + 1, geo);
        std::string gf = put("grid", gridtext(g)), txt;
        std::vector<P> pts;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                for (auto& uv : UV)
                    pts.push_back({i + uv[0], j + uv[1]});
        for (auto& q : pts)
            txt += strf("%.15g %.15g tag\n", q.first, q.second);
        SV a1 = { "xy2ij", "-r", "-g", gf, "-o", "-", "-i", "co" }, a2 = { "xy2ij", "-g", gf, "-o", "-", "-i", "co" };
        if (kd1)
            a1.push_back("-k");
        if (kd2)
            a2.push_back("-k");
        c.state(mix(idx, 4));
        Out o1 = tool(c, a1, txt, 0);
        Out o2 = tool(c, a2, o1.out, 0);
        SV l = lines(o2.out);
        MC_CHECK(c, l.size() == pts.size(), "there and back: %d lines of %d", (int) l.size(), (int) pts.size());
        double tol = 1e-7 + 1e-10 * maxabs(g) / geosize(geo);
        for (size_t k = 0; k < pts.size(); ++k)
            checkline(c, l[k], {pts[k].first, pts[k].second, 0, pts[k].first, pts[k].second, tol}, "tag", strf("there and back, %s %dx%d", geoname[geo], nx, ny).c_str());
    });
}

/* -------------------------------------------------------------- C28 getbound */
static double crossp(const P& a, const P& b, const P& e)
{
    return (b.first - a.first) * (e.second - b.second) - (b.second - a.second) * (e.first - b.first);
}
static bool cyceq(std::vector<P> a, std::vector<P> b, double tol)
{
    if (a.size() != b.size())
        return false;
    size_t n = a.size();
    for (int r = 0; r < 2; ++r) {
        for (size_t s = 0; s < n; ++s) {
            bool ok = true;
            for (size_t k = 0; ok && k < n; ++k)
                ok = fabs(a[(k + s) % n].first - b[k].first) <= tol && fabs(a[(k + s) % n].second - b[k].second) <= tol;
            if (ok)
                return true;
        }
        std::reverse(b.begin(), b.end());
    }
    return n == 0;
}
/* walks around the valid cells: the boundary as a cycle of nodes */
static std::vector<P> outline(int W, int H, const Shape& s)
{
    auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < W && j < H && s[(size_t) j * W + i]; };
    std::map<P, P> nx;
    for (int j = 0; j < H; ++j)
        for (int i = 0; i < W; ++i)
            if (at(i, j)) {
                if (!at(i, j - 1)) nx[P(i, j)] = P(i + 1, j);
                if (!at(i + 1, j)) nx[P(i + 1, j)] = P(i + 1, j + 1);
                if (!at(i, j + 1)) nx[P(i + 1, j + 1)] = P(i, j + 1);
                if (!at(i - 1, j)) nx[P(i, j + 1)] = P(i, j);
            }
    std::vector<P> v;
    if (nx.empty())
        return v;
    P a = nx.begin()->first, b = a;
    do {
        v.push_back(b);
        b = nx[b];
    } while (b != a && v.size() < 10000000);
    return v;
}
static void checkgetbound(Ctx& c, int W, int H, const Shape& s, int geo, int t, bool ij, bool compact, int how, const std::string& name)
{
    G in, co;
    if (t == NT_DD) {
        in = ddgrid(W, H, s, geo);
        co = dd2co(validDD(in));
    } else {
        in = geogrid(W + 1, H + 1, geo);
        applyshape(in, s);
        co = in;
    }
    bool cmp = true;
    std::vector<P> o = outline(W, H, s), want;
    for (auto& q : o)
        want.push_back(ij ? q : P(co.X((int) q.first, (int) q.second), co.Y((int) q.first, (int) q.second)));
    if (compact) {
        std::vector<P> w;
        size_t n = want.size();
        double M2 = maxabs(co) * maxabs(co);
        bool amb = false;       /* nearly straight: may go either way */
        for (size_t k = 0; k < n; ++k) {
            double x = fabs(crossp(want[(k + n - 1) % n], want[k], want[(k + 1) % n]));
            amb |= x > 1e-16 * M2 && x < 2e-8 * std::min(1.0, geosize(geo) * geosize(geo)) + 1e-15 * M2;
            if (x > 1e-12)
                w.push_back(want[k]);
        }
        want = w;
        if (amb && !ij)
            cmp = false;
    }
    SV av = { "getbound" };
    std::string txt = gridtext(in);
    std::string g = how % 2 ? put("grid", txt) : "-";
    if (how / 2 % 2)
        av.push_back(g);
    if (ij)
        av.push_back("-r");
    if (compact)
        av.push_back("-c");
    addtype(av, "-i", t, true, how / 4 % 2);
    if (!(how / 2 % 2))
        av.push_back(g);
    std::string what = strf("getbound %s %s %s%s%s", name.c_str(), geoname[geo], TNAME[t], ij ? " -r" : "", compact ? " -c" : "");
    c.state(hashs(what.c_str()));
    Out r = tool(c, av, how % 2 ? "" : txt, 0);
    SV l = lines(r.out);
    int n = -1, used = 0;
    MC_CHECK(c, !l.empty() && sscanf(l[0].c_str(), "## %d%n", &n, &used) == 1 && used == (int) l[0].size(), "%s: output starts with \"%s\"", what.c_str(), l.empty() ? "" : l[0].c_str());
    MC_CHECK(c, (int) l.size() == n + 1 && r.out.back() == '\n', "%s: header says %d points, output has %d", what.c_str(), n, (int) l.size() - 1);
    std::vector<P> got;
    for (size_t k = 1; k < l.size(); ++k) {
        double a, b;
        used = 0;
        MC_CHECK(c, sscanf(l[k].c_str(), "%lf %lf%n", &a, &b, &used) == 2 && used == (int) l[k].size(), "%s: output line \"%s\"", what.c_str(), l[k].c_str());
        got.push_back({a, b});
    }
    if (want.empty()) {
        MC_CHECK(c, got.empty(), "%s: the grid has no valid cells, output\n%s", what.c_str(), r.out.c_str());
        return;
    }
    /* closed, but with -c each vertex is given once */
    bool closed = got.size() > 1 && got.front() == got.back();
    MC_CHECK(c, closed != compact, "%s: the polygon is not closed:\n%s", what.c_str(), r.out.c_str());
    if (closed)
        got.pop_back();
    if (!cmp)
        return;
    MC_CHECK(c, cyceq(got, want, 1e-14 * maxabs(co)), "%s: output\n%s\nexpected polygon of %d vertices from (%.15g,%.15g)", what.c_str(), r.out.substr(0, 3000).c_str(), (int) want.size(), want[0].first, want[0].second);
}
PROPERTY(C28)
{
    static std::vector<uint32_t> s33, s42;
    static std::vector<Named> big;
    struct B { int W, H; const std::vector<uint32_t>* s; };
    s33 = simpleshapes(3, 3);
    s42 = thorough ? simpleshapes(4, 4) : simpleshapes(4, 2);
    std::vector<B> bb = { {3, 3, &s33}, {4, thorough ? 4 : 2, &s42} };
    for (auto& b : bb) {
        int ng = thorough && b.W * b.H > 9 ? 1 : 4;
        add(F, strf("all simply connected shapes of %dx%d cells, all options", b.W, b.H), b.s->size() * 8 * ng, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            static const int GEO[] = { GEO_UNIT, GEO_CURVI, GEO_LEFT, GEO_DEG };
            int t = d.take(2) ? NT_DD : NT_COR, ij = d.take(2), cm = d.take(2), geo = GEO[ng == 1 ? 1 : d.take(ng)];
            Shape s = shapeof(b.W, b.H, (*b.s)[d.v]);
            checkgetbound(c, b.W, b.H, s, geo, t, ij, cm, (int) (idx / 3 % 8), shstr(b.W, b.H, s));
        });
    }
    big = bigshapes(thorough);
    /* the corner (0,0) is a right angle for the indices and a straight one for the coordinates */
    add(F, "all simply connected shapes of 3x3 cells, straight at the corner", s33.size() * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_COR, cm = d.take(2);
        checkgetbound(c, 3, 3, shapeof(3, 3, s33[d.v]), GEO_SQUARE, t, 0, cm, (int) (idx / 3 % 8), shstr(3, 3, shapeof(3, 3, s33[d.v])));
    });
    add(F, "large shapes, all geometries", big.size() * GEO_N * 6, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_COR, ij = d.take(3), geo = d.take(GEO_N);
        const Named& n = big[d.v];
        checkgetbound(c, n.W, n.H, n.s, geo, t, ij == 1, ij != 0, (int) (idx / 3 % 8), n.name);
    }, 4);
    /* sizes beyond 16-bit counts: full grids, a missing corner block, combs with more than 65536 vertices */
    struct L { int W, H, kind; };
    static const L LG[] = { {300, 230, 0}, {70000, 1, 0}, {1, 70000, 0}, {300, 230, 1}, {40000, 2, 1}, {2, 40000, 1}, {901, 120, 2}, {49201, 3, 2}, {3, 49201, 3}, {500, 500, 2} };
    add(F, "large grids", 10ULL * 2 * 2 * 2 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const L& l = LG[d.take(10)];
        int t = d.take(2) ? NT_DD : NT_COR, ij = d.take(2), cm = d.take(2), geo = d.take(2) ? GEO_RECTI : GEO_UNIT;
        Shape s((size_t) l.W * l.H, 1);
        for (int j = 0; j < l.H; ++j)
            for (int i = 0; i < l.W; ++i)
                s[(size_t) j * l.W + i] = l.kind == 0 ? 1 : l.kind == 1 ? !(i >= l.W / 2 && j >= l.H / 2) : l.kind == 2 ? j == 0 || i % 3 == 0 : i == 0 || j % 3 == 0;
        checkgetbound(c, l.W, l.H, s, geo, t, ij, cm, (int) (idx % 8), strf("%dx%d cells, kind %d", l.W, l.H, l.kind));
    }, 1);
    add(F, SIZENAME[1], sizes(1).size() * NMIDSHAPE * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(1).size()), k = d.take(NMIDSHAPE), t = d.take(2) ? NT_DD : NT_COR, W = sizes(1)[l].nx, H = sizes(1)[l].ny;
        Shape s = midshape(W, H, k);
        if (classify(W, H, s) != SH_SIMPLE)
            return;
        static const int GEO[] = { GEO_UNIT, GEO_CURVI, GEO_LEFT, GEO_RECTI };
        checkgetbound(c, W, H, s, GEO[(idx / 5) % 4], t, (int) (idx / 3 % 2), (int) (idx / 7 % 2), (int) (idx % 8), strf("%dx%d cells, shape %d", W, H, k));
    }, 8);
    /* invalid nodes that are not needed do not matter: invalid middle and centre nodes */
    static std::vector<int> sets;
    sets = subsets(16, thorough ? 16 : 3, true);
    add(F, strf("%s of missing nodes of 5x5 double density nodes outside the corners", thorough ? "all patterns" : "all sets of up to 3, and of all but up to 3,"), sets.size(), [=](Ctx& c, uint64_t idx) {
        uint64_t m = sets[idx];
        G in = pattern(5, 5, ddmask(5, 5, 0, m & 15, m >> 4), GEO_AFFINE);
        std::string ref = gridtext(geogrid(5, 5, GEO_AFFINE));
        c.state(mix(m, 5));
        SV av = { "getbound", "-" };
        static std::string want;
        if (want.empty())
            want = tool(c, av, ref, 0).out;
        Out o = tool(c, av, gridtext(in), 0);
        MC_CHECK(c, o.out == want, "missing nodes other than corners alter the boundary:\n%s\nexpected\n%s", o.out.c_str(), want.c_str());
    });
}

/* -------------------------------------------------------------- C29 getnodes */
static G modtweak(G g);
static void checkgetnodes(Ctx& c, const G& in, int ti, int to, int ct, const std::vector<int>* mask, int how, int tweak = 0)
{
    SV av = { "getnodes" };
    if (tweak == 1)
        av.push_back("-p");
    std::string txt = gridtext(in);
    std::string g = how % 3 == 0 ? put("grid", txt) : how % 3 == 1 ? "-" : "stdin";
    if (how / 3 % 2)
        av.push_back(g);
    addtype(av, "-i", ti, true, how / 6 % 2);
    addtype(av, "-o", to, true, how / 12 % 2);
    if (ct)
        av.push_back(ct == 1 ? "-x" : "-y");
    if (mask != nullptr) {
        std::string m;
        for (int b : *mask)
            m += b ? "1\n" : "0\n";
        av.push_back("-m");
        av.push_back(put("mask", m));
    }
    if (!(how / 3 % 2))
        av.push_back(g);
    if (tweak == 2)
        av.push_back("-p");
    std::string what = strf("getnodes %s %dx%d -> %s%s%s%s [%s]", TNAME[ti], in.nx, in.ny, TNAME[to], ct == 1 ? " -x" : ct == 2 ? " -y" : "", mask ? " masked" : "", tweak ? " -p" : "", vstr(in).c_str());
    if (mask != nullptr && mask->size() < 1000)
        for (int b : *mask)
            what += b ? '1' : '0';
    c.state(hashs(what.c_str()));
    std::string stdin_ = how % 3 == 0 ? "" : txt;
    if (mask != nullptr && to == NT_COR) {
        tool(c, av, stdin_, 1);
        return;
    }
    if (ti == NT_COR && to != NT_COR && !bmapok(modvalid(in, NT_COR)))
        return;                 /* corner nodes are converted through the binary map */
    Out o = tool(c, av, stdin_, 0);
    G v = modvalid(in, (NODETYPE) ti), w = v;
    if (ti == NT_CEN && to != NT_CEN) {
        /* what is extrapolated is checked first; masks and the rest then apply to that */
        bool plain = mask == nullptr && ct == 0 && !tweak;
        Out q = plain ? o : tool(c, { "getnodes", "-", "-i", "CE", "-o", TNAME[to] }, txt, 0);
        G got;
        MC_CHECK(c, parsegrid(q.out, got), "%s: malformed output\n%s", what.c_str(), q.out.substr(0, 500).c_str());
        checkce(c, in, to == NT_COR ? 1 : 2, got, what.c_str(), 1e-13);
        if (plain)
            return;
        w = got;
    } else if (ti == NT_DD && to == NT_COR)
        w = dd2co(v);
    else if (ti == NT_DD && to == NT_CEN)
        w = dd2ce(v);
    else if (ti == NT_COR && to == NT_CEN)
        w = co2ce(v);
    else if (ti == NT_COR && to == NT_DD)
        w = co2dd(v);
    if (mask != nullptr)
        w = modmask(w, (NODETYPE) to, *mask);
    if (tweak)
        w = modtweak(w);
    expectout(c, o.out, w, ct, what.c_str(), 1e-14);
}
PROPERTY(C29)
{
    /* conversions */
    add(F, "double density input, all patterns of missing corners of 5x5 nodes", 512ULL * 3 * 3 * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int to = T[d.take(3)], ct = d.take(3), others = d.take(2);
        uint64_t p = d.v, e = others ? 0xffff : 0;
        checkgetnodes(c, pattern(5, 5, ddmask(5, 5, p, e & 15, e >> 4), GEO_CURVI), NT_DD, to, ct, nullptr, (int) (idx % 24));
    });
    static std::vector<int> oth;
    oth = subsets(16, thorough ? 16 : 2, true);
    add(F, strf("double density input, %s of missing nodes of 5x5 nodes outside the corners, all single missing corners", thorough ? "all patterns" : "all sets of up to 2, and of all but up to 2,"), oth.size() * 10, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int p = d.take(10), e = oth[d.v];
        checkgetnodes(c, pattern(5, 5, ddmask(5, 5, p ? 1ULL << (p - 1) : 0, e & 15, e >> 4), GEO_CURVI), NT_DD, T[idx % 3], 0, nullptr, (int) (idx % 24));
    });
    add(F, "corner input, all patterns of missing nodes of 3x3 nodes", 512ULL * 3 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int to = T[d.take(3)], ct = d.take(3);
        checkgetnodes(c, pattern(3, 3, d.v, GEO_AFFINE), NT_COR, to, ct, nullptr, (int) (idx % 24));
    });
    add(F, "centre input, all patterns of missing nodes of 3x3 nodes", 512ULL * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int to = T[d.take(3)];
        G g = pattern(3, 3, d.v, GEO_AFFINE);
        checkgetnodes(c, g, NT_CEN, to, 0, nullptr, (int) (idx % 24));
        checkgetnodes(c, g, NT_CEN, to, 1, nullptr, (int) (idx / 2 % 24));
        checkgetnodes(c, g, NT_CEN, to, 2, nullptr, (int) (idx / 2 % 24));
    });
    /* masks */
    static std::vector<int> cor;
    cor = subsets(9, thorough ? 9 : 2, true);
    add(F, strf("all masks of 2x2 cells, double density output, %s of missing corners", thorough ? "all sets" : "all sets of up to 2, and of all but up to 2,"), cor.size() * 16 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(16), t = d.take(2) ? NT_DD : NT_COR;
        std::vector<int> mask = { m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1 };
        uint64_t p = cor[d.v];
        G g = t == NT_DD ? pattern(5, 5, ddmask(5, 5, p, 0, 0), GEO_AFFINE) : pattern(3, 3, p, GEO_AFFINE);
        checkgetnodes(c, g, t, NT_DD, (int) (idx / 32 % 3), &mask, (int) (idx % 24));
    });
    add(F, "all masks of 3x2 cells, centre output, all single missing nodes", 64ULL * 3 * 13, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(64), t = d.take(3), k = d.take(13);
        std::vector<int> mask;
        for (int b = 0; b < 6; ++b)
            mask.push_back(m >> b & 1);
        uint64_t p = k == 0 ? 0 : 1ULL << (k - 1);
        G g = t == 0 ? pattern(7, 5, ddmask(7, 5, p & 0xfff, 0, 0), GEO_CURVI) : t == 1 ? pattern(4, 3, p & 0xfff, GEO_CURVI) : pattern(3, 2, p & 0x3f, GEO_CURVI);
        static const int T[3] = { NT_DD, NT_COR, NT_CEN };
        checkgetnodes(c, g, T[t], NT_CEN, 0, &mask, (int) (idx % 24));
    });
    add(F, "all masks of 3x2 and 2x3 cells, double density output, all single missing nodes", 64ULL * 2 * 3 * 13, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(64), tall = d.take(2), W = tall ? 2 : 3, H = tall ? 3 : 2, t = d.take(3), k = d.take(13), ct = (int) (idx % 3);
        std::vector<int> mask;
        for (int b = 0; b < 6; ++b)
            mask.push_back(m >> b & 1);
        uint64_t p = k == 0 ? 0 : 1ULL << (k - 1);
        if (t == 2 && k > 6)
            return;
        G g = t == 0 ? pattern(2 * W + 1, 2 * H + 1, ddmask(2 * W + 1, 2 * H + 1, p & 0xfff, 0, 0), GEO_CURVI) : t == 1 ? pattern(W + 1, H + 1, p & 0xfff, GEO_CURVI) : pattern(W, H, p & 0x3f, GEO_CURVI);
        static const int T[3] = { NT_DD, NT_COR, NT_CEN };
        checkgetnodes(c, g, T[t], NT_DD, ct, &mask, (int) (idx % 24));
    });
    add(F, "a mask cannot be applied to corner output", 16ULL * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(16), t = d.take(3);
        std::vector<int> mask = { m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1 };
        static const int T[3] = { NT_DD, NT_COR, NT_CEN };
        G g = t == 0 ? geogrid(5, 5, 1) : t == 1 ? geogrid(3, 3, 1) : geogrid(2, 2, 1);
        checkgetnodes(c, g, T[t], NT_COR, 0, &mask, (int) (idx % 24));
    });
    add(F, "all sizes up to 8x8 cells, all types", 64ULL * 9 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[3] = { NT_DD, NT_CEN, NT_COR };
        int ti = T[d.take(3)], to = T[d.take(3)], W = 1 + d.take(8), H = 1 + d.take(8), msk = d.take(2);
        int nx = ti == NT_DD ? 2 * W + 1 : ti == NT_COR ? W + 1 : W, ny = ti == NT_DD ? 2 * H + 1 : ti == NT_COR ? H + 1 : H;
        G g = geogrid(nx, ny, (int) (idx % GEO_N));
        std::vector<int> mask((size_t) W * H, 1);
        for (int k = 0; k < W * H; ++k)
            mask[k] = (k * 7 + k / W) % 4 != 0;
        checkgetnodes(c, g, ti, to, 0, msk ? &mask : nullptr, (int) (idx % 24));
    });
    /* sizes beyond 16-bit counts */
    for (int mid = 0; mid < 2; ++mid)
    add(F, strf("%s, all types", SIZENAME[mid]), sizes(mid).size() * NLARGEPAT * 7 * 2 / (mid ? 8 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int T[7][2] = { {NT_DD, NT_DD}, {NT_DD, NT_COR}, {NT_DD, NT_CEN}, {NT_COR, NT_COR}, {NT_COR, NT_CEN}, {NT_COR, NT_DD}, {NT_CEN, NT_CEN} };
        const int* t = T[d.take(7)];
        int l = d.take(sizes(mid).size());
        static const int MP[6] = { 0, 1, 2, 4, 5, 6 }, MB[3] = { 0, 2, 6 };
        int pat = !mid ? d.take(NLARGEPAT) : t[0] == NT_COR && t[1] != NT_COR ? MB[l % 3] : MP[l % 6], msk = d.take(2);
        Size sz = fit(sizes(mid)[l], t[0] == NT_DD ? NT_DD : NT_COR);
        int nx = sz.nx, ny = sz.ny;
        if (mid && t[0] == NT_COR && (nx == 1 || ny == 1))
            return;
        if (t[0] != NT_DD && t[1] != NT_COR && nx == 1 && t[0] == NT_COR)
            return;
        if (t[0] == NT_COR && t[1] != NT_COR && pat != 0 && pat != 2 && pat != 6)
            return;             /* in pieces: not for the binary map */
        if (!thorough && (pat == 3 || pat == 7 || (msk && t[1] == NT_COR)))
            return;
        G g = largegrid(nx, ny, pat, GEO_RECTI);
        int W = t[0] == NT_DD ? (nx - 1) / 2 : t[0] == NT_COR ? nx - 1 : nx, H = t[0] == NT_DD ? (ny - 1) / 2 : t[0] == NT_COR ? ny - 1 : ny;
        if (W < 1 || H < 1)
            return;
        std::vector<int> mask((size_t) W * H, 1);
        for (size_t k = 0; k < mask.size(); ++k)
            mask[k] = k % 89 != 7 && k + 1 != mask.size();
        checkgetnodes(c, g, t[0], t[1], msk ? 0 : (int) (idx / 7 % 3), msk ? &mask : nullptr, (int) (idx % 24));
    }, mid ? 0 : 1);
}

/* ----------------------------------------------------------- C30 the -p tweak */
static G modtweak(G g)
{
    for (int i = 0; i < g.nx; ++i)
        for (int j = 1; j < g.ny; ++j)
            if (fabs(g.X(i, j) - g.X(i, j - 1)) > 180)
                g.x[g.id(i, j)] += 360;
    for (int j = 0; j < g.ny; ++j) {
        std::vector<char> cut(g.nx, 0);
        for (int i = 0; i + 1 < g.nx; ++i)
            cut[i] = fabs(g.X(i + 1, j) - g.X(i, j)) > 180;
        for (int i = 0; i + 1 < g.nx; ++i)
            if (cut[i])
                g.kill(i, j);
        for (int i = 0; i + 1 < g.nx; ++i)
            cut[i] = fabs(g.Y(i + 1, j) - g.Y(i, j)) > 90;
        for (int i = 0; i + 1 < g.nx; ++i)
            if (cut[i])
                g.kill(i, j);
    }
    return g;
}
PROPERTY(C30)
{
    static const double XA[] = { -170, -20, 10, 170, NAN, 190, 350 }, YA[] = { -80, 0, 85, 10.5 };
    auto go = [](Ctx& c, const G& g, int t, bool p) {
        SV av = { "getnodes", "-i", TNAME[t], "-o", TNAME[t], "-" };
        if (p)
            av.push_back("-p");
        G v = modvalid(g, (NODETYPE) t);
        G want = p ? modtweak(v) : v;
        uint64_t h = t;
        for (size_t k = 0; k < g.x.size(); ++k)
            h = hashd(hashd(h, g.x[k]), g.y[k]);
        c.state(mix(h, p));
        Out o = tool(c, av, gridtext(g), 0);
        expectout(c, o.out, want, 0, strf("getnodes%s of %s", p ? " -p" : "", gstr(g).c_str()).c_str(), 1e-15);
    };
    struct S { int nx, ny, na; };
    std::vector<S> ss = { {3, 2, 5}, {2, 3, 5}, {1, 4, 7}, {5, 1, 5}, {4, 1, 7}, {1, 5, 5} };
    if (thorough) {
        ss.push_back({3, 2, 7});
        ss.push_back({2, 3, 7});
        ss.push_back({3, 3, 4});
    }
    for (auto& s : ss) {
        uint64_t n = 1;
        for (int k = 0; k < s.nx * s.ny; ++k)
            n *= s.na;
        add(F, strf("all longitudes from an alphabet of %d, %dx%d nodes", s.na, s.nx, s.ny), n, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            G g(s.nx, s.ny);
            for (size_t k = 0; k < g.x.size(); ++k) {
                g.x[k] = XA[d.take(s.na)];
                g.y[k] = std::isnan(g.x[k]) ? NAN : 10.0 + k;
            }
            go(c, g, NT_CEN, true);
        });
    }
    add(F, "all latitudes from an alphabet of 4, 3x2 nodes", 4096ULL * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int nan = d.take(2);
        G g(3, 2);
        for (size_t k = 0; k < g.x.size(); ++k) {
            g.y[k] = YA[d.take(4)];
            g.x[k] = 10.0 * k;
        }
        if (nan)
            g.kill(1, 0);
        go(c, g, NT_CEN, true);
    });
    add(F, "validated grids: the tweak comes last", 2ULL * 2 * 512 * 4 * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_COR : NT_DD, sc = t == NT_DD ? 2 : 1;
        bool p = d.take(2);
        int cx = d.take(4), cy = d.take(4);     /* where the date line and the pole are crossed */
        uint64_t m = d.v;
        G g = t == NT_COR ? G(3, 3) : G(5, 5);
        for (int j = 0; j < g.ny; ++j)
            for (int i = 0; i < g.nx; ++i)
                g.set(i, j, i < cx * sc ? 170 + i : j % 2 ? 191 - i : -170 + i, i < cy * sc ? 80 - j : -80 + j);
        kill(g, t == NT_COR ? m : ddmask(5, 5, m, 0, 0));
        go(c, g, t, p);
    });
    /* after validation, conversion and mask; with one coordinate */
    static const int TT[6][2] = { {NT_DD, NT_DD}, {NT_DD, NT_CEN}, {NT_DD, NT_COR}, {NT_COR, NT_COR}, {NT_CEN, NT_CEN}, {NT_COR, NT_CEN} };
    add(F, "after conversions and all masks of 3x2 cells", 6ULL * 64 * 3 * 7 * 4 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const int* t = TT[d.take(6)];
        int m = d.take(64), ct = d.take(3), cx = d.take(7), cy = d.take(4), hole = d.take(2), sc = t[0] == NT_DD ? 2 : 1;
        G g = t[0] == NT_DD ? G(7, 5) : t[0] == NT_COR ? G(4, 3) : G(3, 2);
        bool fold = !(t[0] == NT_COR && t[1] == NT_CEN);        /* the map needs cells which do not overlap */
        for (int j = 0; j < g.ny; ++j)
            for (int i = 0; i < g.nx; ++i)
                g.set(i, j, i * 2 < cx * sc ? 170 + i + 0.125 * j : (fold ? -182 : 540) + i + 0.125 * j, i < cy * sc || !fold ? 40 - j : -60 - j);
        if (hole)
            g.kill(g.nx - 1, g.ny - 1);
        std::vector<int> mask;
        for (int b = 0; b < 6; ++b)
            mask.push_back(m >> b & 1);
        checkgetnodes(c, g, t[0], t[1], ct, t[1] == NT_COR ? nullptr : &mask, (int) (idx % 24), 1 + (int) (idx / 24 % 2));
    });
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * (mid ? 1 : 4) * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(mid).size()), pat = mid ? l % 4 : d.take(4), t = d.take(2) ? NT_COR : NT_CEN, nx = sizes(mid)[l].nx, ny = sizes(mid)[l].ny;
        static const int PAT[4] = { 0, 1, 4, 6 };
        G g(nx, ny);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                g.set(i, j, i % (mid ? 30 : 301) < (mid ? 10 : 100) ? 170 : -175 + (i + j) % 7 + (j % 11 == 3 ? 360 : 0), j % (mid ? 50 : 1000) == 7 && i % 3 == 1 ? -80 : 40 + j % 20);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                if (largebad(PAT[pat], nx, ny, i, j))
                    g.kill(i, j);
        go(c, g, t, true);
    }, mid ? 0 : 1);
}

/* -------------------------------------------------------- C31 grid statistics */
/* a grid file with various lines for the invalid nodes */
static std::string oddtext(const G& g, uint64_t seed)
{
    static const char* BAD[] = { "NaN NaN", "# no node", "", "land", "1.5 NaN", "nan 2", "7", "#1 2", "NaN", "-", "  " };
    const size_t N = sizeof BAD / sizeof BAD[0];
    std::string s = gridtext(g), r;
    size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p);
        if (q == std::string::npos)
            q = s.size();
        std::string l = s.substr(p, q - p);
        r += (l == "NaN NaN" ? std::string(BAD[seed++ % N]) : l) + "\n";
        p = q + 1;
    }
    return r;
}
static void checkstats(Ctx& c, const G& in, int t, int to, const std::string& name)
{
    SV av = { "getnodes", "-v", "-i", TNAME[t], "-o", TNAME[to], "-" };
    G v = modvalid(in, (NODETYPE) t);
    G co = t == NT_DD ? dd2co(v) : v;
    if (t == NT_COR && to != NT_COR && !bmapok(v))
        return;                 /* corner nodes are converted through the binary map */
    Out o = tool(c, av, oddtext(in, hashs(name.c_str()) >> 8), 0);
    int n = 0, nvalid = 0;
    for (int j = 0; j + 1 < co.ny; ++j)
        for (int i = 0; i + 1 < co.nx; ++i)
            n += t == NT_DD ? v.ok(i * 2 + 1, j * 2 + 1) : co.cell(i, j);
    c.state(mix(hashs(name.c_str()), t * 16 + to));
    std::string what = strf("statistics of %s (%s)", name.c_str(), TNAME[t]);
    for (size_t k = 0; k < in.x.size(); ++k)
        nvalid += !std::isnan(in.x[k]);
    int cells = t == NT_CEN ? -1 : n;
    double pc;
    int cnt;
    size_t p1 = o.err.find(" non-empty grid nodes");
    MC_CHECK(c, p1 != std::string::npos, "%s: no node count in\n%s", what.c_str(), o.err.c_str());
    size_t p0 = o.err.rfind('\n', p1);
    MC_CHECK(c, sscanf(o.err.c_str() + p0, " ## %d non-empty grid nodes (%lf", &cnt, &pc) == 2 && cnt == nvalid && fabs(pc - 100.0 * nvalid / in.x.size()) < 0.051, "%s: %d nodes of %d are valid:\n%s", what.c_str(), nvalid, (int) in.x.size(), o.err.c_str());
    if (cells >= 0) {
        p1 = o.err.find(" valid cells");
        MC_CHECK(c, p1 != std::string::npos, "%s: no cell count in\n%s", what.c_str(), o.err.c_str());
        p0 = o.err.rfind('\n', p1);
        MC_CHECK(c, sscanf(o.err.c_str() + p0, " ## %d valid cells", &cnt) == 1 && cnt == cells, "%s: %d valid cells:\n%s", what.c_str(), cells, o.err.c_str());
    }
    if (to == NT_CEN) {
        MC_CHECK(c, o.err.find("orthogonality") == std::string::npos, "%s: cell statistics of centre nodes:\n%s", what.c_str(), o.err.c_str());
        return;
    }
    verifystats(c, co, o.err, what);
}
PROPERTY(C31)
{
    struct S { int W, H; };
    std::vector<S> ss = { {2, 2}, {3, 2}, {1, 5} };
    if (thorough)
        ss.push_back({3, 3});
    for (auto& q : ss)
        add(F, strf("all patterns of valid cells of %dx%d cells, all geometries", q.W, q.H), (1ULL << (q.W * q.H)) * GEO_ALL * 3, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int k = d.take(3), geo = d.take(GEO_ALL);
            Shape s = shapeof(q.W, q.H, (uint32_t) d.v);
            std::string name = strf("%s %s", shstr(q.W, q.H, s).c_str(), geoname[geo]);
            if (k == 1)
                checkstats(c, ddgrid(q.W, q.H, s, geo), NT_DD, NT_DD, name);
            else {
                G g = geogrid(q.W + 1, q.H + 1, geo);
                applyshape(g, s);
                checkstats(c, g, NT_COR, k == 0 ? NT_COR : (idx / 3 % 2 ? NT_CEN : NT_COR), name);
            }
        });
    /* single cells: all quadrangles on a lattice */
    int L = thorough ? 5 : 4;
    uint64_t n = 1;
    for (int k = 0; k < 3; ++k)
        n *= (uint64_t) L * L;
    add(F, strf("all cells with corners on a %dx%d lattice", L, L), n, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        double x[4], y[4];
        x[0] = y[0] = 0;
        for (int k = 1; k < 4; ++k) {
            x[k] = d.take(L) - (L - 1) / 2;
            y[k] = d.take(L) - (L - 1) / 2;
        }
        /* order 0,1,3,2 around; skip degenerate sides */
        static const int o[4] = { 0, 1, 3, 2 };
        for (int k = 0; k < 4; ++k) {
            int a = o[k], b = o[(k + 1) % 4];
            if (x[a] == x[b] && y[a] == y[b])
                return;
        }
        if ((x[0] + x[1] == x[2] + x[3] && y[0] + y[1] == y[2] + y[3]) || (x[0] + x[2] == x[1] + x[3] && y[0] + y[2] == y[1] + y[3]))
            return;
        G g(2, 2);
        for (int k = 0; k < 4; ++k)
            g.set(k % 2, k / 2, 10 + 3 * x[k], -4 + 3 * y[k]);
        checkstats(c, g, NT_COR, NT_COR, gstr(g));
    });
    /* rows of rectangles with slightly different aspect ratios, in any order */
    add(F, "slightly different aspect ratios, in all orders", 24ULL * 4 * 3 * 2 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        static const double AR[4] = { 1, 2, 1000, 1e5 }, E[3] = { 1e-2, 1e-5, 1e-7 };
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_COR, tall = d.take(2), flip = d.take(2), perm[4] = { 0, 1, 2, 3 };
        double ar = AR[d.take(4)], e = E[d.take(3)], at = 0;
        for (uint64_t k = 0; k < d.v; ++k)
            std::next_permutation(perm, perm + 4);
        G g(flip ? 2 : 5, flip ? 5 : 2);
        for (int k = 0; k < 5; ++k) {
            for (int b = 0; b < 2; ++b)
                g.set(flip ? b : k, flip ? k : b, at, b * (tall ? ar : 1 / ar));
            if (k < 4)
                at += tall ? 1 / (1 + e * perm[k]) : 1 + e * perm[k];
        }
        if (t == NT_DD) {
            G q(g.nx * 2 - 1, g.ny * 2 - 1);
            for (int j = 0; j < q.ny; ++j)
                for (int i = 0; i < q.nx; ++i)
                    q.set(i, j, (g.X(i / 2, j / 2) + g.X((i + 1) / 2, (j + 1) / 2)) / 2, (g.Y(i / 2, j / 2) + g.Y((i + 1) / 2, (j + 1) / 2)) / 2);
            g = q;
        }
        checkstats(c, g, t, t, strf("aspect ratios %g + %g", ar, e));
    });
    add(F, "all patterns of missing nodes of 3x3 nodes", 512ULL * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(3);
        if (t == 0)
            checkstats(c, pattern(3, 3, d.v, GEO_CURVI), NT_COR, NT_COR, strf("pattern %d", (int) d.v));
        else if (t == 1)
            checkstats(c, pattern(5, 5, ddmask(5, 5, d.v, 0, 0), GEO_CURVI), NT_DD, NT_DD, strf("pattern %d", (int) d.v));
        else
            checkstats(c, pattern(3, 3, d.v, GEO_CURVI), NT_CEN, NT_CEN, strf("pattern %d", (int) d.v));
    });
    /* statistics again after changes of the nodes */
    const int NH31 = 12, depth31 = thorough ? 6 : 4;
    add(F, strf("histories of %d changes, with statistics after each", depth31), (uint64_t) pow(NH31, depth31) * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int kind = d.take(4);
        NODETYPE t = kind % 2 ? NT_COR : NT_DD;
        int sc = t == NT_DD ? 2 : 1, W = 2 + kind / 2, H = 2;
        G g = geogrid(W * sc + 1, H * sc + 1, GEO_CURVI);
        bool validated = false;
        int next = 0;
        gridnodes* p = mkgn(g, t);
        struct Guard { gridnodes*& p; ~Guard() { gridnodes_destroy(p); gu_verbose = 0; } } guard{p};
        auto node = [&](int i, int j, double x, double y) {
            g.set(i, j, x, y);
            gridnodes_getx(p)[j][i] = x;
            gridnodes_gety(p)[j][i] = y;
        };
        auto stats = [&](int k) {
            if (!validated) {
                g = modvalid(g, t);
                validated = true;
            }
            gu_verbose = 1;
            std::string e = errof([&] { gridnodes_calcstats(p); });
            gu_verbose = 0;
            G co = t == NT_DD ? dd2co(g) : g;
            c.step();
            if (nicecells(co))
                verifystats(c, co, e, strf("statistics after %d changes (%s)", k, TNAME[t]));
            uint64_t h = mix(t, next);
            for (size_t q = 0; q < g.x.size(); ++q)
                h = hashd(h, g.x[q]);
            c.state(mix(h, W));
        };
        stats(0);
        for (int k = 0; k < depth31; ++k) {
            int o = d.take(NH31), e = g.nx - 1, f = g.ny - 1, m = sc * (g.nx / sc / 2);
            double x, y;
            c.log("change %d", o);
            switch (o) {
            case 0:            /* move the first corner */
                geopos(GEO_CURVI, 0, 0, &x, &y);
                node(0, 0, x - 0.25, y - 0.375);
                break;
            case 1:            /* move a corner of several cells */
                node(m, std::min(sc, f), 1.5 * g.nx, 1.25);
                break;
            case 2:
                node(e, f, NAN, NAN);
                break;
            case 3:            /* bring it back */
                geopos(GEO_CURVI, e, f, &x, &y);
                node(e, f, x, y);
                break;
            case 4:
                node(m, std::min(sc, f), NAN, NAN);
                break;
            case 5:
                gridnodes_validate(p);
                g = modvalid(g, t);
                validated = true;
                break;
            case 6:
                {
                    gridnodes* q = gridnodes_copy(p);
                    gridnodes_destroy(p);
                    p = q;
                    validated = false;
                    next = 0;
                    break;
                }
            case 7:
                if (t == NT_DD) {
                    gridnodes* q = gridnodes_transform(p, NT_COR);
                    gridnodes_destroy(p);
                    p = q;
                    g = dd2co(g);
                    t = NT_COR;
                    sc = 1;
                    next = 0;
                }
                break;
            case 8:
                if (g.nx > sc) {
                    gridnodes* q = gridnodes_subgrid(p, sc, e, 0, f);
                    G w(g.nx - sc, g.ny);
                    for (int j = 0; j < g.ny; ++j)
                        for (int i = sc; i < g.nx; ++i)
                            w.set(i - sc, j, g.X(i, j), g.Y(i, j));
                    gridnodes_destroy(p);
                    p = q;
                    g = w;
                    validated = false;
                    next = 0;
                }
                break;
            case 9:
                if (t == NT_DD && g.nx > 2) {
                    int w = (g.nx - 1) / 2, h = (g.ny - 1) / 2;
                    std::vector<int> mv((size_t) w * h, 1);
                    mv[0] = 0;
                    int** mask = (int**) gu_alloc2d(h, w, sizeof(int));
                    for (int q = 0; q < w * h; ++q)
                        mask[q / w][q % w] = mv[q];
                    gridnodes_applymask(p, mask);
                    gu_free2d(mask);
                    g = modmask(g, t, mv);
                    validated = true;
                }
                break;
            case 10:           /* write over the nodes, one by one: all positions stretched */
                for (int q = 0; q < g.nx * g.ny; ++q) {
                    geopos(GEO_UNIT, q % g.nx, q / g.nx, &x, &y);
                    x += 0.25 * y;
                    y *= 1.75;
                    gridnodes_readnextpoint(p, x, y);
                    g.x[(next + q) % g.x.size()] = x;
                    g.y[(next + q) % g.x.size()] = y;
                }
                break;
            default:           /* write over one node */
                gridnodes_readnextpoint(p, -0.75, -1.125);
                g.x[next] = -0.75;
                g.y[next] = -1.125;
                next = (next + 1) % (int) g.x.size();
                break;
            }
            stats(k + 1);
        }
    });
    /* sizes beyond 16-bit counts */
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * (mid ? 1 : 4) * 3 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(mid).size()), pat = mid ? l % 4 : d.take(4), k = d.take(3), geo = d.take(2) ? GEO_CURVI : GEO_RECTI;
        Size sz = fit(sizes(mid)[l], k == 0 ? NT_DD : NT_COR);
        int nx = sz.nx, ny = sz.ny;
        static const int PAT[4] = { 0, 2, 5, 6 }, T[3][2] = { {NT_DD, NT_DD}, {NT_COR, NT_COR}, {NT_CEN, NT_CEN} };
        if (k < 2 && (nx == 1 || ny == 1))
            nx += 2, ny += 2;
        checkstats(c, largegrid(nx, ny, PAT[pat], geo), T[k][0], T[k][1], strf("%dx%d pattern %d %s", nx, ny, PAT[pat], geoname[geo]));
    }, mid ? 0 : 1);
}

/* ------------------------------------------------------------- C32 gridbathy */
struct Z {
    double x, y, z, fi, fj;
    bool in;
};
/* the stand-in interpolators, see stubs.c */
static double standin(int rule, const std::vector<Z>& d, double x, double y, bool index)
{
    static const double A[] = { 1, -2, 3, 0.5 }, B[] = { 2, 5, -1, -0.25 };
    double mx = 0, my = 0, mz = 0, x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    int n = 0;
    for (auto& p : d)
        n += !index || p.in;
    for (auto& p : d) {
        if (index && !p.in)
            continue;
        double px = index ? p.fi : p.x, py = index ? p.fj : p.y;
        mx += px / n;
        my += py / n;
        mz += p.z / n;
        x0 = std::min(x0, px);
        x1 = std::max(x1, px);
        y0 = std::min(y0, py);
        y1 = std::max(y1, py);
    }
    if (n == 0)
        return NAN;
    if (rule != 0 && !(x >= x0 && x <= x1 && y >= y0 && y <= y1))
        return NAN;
    return mz + A[rule] * (x - mx) + B[rule] * (y - my);
}
PROPERTY(C32)
{
    struct B { int W, H; };
    /* indices of data points: off the lattice of evaluation points */
    static const double DI[][3] = { {0.21, 0.33, 10}, {1.57, 0.11, -3.5}, {0.77, 1.71, 25.25}, {2.47, 1.23, 4}, {-0.4, 0.5, 100}, {1.13, 1.91, -40}, {0.29, 0.37, 30}, {1.5, -0.7, 77},
        {1.5, 1.25, 9}, {1.5, 1.25, -11}, {1.5, 1.25, -11}, {0.21, 0.33, 64}, {2.25, 0.75, INFINITY}, {1.25, 1.5, -INFINITY} };
    auto go = [](Ctx& c, int W, int H, const Shape& s, int geo, int t, int rule, int n, bool index, int ci, int cj, const std::vector<int>* mask, int range, unsigned data, int dflt) {
        G in, co;
        if (t == NT_DD) {
            in = ddgrid(W, H, s, geo);
            /* ddgrid's corners are at even nodes */
            co = dd2co(validDD(in));
        } else {
            in = geogrid(W + 1, H + 1, geo);
            applyshape(in, s);
            co = in;
        }
        std::vector<Z> d;
        std::string dt = "# data\n";
        for (int k = 0; k < 14; ++k)
            if (data >> k & 1) {
                Z p;
                p.fi = DI[k][0];
                p.fj = DI[k][1];
                p.z = DI[k][2];
                int i = (int) floor(p.fi), j = (int) floor(p.fj);
                p.in = i >= 0 && j >= 0 && i < W && j < H && co.cell(i, j);
                if (p.in)
                    bilin(co, i, j, p.fi - i, p.fj - j, &p.x, &p.y);
                else {
                    double px[2][2], py[2][2], u = p.fi - i, v = p.fj - j;
                    int sc = t == NT_DD ? 2 : 1;
                    for (int b = 0; b < 2; ++b)
                        for (int a = 0; a < 2; ++a)
                            geopos(geo, (i + a) * sc, (j + b) * sc, &px[b][a], &py[b][a]);
                    p.x = (1 - v) * ((1 - u) * px[0][0] + u * px[0][1]) + v * ((1 - u) * px[1][0] + u * px[1][1]);
                    p.y = (1 - v) * ((1 - u) * py[0][0] + u * py[0][1]) + v * ((1 - u) * py[1][0] + u * py[1][1]);
                }
                d.push_back(p);
                dt += strf("%.17g %.17g %.17g\n", p.x, p.y, p.z);
            }
        int nin = 0;
        for (auto& p : d)
            nin += p.in;
        if (index && rule != 4 && nin < 3)
            return;             /* too few points for an interpolation in index space */
        SV av = { "gridbathy", "-b", put("data", dt), "-g", put("grid", gridtext(in)) };
        if (rule != 0 || !dflt) {
            av.push_back("-a");
            av.push_back(strf("%d", rule));
        }
        if (n != 3 || !dflt) {
            av.push_back("-n");
            av.push_back(strf("%d", n));
        }
        addtype(av, "-i", t);
        if (index)
            av.push_back("-x");
        if (ci >= 0) {
            av.push_back("-c");
            av.push_back(strf("%d", ci));
            av.push_back(strf("%d", cj));
        }
        double zmin = -1e300, zmax = 1e300;
        if (range) {
            zmin = range == 1 ? -5 : 0;
            zmax = range == 1 ? 20 : 8.125;
            av.push_back("-r");
            av.push_back(strf("%g", zmin));
            av.push_back(strf("%g", zmax));
        }
        if (mask != nullptr) {
            std::string m;
            for (int b : *mask)
                m += b ? "1\n" : "0\n";
            av.push_back("-m");
            av.push_back(put("mask", m));
        }
        std::string what = strf("gridbathy %s %s %s -a %d -n %d%s data %x range %d%s", shstr(W, H, s).c_str(), geoname[geo], TNAME[t], rule, n, index ? " -x" : "", data, range, ci >= 0 ? strf(" -c %d %d", ci, cj).c_str() : "");
        c.state(hashs((what + (mask ? " mask" : "")).c_str()));
        Out o = tool(c, av, "", 0);
        SV l = lines(o.out);
        bool idx2 = index && rule != 4;
        size_t k = 0;
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i) {
                if (ci >= 0 && (i != ci || j != cj))
                    continue;
                double want = NAN;
                if (co.cell(i, j) && (mask == nullptr || (*mask)[(size_t) j * W + i])) {
                    double sum = 0;
                    int cnt = 0;
                    if (rule == 4) {
                        for (auto& p : d)
                            if (p.in && (int) p.fi == i && (int) p.fj == j) {
                                sum += p.z;
                                ++cnt;
                            }
                        if (cnt)
                            want = std::min(std::max(sum / cnt, zmin), zmax);
                    } else {
                        for (int a = 0; a < n; ++a)
                            for (int b = 0; b < n; ++b) {
                                double u = (a + 0.5) / n, v = (b + 0.5) / n, x = i + u, y = j + v;
                                if (!idx2)
                                    bilin(co, i, j, u, v, &x, &y);
                                double z = standin(rule, d, x, y, idx2);
                                if (std::isnan(z))
                                    continue;
                                sum += std::min(std::max(z, zmin), zmax);
                                ++cnt;
                            }
                        if (cnt)
                            want = sum / cnt;
                    }
                }
                MC_CHECK(c, k < l.size(), "%s: only %d output lines", what.c_str(), (int) l.size());
                char* e;
                double got = strtod(l[k].c_str(), &e);
                MC_CHECK(c, *e == 0 && e != l[k].c_str() && close_(got, want, 0.0052), "%s: cell (%d,%d) is \"%s\", expected %.4f", what.c_str(), i, j, l[k].c_str(), want);
                ++k;
            }
        MC_CHECK(c, l.size() == k, "%s: %d output lines, expected %d", what.c_str(), (int) l.size(), (int) k);
    };
    static const int NN[] = { 3, 1, 2, 10 };
    static const int GEO[] = { GEO_UNIT, GEO_CURVI, GEO_AFFINE };
    static std::vector<uint32_t> sh;
    sh = simpleshapes(3, 2);
    add(F, "all simply connected shapes of 3x2 cells, all interpolators", sh.size() * 5 * 2 * 2 * 3 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int rule = d.take(5), x = d.take(2), t = d.take(2) ? NT_DD : NT_COR, geo = GEO[d.take(3)], r = d.take(2);
        go(c, 3, 2, shapeof(3, 2, sh[d.v]), geo, t, rule, NN[(idx / 7) % 3], x, -1, -1, nullptr, r, 0x3f, idx / 3 % 2);
    });
    add(F, "all masks of 3x2 cells", 64ULL * 5 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(64), rule = d.take(5), t = d.take(2) ? NT_DD : NT_COR, shp = d.take(2);
        std::vector<int> mask;
        for (int b = 0; b < 6; ++b)
            mask.push_back(m >> b & 1);
        go(c, 3, 2, shapeof(3, 2, shp ? 0x3f : 0x1f), GEO_CURVI, t, rule, 2, false, -1, -1, &mask, 0, 0xff, 1);
    });
    add(F, "all masks of 3x2 cells with interpolation in index space, limits, single cells", 64ULL * 5 * 2 * 3 * 7, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(64), rule = d.take(5), x = d.take(2), r = d.take(3), cell = d.take(7);
        std::vector<int> mask;
        for (int b = 0; b < 6; ++b)
            mask.push_back(m >> b & 1);
        go(c, 3, 2, shapeof(3, 2, idx % 5 ? 0x3f : 0x1f), GEO_CURVI, idx % 3 ? NT_COR : NT_DD, rule, 1 + (int) (idx % 2), x, cell == 6 ? -1 : cell % 3, cell == 6 ? -1 : cell / 3, &mask, r, 0xff, 1);
    });
    add(F, "all single cells, all numbers of points, all ranges", 6ULL * 5 * 10 * 3 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ci = d.take(3), cj = d.take(2), rule = d.take(5), n = 1 + d.take(10), r = d.take(3), x = d.take(2);
        go(c, 3, 2, shapeof(3, 2, (idx / 13) % 2 ? 0x3f : 0x37), GEO_AFFINE, NT_COR, rule, n, x, ci, cj, nullptr, r, 0x2f, idx % 2);
    });
    add(F, "all sets of data points", 256ULL * 5 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int rule = d.take(5), x = d.take(2);
        unsigned data = (unsigned) d.v;
        if (__builtin_popcount(data) < 3) {
            std::string dt;
            for (int k = 0; k < 8; ++k)
                if (data >> k & 1)
                    dt += strf("%g %g %g\n", DI[k][0], DI[k][1], DI[k][2]);
            c.state(mix(idx, 77));
            tool(c, {"gridbathy", "-i", "co", "-b", put("data", dt), "-g", put("grid", gridtext(geogrid(4, 3, 0))), "-a", strf("%d", rule)}, "", 1);
            return;
        }
        go(c, 3, 2, shapeof(3, 2, 0x3f), GEO_CURVI, NT_COR, rule, 2, x, -1, -1, nullptr, 0, data, 0);
    });
    add(F, "data points in the same places", 15ULL * 4 * 5 * 2 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int rule = d.take(5), x = d.take(2), r = d.take(3);
        unsigned few = d.take(4), data = (unsigned) (d.v + 1) << 8;
        static const unsigned BASE[4] = { 0x0f, 0x07, 0x2d, 0xff };
        go(c, 3, 2, shapeof(3, 2, 0x3f), GEO_CURVI, idx % 3 ? NT_COR : NT_DD, rule, 2, x, -1, -1, nullptr, r, BASE[few] | data, 0);
    });
    add(F, "infinite values within limits, averaging", 3ULL * 2 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        unsigned data = (unsigned) (d.take(3) + 1) << 12;
        int r = d.take(2) + 1, t = d.take(2) ? NT_DD : NT_COR, x = d.take(2);
        go(c, 3, 2, shapeof(3, 2, 0x3f), GEO_CURVI, t, 4, 2, x, -1, -1, nullptr, r, 0x2f | data, 0);
    });
    /* sizes beyond 16-bit counts: grids, data points */
    struct L { int W, H; };
    static const L LG[] = { {260, 255}, {66000, 1}, {1, 66000}, {2, 33001}, {33001, 2} };
    add(F, "large grids", 5ULL * 5 * 2 * 2 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const L& l = LG[d.take(5)];
        int rule = d.take(5), t = d.take(2) ? NT_DD : NT_COR, x = d.take(2), kind = d.take(3);
        Shape s((size_t) l.W * l.H, 1);
        if (kind == 1)
            for (size_t k = 0; k < s.size(); ++k)
                s[k] = (int) (k % l.W) < std::max(2, l.W / 2) || (int) (k / l.W) < std::max(2, l.H / 2);
        std::vector<int> mask(s.size());
        for (size_t k = 0; k < s.size(); ++k)
            mask[k] = k % 101 != 7 && k + 1 != s.size();
        go(c, l.W, l.H, s, GEO_UNIT, t, rule, 1, x, kind == 2 ? l.W - 1 : -1, kind == 2 ? l.H - 1 : -1, kind == 1 ? &mask : nullptr, 0, 0xff, 0);
    }, 1);
    add(F, SIZENAME[1], sizes(1).size() * NMIDSHAPE, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(1).size()), k = d.take(NMIDSHAPE), W = sizes(1)[l].nx, H = sizes(1)[l].ny;
        Shape s = midshape(W, H, k);
        if (classify(W, H, s) != SH_SIMPLE)
            return;
        std::vector<int> mask(s.size());
        for (size_t q = 0; q < s.size(); ++q)
            mask[q] = q % 11 != 7 && q + 1 != s.size();
        bool one = (idx / 17) % 3 == 2, m = (idx / 5) % 2;
        go(c, W, H, s, GEO_UNIT, (idx / 3) % 2 ? NT_DD : NT_COR, (int) (idx / 7 % 5), 1, (idx / 11) % 2, one ? W - 1 : -1, one ? H / 2 : -1, m ? &mask : nullptr, 0, 0xff, 0);
    }, 8);
    add(F, "many data points", 6ULL * 2 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int N[] = { 1000, 32768, 65535, 65536, 65537, 200001 };
        int n = N[d.take(6)], t = d.take(2) ? NT_DD : NT_COR, rng = d.take(2), one = d.take(2), sc = t == NT_DD ? 2 : 1;
        /* the cell averages: sums of exact values in every cell */
        double sum[6] = { 0 };
        int cnt[6] = { 0 };
        std::string dt;
        for (int k = 0; k < n; ++k) {
            int cell = one ? (k + 3 < n ? 4 : k % 3) : (int) ((long) k * 7 / n);
            double u = (k % 15 + 0.5) / 16, v = (k / 15 % 15 + 0.5) / 16, z = k % 1000 + 0.25;
            int i = cell % 3, j = cell / 3;      /* cell 6: outside */
            dt += strf("%.17g %.17g %.17g\n", sc * (i + u), sc * (j + v), z);
            if (cell < 6) {
                sum[cell] += z;
                ++cnt[cell];
            }
        }
        SV av = { "gridbathy", "-a", "4", "-b", put("data", dt), "-g", put("grid", gridtext(geogrid(3 * sc + 1, 2 * sc + 1, GEO_UNIT))), "-i", TNAME[t] };
        if (rng) {
            av.push_back("-r");
            av.push_back("100");
            av.push_back("400");
        }
        c.state(mix(idx, 321));
        Out o = tool(c, av, "", 0);
        SV l = lines(o.out);
        MC_CHECK(c, l.size() == 6, "%d output lines for 6 cells", (int) l.size());
        for (int q = 0; q < 6; ++q) {
            double want = cnt[q] ? sum[q] / cnt[q] : NAN;
            if (rng && cnt[q])
                want = std::min(std::max(want, 100.0), 400.0);
            MC_CHECK(c, close_(atof(l[q].c_str()), want, 0.0052) && (l[q] == "NaN") == !cnt[q], "%d data points: cell %d is \"%s\", expected %.4f (%d points)", n, q, l[q].c_str(), want, cnt[q]);
        }
    }, 1);
}

/* ---------------------------------------------------------- C36 subgrid tool */
PROPERTY(C36)
{
    auto go = [](Ctx& c, const G& g, const int* ri, const int* rj, int ct, int how) {
        SV av = { "subgrid" };
        if (how % 2)
            av.push_back("-");
        if (ri) {
            av.push_back("-i");
            av.push_back(strf("%d:%d", ri[0], ri[1]));
        }
        if (rj) {
            av.push_back("-j");
            av.push_back(strf("%d:%d", rj[0], rj[1]));
        }
        if (ct)
            av.push_back(ct == 1 ? "-x" : "-y");
        std::string txt = gridtext(g);
        if (!(how % 2))
            av.push_back(put("grid", txt));
        int i0 = ri ? std::max(ri[0], 0) : 0, i1 = ri ? std::min(ri[1], g.nx - 1) : g.nx - 1, j0 = rj ? std::max(rj[0], 0) : 0, j1 = rj ? std::min(rj[1], g.ny - 1) : g.ny - 1;
        bool bad = i0 > i1 || j0 > j1;
        std::string what = strf("subgrid %s of %s", join(av).substr(0, 40).c_str(), vstr(g).c_str());
        c.state(hashs(strf("%s %d %d %d %d %d", vstr(g).c_str(), i0, i1, j0, j1, ct).c_str()));
        Out o = tool(c, av, how % 2 ? txt : "", bad ? 1 : 0);
        if (bad)
            return;
        G w(i1 - i0 + 1, j1 - j0 + 1);
        for (int j = j0; j <= j1; ++j)
            for (int i = i0; i <= i1; ++i)
                w.set(i - i0, j - j0, g.X(i, j), g.Y(i, j));
        expectout(c, o.out, w, ct, what.c_str(), 1e-14);
    };
    struct S { int nx, ny; };
    std::vector<S> ss = { {3, 2}, {1, 3}, {4, 1} };
    if (thorough)
        ss.insert(ss.end(), {{4, 4}, {5, 3}, {2, 6}});
    for (auto& s : ss) {
        int ni = s.nx + 3, nj = s.ny + 3;
        uint64_t n = (uint64_t) (ni * ni + 1) * (nj * nj + 1);
        add(F, strf("all pairs of ranges, all single missing nodes, %dx%d nodes", s.nx, s.ny), n * 3 * (s.nx * s.ny + 1), [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int a = d.take(ni * ni + 1), b = d.take(nj * nj + 1), ct = d.take(3), miss = (int) d.v;
            int ri[2] = { a / ni - 1, a % ni - 1 }, rj[2] = { b / nj - 1, b % nj - 1 };
            G g = pattern(s.nx, s.ny, miss ? 1ULL << (miss - 1) : 0, (int) (idx / 7 % GEO_N));
            go(c, g, a == ni * ni ? nullptr : ri, b == nj * nj ? nullptr : rj, ct, (int) (idx % 2));
        });
    }
    /* ranges over patterns of missing nodes */
    static std::vector<uint64_t> mp;
    mp.clear();
    for (int a = 0; a < 25; ++a) {
        mp.push_back(1ULL << a);
        for (int b = 0; b < a; ++b)
            mp.push_back(1ULL << a | 1ULL << b);
    }
    for (int m = 0; m < 32; ++m)
        for (int r = 0; r < 5; ++r) {
            uint64_t row = 0, col = 0;
            for (int k = 0; k < 5; ++k)
                if (m >> k & 1) {
                    row |= 1ULL << (r * 5 + k);
                    col |= 1ULL << (k * 5 + r);
                }
            mp.push_back(row);
            mp.push_back(col);
            mp.push_back(0x1ffffff & ~row);
            mp.push_back(0x1ffffff & ~col);
        }
    std::sort(mp.begin(), mp.end());
    mp.erase(std::unique(mp.begin(), mp.end()), mp.end());
    add(F, strf("%s ranges of 5x5 nodes, all one or two missing nodes, all patterns in a row or column", thorough ? "all" : "four"), (thorough ? 225ULL : 4ULL) * mp.size(), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ri[2] = { 0, 4 }, rj[2] = { 0, 4 };
        if (thorough) {
            int a = d.take(15), b = d.take(15), k = 0;
            for (int i0 = 0; i0 < 5; ++i0)
                for (int i1 = i0; i1 < 5; ++i1, ++k) {
                    if (k == a)
                        ri[0] = i0, ri[1] = i1;
                    if (k == b)
                        rj[0] = i0, rj[1] = i1;
                }
        } else {
            int a = d.take(2), b = d.take(2);
            ri[0] = a && idx & 4, ri[1] = a ? 3 + ri[0] : 4;
            rj[0] = b && idx & 8, rj[1] = b ? 3 + rj[0] : 4;
        }
        go(c, pattern(5, 5, mp[d.v], GEO_CURVI), ri, rj, (int) (idx % 3), (int) (idx % 2));
    });
    static const int BR[][2] = { {0, INT_MAX}, {255, 256}, {32767, 32768}, {65535, 65536}, {65536, 65536}, {65537, INT_MAX}, {-1, 65535}, {0, 0}, {200, 65534} };
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * (mid ? 9 : 81) * (thorough ? 3 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int l = d.take(sizes(mid).size()), a = d.take(9), b = mid ? (a * 2 + l) % 9 : d.take(9), pat = d.take(3);
        static const int PAT[3] = { 1, 0, 5 };
        go(c, largegrid(sizes(mid)[l].nx, sizes(mid)[l].ny, PAT[pat], GEO_CURVI), BR[a], BR[b], (int) (idx % 3), (int) (idx % 2));
    }, mid ? 0 : 4);
    add(F, "extreme ranges", 12ULL * 12 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int R[][2] = { {INT_MIN, INT_MAX}, {INT_MIN, 1}, {1, INT_MAX}, {0, 0}, {2, 2}, {INT_MIN, INT_MIN}, {INT_MAX, INT_MAX}, {INT_MAX, INT_MIN}, {-1, -1}, {3, 3}, {0, 100000}, {-100000, 2} };
        int a = d.take(12), b = d.take(12), ct = d.take(3);
        go(c, pattern(3, 3, 0x12, GEO_UTM), R[a], R[b], ct, (int) (idx % 2));
    });
}

/* -------------------------------------------------------- C34 error handling */
static bool usage_like(const std::string& s)
{
    return s.find("Usage") != std::string::npos;
}
PROPERTY(C34)
{
    /* every tool that reads a grid, with all its ways of reading one */
    struct T { const char* tool; SV av; bool typed; };
    static std::vector<T> tools;
    tools = {
        {"getnodes", {"getnodes", "@G", "-i", "co", "-o", "co"}, true},
        {"getnodes -o ce", {"getnodes", "-i", "co", "-o", "ce", "@G"}, true},
        {"getbound", {"getbound", "-i", "co", "@G"}, true},
        {"getbound -r -c", {"getbound", "-r", "-c", "-i", "co", "@G"}, true},
        {"xy2ij", {"xy2ij", "-i", "co", "-g", "@G", "-o", "@P"}, true},
        {"xy2ij -k", {"xy2ij", "-k", "-i", "co", "-g", "@G", "-o", "@P"}, true},
        {"subgrid", {"subgrid", "@G", "-i", "0:1"}, false},
        {"insertgrid master", {"insertgrid", "@G", "@S", "1", "1"}, false},
        {"insertgrid slave", {"insertgrid", "@S", "@G", "1", "1"}, false},
        {"gridbathy", {"gridbathy", "-i", "co", "-b", "@D", "-g", "@G"}, true},
    };
    auto run = [](Ctx& c, const T& t, const std::string& gtext, bool missing, bool viastdin, int want) {
        SV av = t.av;
        for (auto& a : av) {
            if (a == "@G")
                a = missing ? file("no such file") : viastdin ? "-" : put("grid", gtext);
            else if (a == "@S")
                a = put("slave", gridtext(geogrid(2, 2, 1)));
            else if (a == "@P")
                a = put("points", "0.5 0.5\n");
            else if (a == "@D")
                a = put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n0.8 0.9 1\n");
        }
        Out o = tool(c, av, viastdin ? gtext : "", want);
        if (want != 0)
            MC_CHECK(c, o.out.empty(), "%s: prints results although it fails: %s", join(av).c_str(), o.out.c_str());
        else
            MC_CHECK(c, !o.out.empty(), "%s: prints no results", join(av).c_str());
    };
    size_t nt = tools.size();
    add(F, "missing grid files", nt, [=](Ctx& c, uint64_t idx) {
        c.state(idx);
        run(c, tools[idx], "", true, false, 1);
    });
    add(F, "all truncations of grid files", nt * 2 * 2 * 11, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const T& t = tools[d.take(nt)];
        int in = d.take(2), comment = d.take(2), k = d.take(11);
        G g = geogrid(3, 3, GEO_UNIT);
        SV l = lines(gridtext(g));
        std::string s;
        for (int q = 0; q < k && q < (int) l.size(); ++q)
            s += l[q] + "\n";
        bool complete = k >= 10;
        if (comment && k < 10 && k > 0)
            s += "# one comment\n", complete = k + 1 >= 10;   /* an invalid node */
        if (comment && k == 0)
            s = "# comment only\n";
        c.state(mix(idx, 2));
        run(c, t, s, false, in, complete ? 0 : 1);
    });
    static const char* HDR[] = { "# 3 x 3", "## 3 x", "## x 3", "##", "3 x 3", "## 0 x 3", "## 3 x 0", "## -3 x 3", "## 3 x -3", "## 60000 x 60000", "## 2000000000 x 2000000000", "", "## three x three", "0 0", "## 3 3" };
    add(F, "invalid headers", nt * 15 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        const T& t = tools[d.take(nt)];
        int h = d.take(15), in = d.take(2);
        SV l = lines(gridtext(geogrid(3, 3, GEO_UNIT)));
        std::string s = HDR[h];
        for (size_t k = 1; k < l.size(); ++k)
            s += "\n" + l[k];
        c.state(mix(idx, 3));
        run(c, t, s + "\n", false, in, 1);
    });
    /* node types that a tool cannot process, double density grids of even size */
    add(F, "even double density sizes", 36ULL * 5, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int nx = 1 + d.take(6), ny = 1 + d.take(6), k = d.take(5);
        bool bad = nx % 2 == 0 || ny % 2 == 0;
        if (!bad)
            return;
        std::string g = gridtext(geogrid(nx, ny, 0));
        SV av;
        switch (k) {
        case 0: av = {"getnodes", "-"}; break;
        case 1: av = {"getnodes", "-", "-o", "co"}; break;
        case 2: av = {"getbound", "-"}; break;
        case 3: av = {"xy2ij", "-g", "-", "-o", put("points", "0.5 0.5\n")}; break;
        case 4: av = {"gridbathy", "-g", "-", "-b", put("data", "0 0 0\n0 1 2\n1 0 2\n")}; break;
        }
        c.state(mix(idx, 4));
        Out o = tool(c, av, g, 1);
        MC_CHECK(c, o.out.empty(), "%s: prints results although it fails: %s", join(av).c_str(), o.out.c_str());
    });
    struct E { SV av; int status; bool usage; };
    static std::vector<E> ex;
    ex.clear();
    const char* all[] = { "getnodes", "getbound", "xy2ij", "subgrid", "insertgrid", "setbathy", "gridbathy" };
    for (auto t : all) {
        ex.push_back({{t}, 0, true});
        ex.push_back({{t, "-v"}, 0, false});
        ex.push_back({{t, "-Q"}, 0, true});
        if (strcmp(t, "setbathy"))
            ex.push_back({{t, "-h"}, 0, true});
    }
    ex.back().usage = ex.back().usage;
    for (auto t : { "getnodes", "getbound", "insertgrid", "xy2ij", "gridbathy" })
        for (auto bad : { "xx", "", "DDD", "C" })
            ex.push_back({{t, "-i", bad, "@G", "@G", "0", "0"}, 1, false});
    for (auto t : { "getnodes", "getbound", "insertgrid", "xy2ij", "gridbathy", "subgrid", "setbathy" })
        ex.push_back({{t, "-i"}, 1, false});
    ex.push_back({{"getnodes", "@G", "-m"}, 1, false});
    ex.push_back({{"getnodes", "@G", "-o"}, 1, false});
    ex.push_back({{"getnodes", "@G", "-o", "zz"}, 1, false});
    ex.push_back({{"getnodes", "@G", "-i", "CO", "-o", "DD", "-m", "@N"}, 1, false});
    ex.push_back({{"getbound", "@G", "-i", "CE"}, 1, false});
    ex.push_back({{"xy2ij", "-g", "@G", "-o", "@P", "-i", "CE"}, 1, false});
    ex.push_back({{"xy2ij", "-g", "@G", "-o", "@N", "-i", "CO"}, 1, false});
    ex.push_back({{"xy2ij", "-g", "@G"}, 0, true});
    ex.push_back({{"xy2ij", "-o", "@P"}, 0, true});
    ex.push_back({{"xy2ij", "-g"}, 0, true});
    ex.push_back({{"xy2ij", "@G"}, 0, true});
    ex.push_back({{"subgrid", "@G", "-j"}, 1, false});
    ex.push_back({{"insertgrid", "@G"}, 0, true});
    ex.push_back({{"insertgrid", "@G", "@G"}, 0, true});
    ex.push_back({{"insertgrid", "@G", "@G", "1"}, 0, true});
    ex.push_back({{"insertgrid", "@G", "@G", "1", "1", "1"}, 0, true});
    ex.push_back({{"insertgrid", "@G", "@N", "1", "1"}, 1, false});
    ex.push_back({{"insertgrid", "@N", "@G", "1", "1"}, 1, false});
    ex.push_back({{"setbathy", "@B"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-z"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-j"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-d"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-o"}, 1, false});
    ex.push_back({{"setbathy", "-z", "1"}, 0, true});
    ex.push_back({{"setbathy", "@N", "-z", "1"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-z", "1", "-d", "3"}, 0, true});
    ex.push_back({{"setbathy", "@B", "-z", "1", "-d", "0x3"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-z", "1", "-d", "3x0"}, 1, false});
    ex.push_back({{"setbathy", "@B", "-z", "1", "-d", "99999x99999"}, 1, false});
    for (auto o : { "-a", "-b", "-c", "-g", "-m", "-n", "-r" })
        ex.push_back({{"gridbathy", o}, 1, false});
    ex.push_back({{"gridbathy", "-c", "1"}, 1, false});
    ex.push_back({{"gridbathy", "-r", "1"}, 1, false});
    ex.push_back({{"gridbathy", "-b", "@D"}, 1, false});
    ex.push_back({{"gridbathy", "-g", "@G"}, 1, false});
    /* -v is the version on its own only */
    static const std::vector<SV> PART[6] = {
        {{"getnodes"}, {"-i", "CO"}, {"-o", "CE"}, {"-m", "@G"}, {"-p"}, {"-x"}, {"-y"}, {"-v"}},
        {{"getbound"}, {"-i", "CO"}, {"-c"}, {"-r"}, {"-v"}},
        {{"xy2ij"}, {"-i", "CO"}, {"-f"}, {"-k"}, {"-r"}, {"-g", "@G"}, {"-o", "@P"}, {"-v"}},
        {{"subgrid"}, {"-i", "0:1"}, {"-j", "0:1"}, {"-x"}, {"-y"}, {"-v"}},
        {{"insertgrid"}, {"-i", "CO"}, {"-m"}, {"@G"}, {"@G", "@G"}, {"@G", "@G", "1"}, {"-v"}},
        {{"setbathy"}, {"-z", "1"}, {"-i", "0:1"}, {"-j", "0:1"}, {"-d", "2x1"}, {"-o", "1"}, {"-v"}},
    };
    for (auto& pt : PART)
        for (size_t k = 1; k < pt.size(); ++k)
            for (size_t q = 0; q < pt.size(); ++q)
                for (int at = 0; at < 4; ++at) {
                    SV a;
                    if (q > 0 && q != k && (pt[q][0][0] != '@' || pt[k][0][0] != '@'))
                        a = pt[q];
                    if (pt[0][0] == "xy2ij" && ((pt[k][0] == "-g" && pt[q][0] == "-o") || (pt[k][0] == "-o" && pt[q][0] == "-g")))
                        continue;
                    a.insert(a.end(), pt[k].begin(), pt[k].end());
                    if (at < 2)
                        a.insert(at ? a.end() : a.begin(), "-v");
                    else if (at == 2)
                        a.insert(a.begin(), { "-v", "-v" });
                    if (a.size() == 1 && a[0] == "-v")
                        continue;
                    a.insert(a.begin(), pt[0][0]);
                    ex.push_back({a, 0, true});
                }
    SV gb = { "gridbathy", "-b", "@D", "-g", "@G", "-i", "CO" };
    auto gbx = [&](SV x, int st) {
        SV a = gb;
        a.insert(a.end(), x.begin(), x.end());
        ex.push_back({a, st, false});
    };
    /* arguments that are not options */
    for (auto w : { "axis", "x", "over", "vx", "nr", "+x", "xx", "_x", " -x", "x-", "av", "xh", "1", "0r", "" })
        for (int at = 0; at < 3; ++at) {
            SV a = gb;
            a.insert(at == 0 ? a.begin() + 1 : at == 1 ? a.begin() + 3 : a.end(), w);
            ex.push_back({a, 0, true});
            a = { "xy2ij", "-g", "@G", "-o", "@P", "-i", "CO" };
            a.insert(at == 0 ? a.begin() + 1 : at == 1 ? a.begin() + 3 : a.end(), w);
            ex.push_back({a, 0, true});
        }
    gbx({}, 0);
    for (auto a : { "0", "1", "2", "3", "4" })
        gbx({"-a", a}, 0);
    for (auto a : { "5", "-1", "99" })
        gbx({"-a", a}, 1);
    for (auto a : { "1", "5", "10" })
        gbx({"-n", a}, 0);
    for (auto a : { "0", "-1", "11", "x" })
        gbx({"-n", a}, 1);
    gbx({"-r", "1", "1"}, 1);
    gbx({"-r", "2", "1"}, 1);
    gbx({"-r", "a", "1"}, 1);
    gbx({"-r", "0", "b"}, 1);
    gbx({"-r", "0", "1"}, 0);
    gbx({"-i", "CE"}, 1);
    gbx({"-m", "@N"}, 1);
    gbx({"-c", "0", "0"}, 0);
    gbx({"-c", "2", "0"}, 1);
    gbx({"-c", "0", "2"}, 1);
    gbx({"-c", "0", "-1"}, 1);
    add(F, "options", ex.size(), [=](Ctx& c, uint64_t idx) {
        E e = ex[idx];
        for (auto& a : e.av) {
            if (a == "@G")
                a = put("grid", gridtext(geogrid(3, 3, 0)));
            else if (a == "@N")
                a = file("no such file");
            else if (a == "@P")
                a = put("points", "0.5 0.5\n");
            else if (a == "@B")
                a = put("bathy", "## 2 x 1\n1\n2\n");
            else if (a == "@D")
                a = put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n0.8 0.9 1\n");
        }
        c.state(mix(idx, 5));
        Out o = tool(c, e.av, "", e.status);
        if (e.usage)
            MC_CHECK(c, usage_like(o.out), "%s: does not explain its usage: %s", join(e.av).c_str(), o.out.c_str());
        else if (e.status == 1)
            MC_CHECK(c, o.out.empty(), "%s: prints results although it fails: %s", join(e.av).c_str(), o.out.c_str());
        else
            MC_CHECK(c, !o.out.empty() && !usage_like(o.out), "%s: unexpected output \"%s\"", join(e.av).c_str(), o.out.c_str());
    });
    /* masks */
    static const char* MK[] = { "1", "0", "2", "-1", "x", "", "1.5" };
    /* what is not an option is answered with the usage, wherever it is found */
    static const struct { SV av; const char* opts; bool pos; } TL[] = {
        {{"getnodes", "@G", "-i", "CO"}, "himopxyv", true},
        {{"getbound", "@G", "-i", "CO"}, "chirv", true},
        {{"xy2ij", "-g", "@G", "-o", "@P", "-i", "CO"}, "fghikorv", false},
        {{"subgrid", "@G", "-i", "0:1"}, "hijxyv", true},
        {{"insertgrid", "@G", "@G", "0", "0"}, "0123456789himv", true},
        {{"setbathy", "@B", "-z", "1"}, "dijovz", true},
        {{"gridbathy", "-b", "@D", "-g", "@G", "-i", "CO"}, "abcghimnrvx", false},
    };
    add(F, "all unknown option letters", 7ULL * 94 * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(7), ch = 33 + d.take(94), at = d.take(4);
        if (strchr(TL[t].opts, ch) != nullptr)
            return;
        SV av = TL[t].av;
        size_t pos = at == 0 ? 1 : at == 1 ? av.size() : t == 2 || t >= 5 ? av.size() - 2 : 2;
        if (t == 4 && at == 0)
            pos = 3;
        for (auto& a : av)
            if (a == "@G")
                a = put("grid", gridtext(geogrid(3, 3, 0)));
            else if (a == "@P")
                a = put("points", "0.5 0.5\n");
            else if (a == "@B")
                a = put("bathy", "## 2 x 1\n1\n2\n");
            else if (a == "@D")
                a = put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n0.8 0.9 1\n");
        av.insert(av.begin() + pos, at == 3 ? strf("-%cabc", ch) : strf("-%c", ch));
        c.state(mix(idx, 8));
        Out o = tool(c, av, "", 0);
        MC_CHECK(c, usage_like(o.out), "%s: does not explain its usage: %s", join(av).c_str(), o.out.c_str());
    });
    add(F, "all arguments of one or two characters that are not options", 2ULL * (95 + (thorough ? 95 * 95 : 95 * 4)), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? 2 : 6;
        std::string w;
        if (d.v < 95)
            w = strf("%c", (int) (32 + d.v));
        else {
            d.v -= 95;
            static const char C2[] = "-xv0";
            int q = (int) (d.v / 95);
            w = strf("%c%c", thorough ? 32 + q : C2[q], (int) (32 + d.v % 95));
        }
        if (w[0] == '-')
            return;
        SV av = TL[t].av;
        for (auto& a : av)
            if (a == "@G")
                a = put("grid", gridtext(geogrid(3, 3, 0)));
            else if (a == "@P")
                a = put("points", "0.5 0.5\n");
            else if (a == "@D")
                a = put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n0.8 0.9 1\n");
        av.insert(idx % 3 ? av.end() : av.begin() + 1, w);
        c.state(mix(idx, 9));
        Out o = tool(c, av, "", 0);
        MC_CHECK(c, usage_like(o.out), "%s: does not explain its usage: %s", join(av).c_str(), o.out.c_str());
    });
    add(F, "all mask files of up to 5 lines for 2x2 cells", 7ULL * 7 * 7 * 7 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int which = d.take(2);
        std::string m;
        bool bad = false;
        for (int k = 0; k < 4; ++k) {
            int q = d.take(7);
            m += std::string(MK[q]) + "\n";
            bad |= q >= 2 && q <= 5;
        }
        if (m.find("1.5") != std::string::npos)
            return;             /* not specified */
        c.state(mix(hashs(m.c_str()), which));
        std::string mf = put("mask", m);
        if (which == 0)
            tool(c, {"getnodes", "-i", "co", "-o", "dd", "-m", mf, "-"}, gridtext(geogrid(3, 3, 0)), bad ? 1 : 0);
        else
            tool(c, {"gridbathy", "-i", "co", "-b", put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n"), "-m", mf, "-g", "-"}, gridtext(geogrid(3, 3, 0)), bad ? 1 : 0);
    });
    add(F, "a mask line with something else in it, at each position", 15ULL * 4 * 4 * 2, [=](Ctx& c, uint64_t idx) {
        static const char* ODD[] = { "1 0", "1 ", "0\t", "0 1", "1 1", "1\t0", "0 # masked", "1x", "0x", "01", "10", "+1", "-0", "1,0", "0 0 0 0" };
        Dec d(idx);
        int which = d.take(2), at = d.take(4), rest = d.take(4), q = d.take(15);
        std::string m;
        for (int k = 0; k < 4; ++k)
            m += k == at ? std::string(ODD[q]) + "\n" : rest == 0 ? "1\n" : rest == 1 ? "0\n" : k % 2 == rest % 2 ? "1\n" : "0\n";
        c.state(mix(hashs(m.c_str()), which + 4));
        std::string mf = put("mask", m);
        Out o = which == 0 ? tool(c, {"getnodes", "-i", "co", "-o", "dd", "-m", mf, "-"}, gridtext(geogrid(3, 3, 0)), 1)
            : tool(c, {"gridbathy", "-i", "co", "-b", put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n"), "-m", mf, "-g", "-"}, gridtext(geogrid(3, 3, 0)), 1);
        MC_CHECK(c, o.out.empty(), "results although the mask is malformed: %s", o.out.c_str());
    });
    add(F, "all mask lengths", 8ULL * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int k = d.take(8), nl = d.take(2);
        std::string m;
        for (int q = 0; q < k; ++q)
            m += "1\n";
        if (!nl && !m.empty())
            m.pop_back();
        c.state(mix(idx, 6));
        tool(c, {"getnodes", "-i", "co", "-o", "dd", "-m", put("mask", m), "-"}, gridtext(geogrid(3, 3, 0)), k < 4 ? 1 : 0);
    });
}

/* --------------------------------------------------- command lines for C38, C39 */
/* a command line with placeholders: @G grid, @S slave grid, @M mask, @P points, @D bathymetry data, @B bathymetry file */
struct Cmd {
    SV av;
};
static std::string inputof(char k, const G& g, int nt, uint64_t seed)
{
    int W = nt == NT_DD ? (g.nx - 1) / 2 : nt == NT_CEN ? g.nx : g.nx - 1, H = nt == NT_DD ? (g.ny - 1) / 2 : nt == NT_CEN ? g.ny : g.ny - 1;
    std::string s;
    switch (k) {
    case 'G': return gridtext(g);
    case 'S': return gridtext(slavegrid(2, 2, seed & 15));
    case 'M':
        for (int q = 0; q < W * H; ++q)
            s += q == (int) (seed % (uint64_t) (W * H + 1)) || q % 5 == (int) (seed / 7 % 8) ? "0\n" : "1\n";
        return s;
    case 'P':
        for (int q = 0; q < 12; ++q)
            s += q == 5 ? "# comment\n" : strf("%.15g %.15g%s\n", 0.25 + q * 0.375, 0.125 + (q * 5 % 12) * 0.25, q % 2 ? " rest of line" : "");
        return s;
    case 'D':
        for (int q = 0; q < 20; ++q)
            s += strf("%.15g %.15g %d\n", 0.1 + (q * 7 % 20) * 0.15, 0.15 + (q * 3 % 20) * 0.1, q - 5);
        return s;
    default:
        s = "first\n## 3 x 2\n";
        for (int q = 0; q < 6; ++q)
            s += strf("%d.25\n", q);
        return s + "last\n";
    }
}
static void allcmds(std::vector<Cmd>& v)
{
    for (auto i : { "DD", "CO", "CE" })
        for (auto o : { "DD", "CO", "CE" })
            for (auto x : { "", "-x", "-y", "-p" })
                for (int m = 0; m < 2; ++m) {
                    SV a = { "getnodes", "@G", "-i", i, "-o", o };
                    if (*x)
                        a.push_back(x);
                    if (m) {
                        if (!strcmp(o, "CO"))
                            continue;
                        a.push_back("-m");
                        a.push_back("@M");
                    }
                    v.push_back({a});
                }
    for (auto i : { "DD", "CO" }) {
        for (int k = 0; k < 4; ++k) {
            SV a = { "getbound", "@G", "-i", i };
            if (k & 1)
                a.push_back("-c");
            if (k & 2)
                a.push_back("-r");
            v.push_back({a});
        }
        for (int k = 0; k < 8; ++k) {
            SV a = { "xy2ij", "-g", "@G", "-i", i, "-o", "@P" };
            if (k & 1)
                a.push_back("-f");
            if (k & 2)
                a.push_back("-k");
            if (k & 4)
                a.push_back("-r");
            v.push_back({a});
        }
        for (auto r : { "0", "1", "2", "3", "4" })
            for (int k = 0; k < 8; ++k) {
                SV a = { "gridbathy", "-b", "@D", "-g", "@G", "-i", i, "-a", r };
                if (k & 1) {
                    a.push_back("-m");
                    a.push_back("@M");
                }
                if (k & 2)
                    a.push_back("-x");
                if (k & 4) {
                    a.push_back("-c");
                    a.push_back("0");
                    a.push_back("1");
                }
                v.push_back({a});
            }
    }
    for (auto i : { "", "DD", "CO", "CE" })
        for (int m = 0; m < 2; ++m) {
            SV a = { "insertgrid", "@G", "@S", "1", "2" };
            if (*i) {
                a.push_back("-i");
                a.push_back(i);
            }
            if (m)
                a.push_back("-m");
            v.push_back({a});
        }
    for (int k = 0; k < 12; ++k) {
        SV a = { "subgrid", "@G" };
        if (k & 1) {
            a.push_back("-i");
            a.push_back("1:2");
        }
        if (k & 2) {
            a.push_back("-j");
            a.push_back("0:1");
        }
        if (k / 4)
            a.push_back(k / 4 == 1 ? "-x" : "-y");
        v.push_back({a});
    }
    for (int k = 0; k < 4; ++k) {
        SV a = { "setbathy", "@B", "-z", "88", "-o", "1" };
        if (k & 1) {
            a.push_back("-i");
            a.push_back("1:2");
        }
        if (k & 2) {
            a.push_back("-j");
            a.push_back("1:1");
        }
        v.push_back({a});
    }
}
static int cmdtype(const SV& av)
{
    for (size_t k = 1; k + 1 < av.size(); ++k)
        if (av[k] == "-i")
            return av[k + 1] == "DD" ? NT_DD : av[k + 1] == "CE" ? NT_CEN : av[k + 1] == "CO" ? NT_COR : NT_NONE;
    return NT_NONE;
}
static G cmdgrid(const SV& av, const Shape& s, int W, int H)
{
    int t = cmdtype(av);
    if (t == NT_CEN) {
        G g = geogrid(W, H, GEO_CURVI);
        for (int q = 0; q < W * H; ++q)
            if (!s[q])
                g.kill(q % W, q / W);
        return g;
    }
    if (t == NT_DD)
        return ddgrid(W, H, s, GEO_CURVI);
    G g = geogrid(W + 1, H + 1, GEO_CURVI);
    applyshape(g, s);
    return g;
}
/* ------------------------------------------------------ C38 verbose output */
static void addcounts(std::vector<Family>& F, bool thorough);
PROPERTY(C38)
{
    static std::vector<Cmd> cmds;
    static std::vector<uint32_t> sh;
    cmds.clear();
    allcmds(cmds);
    int W = 3, H = thorough ? 3 : 2;
    sh = simpleshapes(W, H);
    size_t stepn = thorough ? 1 : 4;
    add(F, strf("all command lines x simply connected shapes of %dx%d cells x errors in the input", W, H), cmds.size() * ((sh.size() + stepn - 1) / stepn) * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av;
        int err = d.take(4), at = (int) (idx % 3);
        Shape s = shapeof(W, H, sh[d.v * stepn]);
        G g = cmdgrid(av, s, W, H);
        for (auto& a : av)
            if (a[0] == '@') {
                char k = a[1];
                std::string txt = inputof(k, g, cmdtype(av), idx);
                if (err == 1 && k == 'G')
                    txt.resize(txt.size() / 2);
                if (err == 2 && k != 'G')
                    txt.resize(txt.size() / 3);
                a = err == 3 && k != 'G' && k != 'P' ? file("no such file") : put(strf("in%c", k).c_str(), txt);
            }
        SV vv = av;
        vv.insert(at == 0 ? vv.begin() + 1 : at == 1 ? vv.end() : vv.begin() + 2, "-v");
        /* between an option and its value: not where it belongs */
        if (at == 2 && (av[1][0] == '-' || av[0] == "insertgrid"))
            vv = av, vv.push_back("-v");
        std::string none;
        Out a = runtool(av, &none), b = runtool(vv, &none);
        c.step(2);
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), idx));
        c.log("$ %s\nstatus %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(vv).c_str(), a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s: exit status %d, without -v: %d", join(vv).c_str(), b.status, a.status);
        MC_CHECK(c, a.out == b.out, "%s: the output is\n%s\nwithout -v:\n%s", join(vv).c_str(), b.out.c_str(), a.out.c_str());
        if (a.status == 0)
            MC_CHECK(c, a.err.empty(), "%s: messages although not asked for: %s", join(av).c_str(), a.err.c_str());
        else
            MC_CHECK(c, !a.err.empty() && !b.err.empty(), "%s: no error message", join(av).c_str());
    });
    /* progress messages: many points, long grids */
    static const int NP[] = { 1, 999, 1000, 1001, 2500, 10000, 65537 };
    add(F, "many points and nodes", 7ULL * 10, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int n = NP[d.take(7)], k = d.take(10);
        SV av;
        if (k < 4) {
            std::string p;
            for (int q = 0; q < n; ++q)
                p += k & 1 ? strf("%g %g\n", q % 7 / 4.0, q % 5 / 4.0) : strf("%g %g p%d\n", q % 7 / 8.0, q % 5 / 8.0, q);
            av = { "xy2ij", "-f", "-i", "CO", "-g", put("grid", gridtext(geogrid(3, 3, GEO_UNIT))), "-o", put("points", p) };
            if (k & 1)
                av.push_back("-r");
            if (k & 2)
                av.push_back("-k");
        } else if (k < 8) {
            G g = geogrid(n % 50 ? n : n / 50, n % 50 ? 2 : 50, GEO_UNIT);
            if (k == 4)
                av = { "getnodes", "-i", "CO", "-o", "CO", put("grid", gridtext(g)) };
            else if (k == 5) {
                std::string m;
                for (int q = 0; q < g.nx * g.ny; ++q)
                    m += q % 3 ? "1\n" : "0\n";
                av = { "getnodes", "-i", "CE", "-o", "CE", "-m", put("mask", m), put("grid", gridtext(g)) };
            } else if (k == 6)
                av = { "subgrid", put("grid", gridtext(g)), "-j", "1:1" };
            else
                av = { "insertgrid", put("grid", gridtext(g)), put("slave", gridtext(geogrid(2, 2, GEO_UNIT))), "1", "1" };
        } else {
            std::string b = strf("## %d x 1\n", n);
            for (int q = 0; q < n; ++q)
                b += strf("%d\n", q);
            av = { "setbathy", "-i", "5:900", "-z", "0.5", put("bathy", b) };
            if (k == 9) {
                av = { "gridbathy", "-a", "4", "-i", "CO", "-g", put("grid", gridtext(geogrid(3, 3, GEO_UNIT))) };
                std::string p;
                for (int q = 0; q < std::max(n, 3); ++q)
                    p += strf("%g %g %d\n", q % 16 / 8.0, q % 15 / 8.0, q % 10);
                av.push_back("-b");
                av.push_back(put("data", p));
            }
        }
        SV vv = av;
        vv.push_back("-v");
        std::string none;
        Out a = runtool(av, &none), b = runtool(vv, &none);
        c.step(2);
        c.state(mix(idx, 138));
        MC_CHECK(c, a.status == 0 && b.status == 0, "%s: exit status %d, without -v: %d; %s", join(vv).c_str(), b.status, a.status, b.err.c_str());
        size_t q = 0;
        while (q < a.out.size() && q < b.out.size() && a.out[q] == b.out[q])
            ++q;
        MC_CHECK(c, a.out == b.out, "%s: the output differs from that without -v at character %zu of %zu: \"%s\" for \"%s\"", join(vv).c_str(), q, a.out.size(), b.out.substr(q, 60).c_str(), a.out.substr(q, 60).c_str());
        MC_CHECK(c, a.err.empty(), "%s: messages although not asked for: %s", join(av).c_str(), a.err.c_str());
        if (k < 4) {
            size_t z = b.err.find("total mappings: ");
            MC_CHECK(c, z != std::string::npos && atoi(b.err.c_str() + z + 16) == n, "total mappings reported: %s, expected %d", z == std::string::npos ? "none" : b.err.substr(z + 16, 10).c_str(), n);
            size_t u = b.err.find(" successful: "), w = b.err.find("unsuccessful: ");
            MC_CHECK(c, u != std::string::npos && w != std::string::npos && atoi(b.err.c_str() + u + 13) + atoi(b.err.c_str() + w + 14) == n, "the numbers of mappings do not add up: %s", b.err.substr(z).c_str());
            int good = 0;
            for (size_t p = 0; p < a.out.size(); p = a.out.find('\n', p) + 1)
                good += a.out[p] != 'N';
            MC_CHECK(c, atoi(b.err.c_str() + u + 13) == good, "%d successful mappings reported, %d in the output", atoi(b.err.c_str() + u + 13), good);
        }
    });
    addcounts(F, thorough);
}
/* the numbers in front of a phrase in the messages */
static std::vector<int> counts(const std::string& err, const char* phrase)
{
    std::vector<int> v;
    size_t p = 0;
    while ((p = err.find(phrase, p)) != std::string::npos) {
        size_t q = p;
        while (q > 0 && isdigit((unsigned char) err[q - 1]))
            --q;
        if (q < p)
            v.push_back(atoi(err.substr(q, p - q).c_str()));
        ++p;
    }
    return v;
}
static int nvalid(const G& g)
{
    int n = 0;
    for (int j = 0; j < g.ny; ++j)
        for (int i = 0; i < g.nx; ++i)
            n += g.ok(i, j);
    return n;
}
static void checkcounts(Ctx& c, const G& g, int t, const std::string* mask, int nmask)
{
    SV av = { "getnodes", "-", "-v", "-i", TNAME[t], "-o", TNAME[t] };
    if (mask) {
        av.push_back("-m");
        av.push_back(put("mask", *mask));
    }
    Out o = tool(c, av, oddtext(g, hashs(vstr(g).c_str()) >> 8), 0);
    G v = modvalid(g, (NODETYPE) t), out;
    auto expect = [&](const char* phrase, std::vector<int> want) {
        std::vector<int> got = counts(o.err, phrase);
        MC_CHECK(c, got.size() >= want.size() && std::equal(want.begin(), want.end(), got.begin()), "%s of %s: number of \"%s\" is %d, expected %d; messages:\n%s", join(av).c_str(), vstr(g).c_str(), phrase, got.empty() ? -1 : got.back(), want.empty() ? -1 : want.back(), o.err.c_str());
    };
    MC_CHECK(c, parsegrid(o.out, out, 2), "output is not a grid");
    expect(" non-empty grid nodes", { nvalid(g), nvalid(out) });
    if (t != NT_CEN) {
        int cells = 0, s = t == NT_DD ? 2 : 1;
        for (int j = 0; j + s < g.ny; j += s)
            for (int i = 0; i + s < g.nx; i += s)
                cells += t == NT_DD ? v.ok(i + 1, j + 1) : v.cell(i, j);
        if (mask) {             /* masked double density nodes are validated again */
            int left = 0;
            for (int j = 1; j < out.ny; j += 2)
                for (int i = 1; i < out.nx; i += 2)
                    left += out.ok(i, j);
            expect(" valid cells", { cells, nmask, left });
        } else
            expect(" valid cells", { cells });
    }
    if (t == NT_DD)
        expect(" valid nodes marked as invalid", { nvalid(g) - nvalid(v) });
    if (mask) {
        int W = t == NT_DD ? (g.nx - 1) / 2 : g.nx, H = t == NT_DD ? (g.ny - 1) / 2 : g.ny;
        expect(" masked cells", { W * H - nmask });
    }
}
static void addcounts(std::vector<Family>& F, bool thorough)
{
    add(F, "counts: all patterns of 3x3 nodes of any type", 512ULL * 3, [](Ctx& c, uint64_t idx) {
        c.state(mix(idx, 38));
        checkcounts(c, pattern(3, 3, idx / 3, GEO_AFFINE), (int) (idx % 3) + 1, nullptr, 0);
    });
    add(F, "counts: all corner patterns of 5x5 double density nodes x edges and centres", 512ULL * (thorough ? 80 : 8), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int cor = d.take(512), o = (int) d.v;
        uint64_t m = 0;
        for (int k = 0; k < 9; ++k)
            if (cor >> k & 1)
                m |= 1ULL << (k / 3 * 10 + k % 3 * 2);
        int e = 0;              /* the 16 other nodes: one, every second, a pair of them */
        for (int k = 0; k < 25; ++k)
            if (k / 5 % 2 || k % 5 % 2) {
                bool kill = !thorough ? (o == 0 ? 0 : o < 3 ? e % 2 == o % 2 : o < 5 ? e % 5 == o : e == o * 2) : o < 16 ? e == o : o < 32 ? e == o % 16 || e == (o + 5) % 16 : o < 64 ? (e * 7 + o) % 5 == 0 : ((o - 64) >> (e % 4) & 1);
                if (kill)
                    m |= 1ULL << k;
                ++e;
            }
        c.state(mix(m, 39));
        checkcounts(c, pattern(5, 5, m, GEO_AFFINE), NT_DD, nullptr, 0);
    });
    add(F, "counts: all masks of 3x2 cells", 64ULL * 2 * 4, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(2) ? NT_DD : NT_CEN, p = d.take(4), m = (int) d.v, n = 0;
        std::string s;
        for (int k = 0; k < 6; ++k) {
            s += m >> k & 1 ? "1\n" : "0\n";
            n += m >> k & 1;
        }
        c.state(mix(idx, 40));
        int nx = t == NT_DD ? 7 : 3, ny = t == NT_DD ? 5 : 2;
        checkcounts(c, pattern(nx, ny, p == 0 ? 0 : 1ULL << (p * 4 - 3), GEO_AFFINE), t, &s, n);
    });
}
/* ------------------------------------------------- C39 files and standard input */
PROPERTY(C39)
{
    static std::vector<Cmd> cmds;
    static std::vector<uint32_t> sh;
    cmds.clear();
    allcmds(cmds);
    int W = 3, H = thorough ? 3 : 2;
    sh = simpleshapes(W, H);
    size_t stepn = thorough ? 1 : 4;
    add(F, strf("all command lines x simply connected shapes of %dx%d cells x inputs", W, H), cmds.size() * ((sh.size() + stepn - 1) / stepn) * 6, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av, si;
        int cut = d.take(2), which = d.take(3);
        Shape s = shapeof(W, H, sh[d.v * stepn]);
        G g = cmdgrid(av, s, W, H);
        static const char* NAME[3] = { "-", "stdin", "-" };
        std::string in;
        int n = 0;
        si = av;
        for (size_t k = 0; k < av.size(); ++k)
            if (av[k][0] == '@') {
                std::string txt = inputof(av[k][1], g, cmdtype(av), idx);
                if (cut && n == which)
                    txt.resize(txt.size() * 2 / 3);
                std::string name = put(strf("in%c", av[k][1]).c_str(), txt);
                si[k] = name;
                if (n == which && av[k][1] != 'D') {
                    si[k] = NAME[idx / 7 % 3];
                    in = txt;
                }
                av[k] = name;
                ++n;
            }
        if (n <= which || si == av)
            return;
        std::string none;
        Out a = runtool(av, &none), b = runtool(si, &in);
        c.step(2);
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), idx));
        c.log("$ %s\nstatus %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(si).c_str(), a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s: exit status %d, with a file: %d; stderr: %s", join(si).c_str(), b.status, a.status, b.err.c_str());
        MC_CHECK(c, a.out == b.out, "%s: the output is\n%s\nwith a file:\n%s", join(si).c_str(), b.out.c_str(), a.out.c_str());
    });
    add(F, "several inputs one after the other from standard input", cmds.size() * ((sh.size() + stepn - 1) / stepn) * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av, si;
        int cut = d.take(2);
        Shape s = shapeof(W, H, sh[d.v * stepn]);
        G g = cmdgrid(av, s, W, H);
        /* in the order in which they are read: master and slave grid, grid and mask or points;
         * gridbathy takes its data only once the grid is read */
        if (av[0] == "gridbathy")
            return;
        std::string in;
        int n = 0;
        si = av;
        for (char kind : { 'G', 'S', 'M', 'P', 'B' })
            for (size_t k = 0; k < av.size(); ++k)
                if (av[k][0] == '@' && av[k][1] == kind) {
                    std::string txt = inputof(kind, g, cmdtype(av), idx);
                    if (cut && n == 1)
                        txt.resize(txt.size() * 2 / 3);
                    av[k] = put(strf("in%c", kind).c_str(), txt);
                    si[k] = idx % 2 ? "-" : "stdin";
                    in += txt;
                    ++n;
                }
        if (n < 2)
            return;
        std::string none;
        Out a = runtool(av, &none), b = runtool(si, &in);
        c.step(2);
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 3)));
        c.log("$ %s\nstatus %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(si).c_str(), a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s: exit status %d, with files: %d; stderr: %s", join(si).c_str(), b.status, a.status, b.err.c_str());
        MC_CHECK(c, a.out == b.out, "%s: the output is\n%s\nwith files:\n%s", join(si).c_str(), b.out.c_str(), a.out.c_str());
    });
}

/* ---------------------------------------------------- C40 the order of the options */
/* the number of values of an option; -1 for a positional argument */
static int nvalues(const std::string& prog, const std::string& a)
{
    if (a[0] != '-' || a.size() < 2 || isdigit((unsigned char) a[1]))
        return -1;
    static const std::map<std::string, std::string> ONE = {{"getbound", "i"}, {"getnodes", "iom"}, {"insertgrid", "i"}, {"subgrid", "ij"}, {"setbathy", "ijdoz"}, {"xy2ij", "igo"}, {"gridbathy", "abgimn"}};
    if (ONE.at(prog).find(a[1]) != std::string::npos)
        return 1;
    return prog == "gridbathy" && (a[1] == 'c' || a[1] == 'r') ? 2 : 0;
}
static std::vector<SV> groupsof(const SV& av)
{
    std::vector<SV> g;
    for (size_t k = 1; k < av.size();) {
        int n = std::max(0, nvalues(av[0], av[k]));
        g.push_back(SV(av.begin() + k, av.begin() + k + 1 + n));
        k += 1 + n;
    }
    return g;
}
static SV cmdof(const std::string& prog, const std::vector<SV>& g)
{
    SV v = { prog };
    for (auto& s : g)
        v.insert(v.end(), s.begin(), s.end());
    return v;
}
/* the orders to be examined: all of them for up to five groups, otherwise all
 * exchanges of two groups, all moves of a group and all rotations, each with its reversal */
static std::vector<std::vector<SV>> ordersof(const std::string& prog, const std::vector<SV>& g)
{
    std::vector<std::vector<int>> P;
    int n = (int) g.size();
    std::vector<int> id(n);
    for (int k = 0; k < n; ++k)
        id[k] = k;
    if (n <= 5) {
        auto p = id;
        do
            P.push_back(p);
        while (std::next_permutation(p.begin(), p.end()));
    } else {
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b) {
                auto p = id;
                std::swap(p[a], p[b]);
                P.push_back(p);
                p = id;
                p.erase(p.begin() + a);
                p.insert(p.begin() + b, a);
                P.push_back(p);
            }
        for (int r = 0; r < n; ++r) {
            auto p = id;
            std::rotate(p.begin(), p.begin() + r, p.end());
            P.push_back(p);
        }
        size_t m = P.size();
        for (size_t k = 0; k < m; ++k) {
            P.push_back(P[k]);
            std::reverse(P.back().begin(), P.back().end());
        }
    }
    std::vector<std::vector<SV>> R;
    std::set<SV> seen;
    for (auto& p : P) {
        std::vector<SV> q;
        for (int k : p)
            q.push_back(g[k]);
        /* positional arguments keep their order */
        std::vector<SV> pos;
        for (auto& x : g)
            if (nvalues(prog, x[0]) < 0)
                pos.push_back(x);
        size_t k = 0;
        for (auto& x : q)
            if (nvalues(prog, x[0]) < 0)
                x = pos[k++];
        if (seen.insert(cmdof(prog, q)).second)
            R.push_back(q);
    }
    return R;
}
/* commands with more options than in allcmds() */
static void manyopts(std::vector<Cmd>& v)
{
    for (auto x : { "-x", "-y" })
        for (auto t : { "DD", "CE" })
            v.push_back({{ "getnodes", "@G", "-i", "CO", "-o", t, "-m", "@M", "-p", x }});
    v.push_back({{ "getbound", "@G", "-i", "CO", "-c", "-r" }});
    v.push_back({{ "subgrid", "@G", "-i", "1:2", "-j", "0:1", "-y" }});
    v.push_back({{ "subgrid", "@G", "-i", "2:2", "-j", "1:2", "-x" }});
    v.push_back({{ "insertgrid", "@G", "@S", "1", "2", "-i", "CO", "-m" }});
    v.push_back({{ "insertgrid", "@G", "@S", "-1", "0", "-m" }});
    v.push_back({{ "insertgrid", "@G", "@S", "0", "-1", "-i", "CO" }});
    v.push_back({{ "xy2ij", "-g", "@G", "-i", "CO", "-o", "@P", "-f", "-k", "-r" }});
    for (auto d : { "3x2", "2x2" })
        v.push_back({{ "setbathy", "@B", "-z", "-5", "-o", "1", "-i", "1:2", "-j", "0:0", "-d", d }});
    for (auto z : { "i", "-", "-i", "-z", "0:0" })
        v.push_back({{ "setbathy", "@B", "-z", z, "-j", "1:1", "-i", "0:1" }});
    for (auto a : { "0", "1", "2", "3", "4" })
        v.push_back({{ "gridbathy", "-b", "@D", "-g", "@G", "-i", "CO", "-a", a, "-c", "1", "0", "-r", "-3", "9", "-n", "2" }});
    v.push_back({{ "gridbathy", "-b", "@D", "-g", "@G", "-i", "CO", "-m", "@M", "-r", "-1", "8", "-n", "1", "-x" }});
}
static void fill(SV& av, const G& g, int nt, uint64_t idx, int cut)
{
    for (auto& a : av)
        if (a[0] == '@') {
            std::string txt = inputof(a[1], g, nt, idx);
            if ((cut == 1 && a[1] == 'G') || (cut == 2 && a[1] != 'G'))
                txt.resize(txt.size() * 2 / 3);
            a = put(strf("in%c", a[1]).c_str(), txt);
        }
}
PROPERTY(C40)
{
    static std::vector<Cmd> cmds, many;
    static std::vector<uint32_t> sh;
    cmds.clear();
    many.clear();
    allcmds(cmds);
    manyopts(many);
    int W = 3, H = 2;
    sh.clear();                 /* any shapes: where the map is refused, it is so in any case */
    for (uint32_t k = 0; k < 1u << W * H; ++k)
        sh.push_back(k * 37 % (1u << W * H));
    auto same = [](Ctx& c, const SV& av, const SV& bv, const Out& a, const Out& b) {
        c.step(2);
        c.log("$ %s\nstatus %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(bv).c_str(), a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s: exit status %d, but %d for %s; %s", join(bv).c_str(), b.status, a.status, join(av).c_str(), b.err.c_str());
        MC_CHECK(c, a.out == b.out, "%s: the output is\n%s\nbut for %s:\n%s", join(bv).c_str(), b.out.c_str(), join(av).c_str(), a.out.c_str());
        MC_CHECK(c, a.err == b.err, "%s: the messages are\n%s\nbut for %s:\n%s", join(bv).c_str(), b.err.c_str(), join(av).c_str(), a.err.c_str());
    };
    size_t stepn = thorough ? 1 : 8;
    auto orders = [=, &F](const std::vector<Cmd>* v, const char* what, int cuts, size_t stepn, bool verbose) {
        add(F, strf("%s: all orders x shapes of %dx%d cells", what, W, H), v->size() * ((sh.size() + stepn - 1) / stepn) * cuts, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            SV av = (*v)[d.take((int) v->size())].av;
            int cut = d.take(cuts);
            Shape s = shapeof(W, H, sh[d.v * stepn]);
            fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, cut);
            if (verbose)
                av.push_back("-v");
            std::string none;
            Out a = runtool(av, &none);
            c.state(mix(hashs(join(av).substr(0, 80).c_str()), idx));
            for (auto& g : ordersof(av[0], groupsof(av))) {
                SV bv = cmdof(av[0], g);
                same(c, av, bv, a, runtool(bv, &none));
            }
        });
    };
    orders(&cmds, "all command lines", thorough ? 3 : 1, stepn, false);
    orders(&cmds, "all command lines with -v", 1, thorough ? 2 : 16, true);
    orders(&many, "command lines with many options", 3, thorough ? 1 : 8, false);
    orders(&many, "command lines with many options and -v", 1, thorough ? 2 : 16, true);
    /* upper and lower case of the node type, and defaults given explicitly */
    add(F, strf("all command lines: case of node types, defaults x shapes of %dx%d cells", W, H), cmds.size() * ((sh.size() + stepn - 1) / stepn), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av;
        Shape s = shapeof(W, H, sh[d.v * stepn]);
        G gr = cmdgrid(av, s, W, H);
        fill(av, gr, cmdtype(av), idx, 0);
        std::string none, prog = av[0];
        Out a = runtool(av, &none);
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 2)));
        auto g = groupsof(av);
        auto has = [&](const char* o) {
            for (auto& x : g)
                if (x[0] == o)
                    return true;
            return false;
        };
        auto with = [&](const std::vector<SV>& q) {
            SV bv = cmdof(prog, q);
            same(c, av, bv, a, runtool(bv, &none));
        };
        for (int cs = 1; cs < 4; ++cs) {
            auto q = g;
            for (auto& x : q)
                if ((x[0] == "-i" || (x[0] == "-o" && prog == "getnodes")) && prog != "subgrid" && prog != "setbathy")
                    for (int k = 0; k < 2; ++k)
                        x[1][k] = cs >> k & 1 ? tolower(x[1][k]) : x[1][k];
            with(q);
        }
        for (size_t k = 0; k < g.size(); ++k)
            if (g[k].size() == 2 && ((g[k][1] == "DD" && (g[k][0] == "-i" || g[k][0] == "-o") && prog != "insertgrid") || (prog == "gridbathy" && g[k][0] == "-a" && g[k][1] == "0"))) {
                auto q = g;         /* DD is the default, and the spline */
                q.erase(q.begin() + k);
                with(q);
            }
        std::vector<SV> def;        /* documented defaults that are not on the command line */
        if (prog == "subgrid") {
            if (!has("-i"))
                def.push_back({ "-i", strf("0:%d", gr.nx - 1) });
            if (!has("-j"))
                def.push_back({ "-j", strf("0:%d", gr.ny - 1) });
        } else if (prog == "setbathy") {
            if (!has("-i"))
                def.push_back({ "-i", "0:2" });
            if (!has("-j"))
                def.push_back({ "-j", "0:1" });
        } else if (prog == "gridbathy") {
            if (!has("-n"))
                def.push_back({ "-n", "3" });
            if (!has("-r"))
                def.push_back({ "-r", "-1e300", "1e300" });
        }
        for (unsigned m = 1; m < 1u << def.size(); ++m)
            for (int at = 0; at < 2; ++at) {
                auto q = g;
                for (size_t k = 0; k < def.size(); ++k)
                    if (m >> k & 1)
                        q.insert(at ? q.end() : q.begin(), def[k]);
                with(q);
            }
        /* a switch that is repeated changes nothing; of two values the last one counts */
        for (size_t k = 0; k < g.size(); ++k)
            if (nvalues(prog, g[k][0]) >= 0) {
                auto q = g;
                q.push_back(g[k]);
                with(q);
            }
    });
}

/* ------------------------------------------ C41 the circumstances of a run */
static const int NCIRC = 41;
static SV baseenv(const std::string& fillbyte)
{
    SV v;
    for (char** e = environ; *e != nullptr; ++e) {
        std::string s = *e;
        if (s.find("SAN_OPTIONS=") != std::string::npos) {
            size_t p = s.find("malloc_fill_byte=");
            if (!fillbyte.empty() && p != std::string::npos) {
                size_t q = s.find(':', p);
                s = s.substr(0, p + 17) + fillbyte + (q == std::string::npos ? "" : s.substr(q));
            }
            v.push_back(s);
        }
    }
    return v;
}
static RunOpt faultenv(const std::string& file, int64_t at, int piece, const std::string& note)
{
    RunOpt o;
    const char* so = getenv("VERIF_FAULT");
    o.setenv = true;
    for (char** e = environ; *e != nullptr; ++e)
        if (strncmp(*e, "LD_PRELOAD=", 11) != 0 && strncmp(*e, "MC_FAULT", 8) != 0)
            o.env.push_back(*e);
    o.env.push_back(strf("LD_PRELOAD=%s", so != nullptr ? so : ""));
    if (file.empty())
        return o;
    o.env.push_back("MC_FAULT_FILE=" + file);
    o.env.push_back(strf("MC_FAULT_AT=%lld", (long long) at));
    o.env.push_back(strf("MC_FAULT_PIECE=%d", piece));
    o.env.push_back("MC_FAULT_NOTE=" + note);
    return o;
}
PROPERTY(C41)
{
    static std::vector<Cmd> cmds, many;
    static std::vector<uint32_t> sh;
    cmds.clear();
    many.clear();
    allcmds(cmds);
    manyopts(many);
    cmds.insert(cmds.end(), many.begin(), many.end());
    int W = 3, H = thorough ? 3 : 2;
    sh.clear();
    for (uint32_t k = 0; k < 1u << W * H; ++k)
        sh.push_back(k * 37 % (1u << W * H));
    size_t stepn = thorough ? 8 : 8;
    add(F, strf("all command lines x %d circumstances x shapes of %dx%d cells", NCIRC, W, H), cmds.size() * ((sh.size() + stepn - 1) / stepn) * NCIRC, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av, bv;
        int k = d.take(NCIRC), cut = (int) (idx / 5 % 4);
        size_t q = d.v * stepn;
        if (!thorough)
            q = std::min(q + idx % stepn, sh.size() - 1);
        Shape s = shapeof(W, H, sh[q]);
        G g = cmdgrid(av, s, W, H);
        std::vector<std::string> txt(av.size()), made;
        RunOpt opt;
        bool use = true, pipein = false;
        std::string in, dir;
        const std::string& sc = scratch();
        /* names of input files */
        static const char* NAMES[] = {
            "stdin.txt", "stdinx", "xstdin", "stdi", "s", "x-", "a b  c", "%s%n%d", "\"q'uote", "grid\\n", "#grid", "## 3 x 2", "\xc3\xa9t\xc3\xa9", "NaN", "stdout", "1",
        };
        const int NN = (int) (sizeof NAMES / sizeof NAMES[0]);
        bv = av;
        int nf = 0;
        for (size_t p = 0; p < av.size(); ++p)
            if (av[p][0] == '@') {
                txt[p] = inputof(av[p][1], g, cmdtype(av), idx);
                if (cut == 3 && nf == (int) (idx / 20 % 2))
                    txt[p].resize(txt[p].size() * 2 / 3);
                char kind = av[p][1];
                av[p] = put(strf("in%c", kind).c_str(), txt[p]);
                bv[p] = av[p];
                if (k < NN + 5) {
                    /* a different file with the same contents */
                    std::string nm = k < NN ? NAMES[k] : k == NN ? std::string(250, 'n') : k == NN + 1 ? "-" : k == NN + 2 ? "stdin" : k == NN + 3 ? "stdin" : std::string(200, 'd') + "/" + std::string(200, 'e') + "/f";
                    std::string sub = strf("%s/d%c", sc.c_str(), kind), full;
                    mkdir(sub.c_str(), 0777);
                    for (size_t z = 0; (z = nm.find('/', z)) != std::string::npos; ++z)
                        mkdir((sub + "/" + nm.substr(0, z)).c_str(), 0777);
                    full = sub + "/" + nm;
                    writefile(full, txt[p]);
                    made.push_back(full);
                    /* absolute, relative to the scratch directory, with ./ */
                    int how = (int) (idx / 3 % 3);
                    bv[p] = how == 0 ? full : strf("%sd%c/%s", how == 1 ? "" : "./", kind, nm.c_str());
                    /* the name alone: the file is in the current directory */
                    if (k < NN && nf == (int) (idx / 11 % 2) && how) {
                        bv[p] = nm;
                        full = sc + "/" + nm;
                        writefile(full, txt[p]);
                        made.push_back(full);
                    } else if (k == NN + 3 && how) {
                        bv[p] = how == 1 ? "./stdin" : "d" + std::string(1, kind) + "/../stdin" + std::string(1, kind);
                        full = sc + (how == 1 ? "/stdin" : "/stdin" + std::string(1, kind));
                        writefile(full, txt[p]);
                        made.push_back(full);
                        if (how == 1 && nf > 0)
                            use = false;
                    }
                    opt.cwd = sc;
                } else if (k == NN + 5 || k == NN + 6 || k == NN + 7) {
                    /* a pipe, /dev/stdin */
                    if (nf == (int) (idx / 11 % 2) && kind != 'D') {
                        bv[p] = k == NN + 7 ? "/dev/stdin" : k == NN + 5 ? "-" : "stdin";
                        in = txt[p];
                        pipein = true;
                    }
                } else if (k == NN + 18 || k == NN + 19) {
                    /* files of the same names elsewhere */
                    bool sub = (nf == 0) == (k == NN + 18);
                    std::string base = strf("f%c", kind), dec = kind == 'G' || kind == 'S' ? gridtext(geogrid(5, 3, GEO_UNIT)) : kind == 'M' ? "0\n0\n0\n0\n0\n0\n0\n0\n0\n" : kind == 'B' ? "## 2 x 1\n7\n8\n" : "1 2 3\n2 1 3\n4 5 6\n0 0 9\n";
                    mkdir((sc + "/sub").c_str(), 0777);
                    writefile(sc + "/sub/" + base, sub ? txt[p] : dec);
                    writefile(sc + "/" + base, sub ? dec : txt[p]);
                    bv[p] = sub ? idx / 3 % 2 ? sc + "/sub/" + base : "sub/" + base : base;
                    opt.cwd = sc;
                } else if (k == NN + 8) {
                    bv[p] = strf("../%s/in%c", sc.substr(sc.rfind('/') + 1).c_str(), kind);
                    opt.cwd = sc;
                }
                ++nf;
            }
        switch (k - NN) {
        case 5:
        case 6:
        case 7:
            if (!pipein)
                return;
            opt.pipein = true;
            break;
        case 9:
            opt.setenv = true;          /* next to nothing in the environment */
            opt.env = baseenv("");
            break;
        case 10: case 11: case 12: case 13:
            opt.setenv = true;          /* contents of fresh memory */
            opt.env = baseenv(k - NN == 10 ? "0" : k - NN == 11 ? "255" : k - NN == 12 ? "63" : "1");
            opt.env.push_back(strf("MALLOC_PERTURB_=%d", k - NN == 10 ? 255 : k - NN == 11 ? 1 : k - NN == 12 ? 128 : 64));
            break;
        case 14:
            opt.setenv = true;
            opt.env = baseenv("");
            for (auto e : { "LC_ALL=de_DE.UTF-8", "LANG=fr_FR", "LC_NUMERIC=de_DE", "TZ=Asia/Tokyo", "POSIXLY_CORRECT=1", "HOME=/nonexistent", "TMPDIR=/nonexistent", "GU_VERBOSE=1", "VERBOSE=1", "COLUMNS=10", "DEBUG=1" })
                opt.env.push_back(e);
            break;
        case 15:
            opt.pipeout = true;
            break;
        case 16:
            opt.cwd = "/";
            opt.pipeout = true;
            opt.pipein = true;
            break;
        case 17:
            opt.setenv = true;          /* a large environment shifts the stack */
            opt.env = baseenv("");
            opt.env.push_back("A=" + std::string(10007 + idx % 64, 'x'));
            break;
        case 20: case 21: case 22:
            opt = faultenv("", -1, 0, "");      /* another time, another process */
            opt.env.push_back(strf("MC_CLOCK=%d", k - NN == 20 ? 0 : k - NN == 21 ? 1000000007 : 2147483647 - (int) (idx % 100000)));
            break;
        case 23: case 24:
            opt = faultenv("", -1, 0, "");      /* any variable is set */
            opt.env.push_back(strf("MC_ENV=%s", k - NN == 23 ? "1" : "0"));
            break;
        default:
            break;
        }
        if (!use)
            return;
        std::string none;
        Out a = runtool(av, &none), b = runtool(bv, pipein ? &in : &none, &opt);
        for (auto& m : made)
            unlink(m.c_str());
        c.step(2);
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), idx));
        c.log("$ %s\ncircumstances %d, status %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(bv).c_str(), k, a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s (circumstances %d): exit status %d, but %d otherwise; %s", join(bv).c_str(), k, b.status, a.status, b.err.c_str());
        MC_CHECK(c, a.out == b.out, "%s (circumstances %d): the output is\n%s\nbut otherwise:\n%s", join(bv).c_str(), k, b.out.c_str(), a.out.c_str());
    });
    /* positions at the same distance from two nodes: the order of the search decides */
    static const char* TIES[5][2] = { { "CE", "DD" }, { "CE", "CO" }, { "DD", "CO" }, { "DD", "CE" }, { "CO", "DD" } };
    add(F, "conversions of all grids of 3x3 nodes x times", 5 * 512 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int q = d.take(5), at = d.take(2);
        G g = geogrid(3, 3, GEO_CURVI);
        for (int m = 0; m < 9; ++m)
            if (!(d.v >> m & 1))
                g.kill(m % 3, m / 3);
        SV av = { "getnodes", put("g.txt", gridtext(g)), "-i", TIES[q][0], "-o", TIES[q][1] };
        RunOpt opt = faultenv("", -1, 0, "");
        opt.env.push_back(strf("MC_CLOCK=%d", at ? 5 + (int) idx : 1700000000 + (int) idx));
        std::string none;
        Out a = runtool(av, &none), b = runtool(av, &none, &opt);
        c.step(2);
        c.state(idx);
        c.log("$ %s\nstatus %d / %d\nstdout %s\n---\n%s\nstderr %s\n---\n%s", join(av).c_str(), a.status, b.status, a.out.c_str(), b.out.c_str(), a.err.c_str(), b.err.c_str());
        MC_CHECK(c, a.status == b.status && a.status >= 0, "%s at another time: exit status %d, but %d otherwise; %s", join(av).c_str(), b.status, a.status, b.err.c_str());
        MC_CHECK(c, a.out == b.out, "%s at another time: the output is\n%s\nbut otherwise:\n%s", join(av).c_str(), b.out.c_str(), a.out.c_str());
    });
}

/* -------------------------------------------- C42 results that cannot be written */
PROPERTY(C42)
{
    static std::vector<Cmd> cmds, many;
    cmds.clear();
    many.clear();
    allcmds(cmds);
    manyopts(many);
    cmds.insert(cmds.end(), many.begin(), many.end());
    int W = 3, H = 2;
    auto faulty = [](Ctx& c, const SV& av, const std::string& in, const Out& ref, const RunOpt& opt, bool bad, const char* what, int64_t k) {
        Out o = runtool(av, &in, &opt);
        c.step();
        MC_CHECK(c, ref.out.compare(0, o.out.size(), o.out) == 0, "%s (%s): the output is\n%s\nwhich does not begin the complete one:\n%s", join(av).c_str(), what, o.out.c_str(), ref.out.c_str());
        if (bad) {
            MC_CHECK(c, o.status == 1, "%s (%s, %lld of %zu characters can be written): exit status %d although the output is not complete", join(av).c_str(), what, (long long) k, ref.out.size(), o.status);
            MC_CHECK(c, o.err.find("error") != std::string::npos, "%s (%s): no error message: %s", join(av).c_str(), what, o.err.c_str());
        } else {
            MC_CHECK(c, o.status == ref.status && o.out == ref.out, "%s (%s, %lld of %zu characters can be written): exit status %d: %s", join(av).c_str(), what, (long long) k, ref.out.size(), o.status, o.err.c_str());
            MC_CHECK(c, o.err == ref.err, "%s (%s): messages %s, otherwise %s", join(av).c_str(), what, o.err.c_str(), ref.err.c_str());
        }
    };
    static const char* NOW[5] = { "", "full device", "pipe without reader", "closed output", "output opened for reading" };
    add(F, strf("all command lines x shapes of %dx%d cells x kinds of useless output", W, H), cmds.size() * 4 * (thorough ? 64 : 8), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av;
        int k = 1 + d.take(4);
        Shape s = shapeof(W, H, (uint32_t) ((thorough ? d.v : d.v * 8 + idx % 8) * 37 % 64));
        fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, (int) (idx / 16 % 8));
        if (idx % 3 == 0)
            av.push_back("-v");
        std::string none;
        Out a = runtool(av, &none);
        RunOpt o;
        o.nowrite = k;
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), idx));
        if (a.status != 0)
            return;             /* fails anyway */
        faulty(c, av, none, a, o, !a.out.empty(), NOW[k], 0);
    });
    /* the output is cut off at every position */
    add(F, strf("all command lines x some shapes of %dx%d cells x all positions at which writing fails", W, H), cmds.size() * (thorough ? 8 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av;
        static const uint32_t SH[8] = { 63, 62, 31, 54, 27, 15, 7, 58 };
        Shape s = shapeof(W, H, thorough ? SH[d.v] : SH[idx % 8]);
        fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, 0);
        std::string none;
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 2)));
        if (a.status != 0)
            return;
        for (size_t k = 0; k <= a.out.size() + 1; k += k + 2 >= a.out.size() || thorough ? 1 : 1 + (k + idx) % 3) {
            RunOpt o;
            o.outlimit = (int64_t) k;
            faulty(c, av, none, a, o, k < a.out.size(), "limited size", (int64_t) k);
        }
    });
    /* outputs of several buffers */
    add(F, "outputs of several buffers x positions at which writing fails", 8 * 40, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(8), at = (int) d.v;
        G g = geogrid(40, 41, GEO_UNIT);
        SV av;
        std::string p;
        for (int q = 0; q < 900; ++q)
            p += strf("%g %g the rest of the line %d\n", q % 37 / 1.25, q % 31 / 1.25, q);
        switch (t) {
        case 0: av = { "getnodes", "-i", "CO", "-o", "CO", put("grid", gridtext(g)) }; break;
        case 1: av = { "getnodes", "-i", "CO", "-o", "DD", "-x", put("grid", gridtext(g)) }; break;
        case 2: av = { "getbound", "-r", "-i", "CO", put("grid", gridtext(geogrid(300, 300, GEO_UNIT))) }; break;
        case 3: av = { "xy2ij", "-f", "-i", "CO", "-g", put("grid", gridtext(g)), "-o", put("points", p) }; break;
        case 4: av = { "subgrid", put("grid", gridtext(g)), "-y" }; break;
        case 5: av = { "insertgrid", put("grid", gridtext(g)), put("slave", gridtext(geogrid(3, 3, GEO_UNIT))), "5", "6" }; break;
        case 6: av = { "setbathy", "-d", "30x29", "-z", "abc", "-i", "7:9", put("bathy", p) }; break;
        default: av = { "gridbathy", "-a", "4", "-i", "CO", "-g", put("grid", gridtext(g)), "-b", put("data", "1 1 3\n4 5 6\n20 10 7\n9 9 9\n") }; break;
        }
        std::string none;
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(idx, 3));
        MC_CHECK(c, a.status == 0 && a.out.size() > 4096, "%s: %d, %zu characters", join(av).c_str(), a.status, a.out.size());
        int64_t n = (int64_t) a.out.size(), k = at < 8 ? at - 4 + 4096 : at < 16 ? n - (at - 8) : at < 20 ? n + at - 16 : at < 24 ? n / 4096 * 4096 + at - 22 : n * (at - 24) / 16;
        RunOpt o;
        o.outlimit = k;
        faulty(c, av, none, a, o, k < n, "limited size", k);
    });
    /* one piece of the output is lost, those after it are not */
    add(F, "all command lines x each of the first pieces of the output alone cannot be written", cmds.size() * 3 * (thorough ? 4 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av = cmds[d.take((int) cmds.size())].av;
        static const int PIECE[3] = { 7, 64, 300 };
        static const uint32_t SH[4] = { 63, 31, 54, 62 };
        int piece = PIECE[d.take(3)];
        Shape s = shapeof(W, H, SH[thorough ? d.v : idx % 4]);
        fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, 0);
        std::string none;
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 5)));
        if (a.status != 0)
            return;
        size_t n = a.out.size() / piece + 2;
        for (size_t k = 1; k <= n; k += piece > 7 || k < 3 || k + 3 > n || thorough ? 1 : 1 + (k + idx) % 4) {
            std::string note = file("note");
            writefile(note, "");
            RunOpt o = faultenv("", -1, 0, "");
            o.env.push_back("MC_FAULT_NOTE=" + note);
            o.env.push_back(strf("MC_OUT_FAIL=%zu", k));
            o.env.push_back(strf("MC_OUT_PIECE=%d", piece));
            Out b = runtool(av, &none, &o);
            c.step();
            bool hit = !readfile(note).empty();
            if (!hit || b.status == 0)
                MC_CHECK(c, b.status == 0 && b.out == a.out, "%s: piece %zu of %d characters of the output %s written; exit status %d, output\n%s\nthe complete one is\n%s", join(av).c_str(), k, piece, hit ? "could not be" : "was", b.status, b.out.c_str(), a.out.c_str());
            else
                MC_CHECK(c, b.status == 1 && b.err.find("error") != std::string::npos, "%s: piece %zu of %d characters of the output could not be written; exit status %d: %s", join(av).c_str(), k, piece, b.status, b.err.c_str());
        }
    });
    /* the library: writing to a file of limited size */
    add(F, "writing nodes to a full device or a file of limited size", 3 * 3 * 80, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int ct = d.take(3), z = d.take(3), k = d.take(80);
        G g = geogrid(z == 2 ? 60 : 3, z == 1 ? 1 : z == 2 ? 30 : 2, GEO_AFFINE);
        GN gn(mkgn(g, NT_NONE));
        static const COORDTYPE CT[3] = { CT_XY, CT_X, CT_Y };
        std::string ref = file("ref"), out = file("out");
        gridnodes_write(gn, (char*) ref.c_str(), CT[ct]);
        std::string want = readfile(ref);
        c.state(mix(idx, 4));
        if (k == 0) {
            c.step();
            MC_CHECK(c, quits([&] { gridnodes_write(gn, (char*) "/dev/full", CT[ct]); }), "no error on a full device");
            return;
        }
        int64_t n = (int64_t) want.size(), lim = k < 60 ? n * k / 60 : n - (75 - k);
        if (lim < 0)
            return;
        void (*sx)(int) = signal(SIGXFSZ, SIG_IGN);
        struct rlimit rl, l2;
        getrlimit(RLIMIT_FSIZE, &rl);
        l2 = rl;
        l2.rlim_cur = (rlim_t) lim;
        setrlimit(RLIMIT_FSIZE, &l2);
        bool q = quits([&] { gridnodes_write(gn, (char*) out.c_str(), CT[ct]); });
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, sx);
        c.step();
        MC_CHECK(c, q == (lim < n), "%lld of %lld characters can be written: %s", (long long) lim, (long long) n, q ? "an error is reported" : "no error is reported");
        std::string got = readfile(out);
        MC_CHECK(c, lim < n ? want.compare(0, got.size(), got) == 0 : got == want, "written \"%s\", expected \"%s\"", got.c_str(), want.c_str());
        unlink(out.c_str());
    });
}

/* ----------------------------------------------- C37 the handler of fatal errors */
static gu_quitfn default_quit = gu_quit;        /* before the engine sets its own */
static std::string tbase;       /* the same directory in a child */
static std::string tfile(const char* name)
{
    return tbase + "/" + name;
}
static std::string tput(const char* name, const std::string& data)
{
    writefile(tfile(name), data);
    return tfile(name);
}
struct Trigger {
    const char* name;
    std::function<void()> f;
    std::function<std::string()> needle;        /* to be found in the message */
};
/* names with characters that matter to printf */
static std::string oddname(int k)
{
    static const char* N[] = { "no such file", "no %s %d %n file", "100%", "" };
    return tfile(N[k % 3]);
}
static std::vector<Trigger>& triggers()
{
    static std::vector<Trigger> v;
    if (!v.empty())
        return v;
    auto nothing = [] { return std::string(); };
    auto rd = [](const char* n, const char* text, NODETYPE t) {
        std::string p = tput(n, text);
        gridnodes_destroy(gridnodes_read((char*) p.c_str(), t));
    };
    for (int k = 0; k < 3; ++k) {
        v.push_back({"reading a missing grid", [=] { gridnodes_read((char*) oddname(k).c_str(), NT_COR); }, [=] { return oddname(k); }});
        v.push_back({"reading a missing mask", [=] { gu_readmask((char*) oddname(k).c_str(), 2, 2); }, [=] { return oddname(k); }});
        v.push_back({"opening a missing file", [=] { gu_fopen(oddname(k).c_str(), "r"); }, [=] { return oddname(k); }});
        v.push_back({"writing into a missing directory", [=] {
            G g = geogrid(2, 2, GEO_UNIT);
            std::string p = oddname(k) + "/x";
            GN gn(mkgn(g, NT_COR));
            gridnodes_write(gn, (char*) p.c_str(), CT_XY);
        }, [=] { return oddname(k) + "/x"; }});
    }
    for (int len : { 60, 120, 250 })     /* long names */
        for (int deep = 1; deep <= 13; deep += 12) {
            auto nm = [=] {
                std::string p = tbase + "/none";
                for (int k = 0; k < deep; ++k)
                    p += "/" + std::string(len, 'a' + k);
                return p + "/end.txt";
            };
            v.push_back({"a grid with a long name", [=] { gridnodes_read((char*) nm().c_str(), NT_COR); }, nm});
            if (len == 250)
                v.push_back({"a mask with a long name", [=] { gu_readmask((char*) nm().c_str(), 2, 2); }, nm});
        }
    v.push_back({"opening a directory", [] { gu_fopen(tbase.c_str(), "w"); }, [] { return tbase; }});
    v.push_back({"an empty file", [=] { rd("f%d", "", NT_COR); }, [] { return tfile("f%d"); }});
    v.push_back({"no header", [=] { rd("f%s", "1 2\n", NT_COR); }, [] { return tfile("f%s"); }});
    v.push_back({"nx = 0", [=] { rd("f", "## 0 x 2\n1 2\n", NT_COR); }, nothing});
    for (auto h : { "## 2 x 0\n1 2\n", "## 0 x 0\n1 2\n", "## -1 x 2\n1 2\n", "## 2 x -2147483648\n1 2\n", "## 1 x\n1 2\n" })
        v.push_back({h, [=] { rd("f", h, NT_COR); }, nothing});
    v.push_back({"ny = -7", [=] { rd("f", "## 2 x -7\n1 2\n", NT_COR); }, [] { return std::string("-7"); }});
    v.push_back({"too big", [=] { rd("f", "## 70001 x 70002\n1 2\n", NT_COR); }, [] { return std::string("70002"); }});
    v.push_back({"even DD, nx", [=] { rd("f", "## 44 x 3\n1 2\n", NT_DD); }, [] { return std::string("44"); }});
    v.push_back({"even DD, ny", [=] { rd("f", "## 3 x 46\n1 2\n", NT_DD); }, [] { return std::string("46"); }});
    v.push_back({"a truncated grid", [=] { rd("f", "## 3 x 17\n1 2\n3 4\n", NT_COR); }, [] { return std::string("17"); }});
    v.push_back({"a truncated mask", [] { gu_readmask((char*) tput("m", "1\n0\n").c_str(), 13, 2); }, [] { return std::string("13"); }});
    v.push_back({"a mask value", [] { gu_readmask((char*) tput("m", "1\n%s%n\n").c_str(), 2, 2); }, [] { return std::string("%s%n"); }});
    v.push_back({"a 2-D array without rows", [] { gu_alloc2d(0, 5, 8); }, nothing});
    v.push_back({"a 2-D array without columns", [] { gu_alloc2d(5, 0, 8); }, nothing});
    v.push_back({"a mask on corner nodes", [] {
        G g = geogrid(2, 2, GEO_UNIT);
        GN gn(mkgn(g, NT_COR));
        int* row[1] = { nullptr };
        gridnodes_applymask(gn, row);
    }, nothing});
    v.push_back({"a mask on untyped nodes", [] {
        G g = geogrid(2, 2, GEO_UNIT);
        GN gn(mkgn(g, NT_NONE));
        int* row[1] = { nullptr };
        gridnodes_applymask(gn, row);
    }, nothing});
    v.push_back({"cells of untyped nodes, 1", [] {
        G g = geogrid(2, 2, GEO_UNIT);
        GN gn(mkgn(g, NT_NONE));
        gridnodes_getnce1(gn);
    }, nothing});
    v.push_back({"cells of untyped nodes, 2", [] {
        G g = geogrid(2, 2, GEO_UNIT);
        GN gn(mkgn(g, NT_NONE));
        gridnodes_getnce2(gn);
    }, nothing});
    v.push_back({"an empty subgrid", [] {
        G g = geogrid(3, 3, GEO_UNIT);
        GN gn(mkgn(g, NT_COR));
        gridnodes_subgrid(gn, 5, 7, 0, 2);
    }, nothing});
    v.push_back({"validation of an even double density grid", [] {
        GN gn(gridnodes_create(38, 3, NT_DD));
        gridnodes_validate(gn);
    }, [] { return std::string("38"); }});
    v.push_back({"a NaN vertex", [] {
        poly* p = poly_create();
        poly_addpoint(p, 1, NAN);
    }, nothing});
    v.push_back({"a NaN vertex in the middle", [] {
        poly* p = poly_create();
        poly_addpoint(p, 1, 1);
        poly_addpointat(p, 0, NAN, 1);
    }, nothing});
    v.push_back({"a map of unknown type", [] {
        G g = geogrid(3, 3, GEO_UNIT);
        Arr x(g, true), y(g, false);
        gridmap_build(2, 2, x.p, y.p, 57);
    }, [] { return std::string("57"); }});
    return v;
}
static int hcalls[3];
static std::string hmsg;
static jmp_buf hjb;
template <int K> static void handler(char* format, ...)
{
    char b[8192];
    va_list ap;
    va_start(ap, format);
    vsnprintf(b, sizeof b, format, ap);
    va_end(ap);
    ++hcalls[K];
    hmsg = b;
    longjmp(hjb, 1);
}
/* the library works after an error that was caught */
static void stillworks(Ctx& c)
{
    G g = geogrid(4, 3, GEO_CURVI);
    std::string p = put("good", gridtext(g));
    gridnodes* gn = gridnodes_read((char*) p.c_str(), NT_COR);
    MC_CHECK(c, sameg(getg(gn), g), "a grid is misread after a fatal error that was caught");
    gridmap* gm = gridmap_build2(gn);
    double x, y, fi, fj;
    gridmap_fij2xy(gm, 1.5, 0.5, &x, &y);
    MC_CHECK(c, gridmap_xy2fij(gm, x, y, &fi, &fj) == 1 && fabs(fi - 1.5) < 1e-6 && fabs(fj - 0.5) < 1e-6, "a map does not work after a fatal error that was caught");
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
    c.step(3);
}
__attribute__((noinline)) static bool fire(const Trigger& t)
{
    hcalls[0] = hcalls[1] = hcalls[2] = 0;
    hmsg.clear();
    if (setjmp(hjb) == 0) {
        t.f();
        return false;
    }
    return true;
}
PROPERTY(C37)
{
    static const gu_quitfn H[3] = { handler<0>, handler<1>, handler<2> };
    uint64_t nt = triggers().size();
    /* all histories of three actions: set one of three handlers and trigger an error */
    add(F, "all histories of handlers and pairs of errors", nt * nt * 9, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        tbase = scratch();
        int t[2] = { d.take((int) nt), d.take((int) nt) }, h[2] = { d.take(3), d.take(3) };
        gu_quitfn save = gu_quit;
        for (int k = 0; k < 2; ++k) {
            if (k == 0 || h[1] != h[0])
                gu_setquitfn(H[h[k]]);
            const Trigger& T = triggers()[t[k]];
            bool fired = fire(T);
            std::string m = hmsg, w = T.needle();
            c.log("%s, handler %d: \"%s\"", T.name, h[k], m.c_str());
            gu_setquitfn(save);
            MC_CHECK(c, fired && hcalls[0] + hcalls[1] + hcalls[2] == 1 && hcalls[h[k]] == 1, "%s: calls of the handlers: %d %d %d, the current one is %d", T.name, hcalls[0], hcalls[1], hcalls[2], h[k]);
            MC_CHECK(c, !m.empty() && m.find(w) != std::string::npos, "%s: the message \"%s\" does not contain \"%s\"", T.name, m.c_str(), w.c_str());
            gu_setquitfn(H[h[k]]);
            c.step();
            c.state(mix(mix(t[k], h[k]), k));
        }
        gu_setquitfn(save);
        stillworks(c);
    });
    /* without a handler: message on standard error, exit status 1 */
    add(F, "no handler: all errors", nt * 3, [=](Ctx& c, uint64_t idx) {
        tbase = scratch();
        const Trigger& T = triggers()[idx % nt];
        int how = (int) (idx / nt);
        gu_quitfn save = gu_quit;
        gu_setquitfn(H[0]);
        fire(T);
        std::string want = hmsg, eo = file("out"), ee = file("err");
        gu_setquitfn(save);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            freopen(eo.c_str(), "w", stdout);
            freopen(ee.c_str(), "w", stderr);
            if (how == 1) {             /* another handler, then the default one again */
                gu_setquitfn(H[1]);
                gu_setquitfn(default_quit);
            } else
                gu_setquitfn(default_quit);
            printf("results so far\n");
            if (how == 2)
                gu_verbose = 1;
            T.f();
            _exit(55);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        std::string o = readfile(eo), e = readfile(ee);
        c.step();
        c.state(mix(idx, 41));
        c.log("%s: status %d, stderr \"%s\"", T.name, st, e.c_str());
        MC_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 1, "%s: status %x, expected exit with 1; stderr %s", T.name, st, e.c_str());
        MC_CHECK(c, o == "results so far\n", "%s: output \"%s\"", T.name, o.c_str());
        size_t p = e.find(want);
        MC_CHECK(c, p != std::string::npos && e.find(want, p + 1) == std::string::npos && e.find("error") != std::string::npos, "%s: standard error \"%s\" does not contain the message \"%s\" once", T.name, e.c_str(), want.c_str());
    }, 8);
}

/* ------------------------------------------- C33 memory: every byte, no more */
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

/* f leaves no memory allocated: measured over a repetition, so that buffers of
 * the C library that are allocated once do not count */
static int lowestfd()
{
    int fd = dup(0);
    close(fd);
    return fd;
}
template <class L> static void noleak(Ctx& c, const char* what, L&& f)
{
    f();
    int fd = lowestfd();
    size_t a = __sanitizer_get_current_allocated_bytes();
    f();
    size_t b = __sanitizer_get_current_allocated_bytes();
    c.step(2);
    MC_CHECK(c, lowestfd() == fd, "%s: a file is left open", what);
    if (a != b) {               /* growth must persist */
        f();
        size_t d = __sanitizer_get_current_allocated_bytes();
        f();
        size_t e = __sanitizer_get_current_allocated_bytes();
        MC_CHECK(c, b == a || e == d, "%s: %ld bytes are not released", what, (long) (e - d));
    }
}
static void sink(gridnodes* gn, int ct)
{
    int fd = dup(1);
    int nul = ::open("/dev/null", 1);
    dup2(nul, 1);
    close(nul);
    gridnodes_write(gn, (char*) "stdout", (COORDTYPE) ct);
    fflush(stdout);
    dup2(fd, 1);
    close(fd);
}
static const NODETYPE T3[3] = { NT_DD, NT_CEN, NT_COR };

PROPERTY(C33)
{
    /* the tools under the address and undefined-behaviour sanitizers */
    struct T { const char* name; SV av; };
    static std::vector<T> tools;
    tools.clear();
    for (auto i : { "DD", "CO", "CE" })
        for (auto o : { "DD", "CO", "CE" })
            for (auto m : { "", "-p", "-v" }) {
                SV av = { "getnodes", "-i", i, "-o", o, "-" };
                if (*m)
                    av.push_back(m);
                tools.push_back({"getnodes", av});
            }
    for (auto i : { "DD", "CO" }) {
        tools.push_back({"getnodes -m", {"getnodes", "-i", i, "-o", "DD", "-m", "@M", "-"}});
        tools.push_back({"getnodes -m", {"getnodes", "-i", i, "-o", "CE", "-m", "@M", "-x", "-"}});
        tools.push_back({"getbound", {"getbound", "-i", i, "-"}});
        tools.push_back({"getbound", {"getbound", "-i", i, "-r", "-c", "-"}});
        for (auto k : { "-f", "-k" })
            for (auto r : { "-f", "-r" })
                tools.push_back({"xy2ij", {"xy2ij", "-f", k, r, "-i", i, "-g", "-", "-o", "@P"}});
        for (auto a : { "0", "2", "4" })
            tools.push_back({"gridbathy", {"gridbathy", "-i", i, "-a", a, "-b", "@D", "-g", "-"}});
        tools.push_back({"gridbathy", {"gridbathy", "-i", i, "-x", "-m", "@M", "-a", "1", "-b", "@D", "-g", "-"}});
    }
    for (auto p : { "0", "2", "7" })
        for (auto m : { "-m", "-v" })
            tools.push_back({"insertgrid", {"insertgrid", "-", "@S", p, "1", m}});
    tools.push_back({"insertgrid", {"insertgrid", "@S", "-", "1", "1"}});
    tools.push_back({"subgrid", {"subgrid", "-", "-i", "1:2"}});
    tools.push_back({"subgrid", {"subgrid", "-", "-j", "-1:2147483647", "-i", "-2147483648:0"}});
    tools.push_back({"setbathy", {"setbathy", "-", "-z", "1", "-i", "0:1"}});
    struct I { int nx, ny; int pat; };
    static std::vector<I> in;
    in.clear();
    int mx = thorough ? 6 : 3;
    for (int nx = 1; nx <= mx; ++nx)
        for (int ny = 1; ny <= mx; ++ny)
            for (int p = 0; p < (nx * ny == 1 ? 2 : 2 + (nx * ny > 9 ? 1 : 2) * nx * ny); ++p)
                in.push_back({nx, ny, p});
    for (int p = 0; p < (thorough ? 50 : 25); ++p)
        in.push_back({5, 5, 2 + p});
    in.push_back({17, 9, 0});
    in.push_back({7, 1, 0});
    in.push_back({1, 9, 0});
    size_t nt = tools.size();
    const char* ms = getenv("VERIF_MSAN");
    std::string msan = ms ? ms : "";
    add(F, "all tools on small, thin, empty and gappy grids, address and memory sanitizers", nt * in.size() * 2, [=](Ctx& c, uint64_t idx2) {
        uint64_t idx = idx2 / 2;
        const T& t = tools[idx % nt];
        const I& q = in[idx / nt];
        G g = geogrid(q.nx, q.ny, q.pat % 2 ? GEO_CURVI : GEO_UNIT);
        /* full, empty, all single missing nodes, all single nodes left */
        int n = q.nx * q.ny;
        uint64_t m = q.pat == 0 ? 0 : q.pat == 1 ? ~0ULL : q.pat - 2 < n ? 1ULL << (q.pat - 2) : ~(1ULL << (q.pat - 2 - n));
        if (q.nx * q.ny < 64)
            kill(g, m & ((1ULL << (q.nx * q.ny)) - 1));
        SV av = t.av;
        for (auto& a : av) {
            if (a == "@M") {
                std::string s;
                for (int k = 0; k < q.nx * q.ny; ++k)
                    s += (k * 5 + q.pat) % 3 ? "1\n" : "0\n";
                a = put("mask", s);
            } else if (a == "@S")
                a = put("slave", gridtext(slavegrid(2, 2, q.pat % 16)));
            else if (a == "@P")
                a = put("points", "0.5 0.5\n1.5 0.25 z\n-3 7\nNaN 0\n0 0\n1 1\n1e308 -1e308\n2 2\n1.0000000001 0.9999999999\n# c\n0 NaN\n\n5");
            else if (a == "@D")
                a = put("data", "0.1 0.2 3\n0.5 0.4 2\n0.3 0.9 7\n0.8 1.9 1\n-5 -5 4\n1 1 1\n");
        }
        std::string txt = gridtext(g);
        if (idx2 % 2)
            av[0] = msan + "/" + av[0];
        c.log("$ %s\n< %s", join(av).c_str(), txt.c_str());
        c.state(mix(idx2, 33));
        Out o = runtool(av, &txt);
        c.step();
        std::string e = o.err;
        size_t p = e.find("ERROR: AddressSanitizer");
        if (p == std::string::npos)
            p = e.find("WARNING: MemorySanitizer");
        if (p == std::string::npos)
            p = e.find("runtime error:");
        if (p == std::string::npos)
            p = 0;
        else
            p = p > 100 ? p - 100 : 0;
        MC_CHECK(c, o.status == 0 || (o.status == 1 && e.find("error: ") != std::string::npos && e.find("Sanitizer") == std::string::npos && e.find("runtime error:") == std::string::npos), "%s on a grid of %dx%d nodes [%s]: status %d:\n%s", join(av).c_str(), q.nx, q.ny, q.nx * q.ny < 64 ? vstr(g).c_str() : "", o.status, e.substr(p, 900).c_str());
    });
    add(F, "all tools on large grids", nt * 8, [=](Ctx& c, uint64_t idx) {
        const T& t = tools[idx % nt];
        static const int SZ[8][2] = { {257, 257}, {301, 231}, {1, 70001}, {70001, 1}, {65537, 3}, {3, 65537}, {255, 257}, {256, 256} };
        const int* z = SZ[idx / nt];
        G g = largegrid(z[0], z[1], (int) (idx % 2) * 6, GEO_UNIT);
        SV av = t.av;
        for (auto& a : av) {
            if (a == "@M") {
                std::string s;
                for (int k = 0; k < z[0] * z[1]; ++k)
                    s += k % 5 ? "1\n" : "0\n";
                a = put("mask", s);
            } else if (a == "@S")
                a = put("slave", gridtext(slavegrid(2, 2, 1)));
            else if (a == "@P" || a == "@D") {
                std::string s;
                for (int k = 0; k < 500; ++k)
                    s += strf("%g %g %d\n", k * 37 % 500 * (z[0] / 500.0), k * 41 % 500 * (z[1] / 500.0), k);
                a = put("points", s);
            }
        }
        std::string txt = gridtext(g);
        c.state(mix(idx, 335));
        Out o = runtool(av, &txt);
        c.step();
        size_t p = o.err.find("ERROR: AddressSanitizer");
        if (p == std::string::npos)
            p = o.err.find("runtime error:");
        p = p == std::string::npos || p < 100 ? 0 : p - 100;
        MC_CHECK(c, o.status == 0 || (o.status == 1 && o.err.find("error: ") != std::string::npos && o.err.find("Sanitizer") == std::string::npos && o.err.find("runtime error:") == std::string::npos), "%s on a grid of %dx%d nodes: status %d:\n%s", join(av).c_str(), z[0], z[1], o.status, o.err.substr(p, 900).c_str());
    }, 2);
    /* histories of library calls with the memory sanitizer: no value that was never written is handed out or decides anything */
    struct LF { const char* name; const char* what; uint64_t n; };
    auto pw = [](uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; };
    static LF lf[3];
    lf[0] = { thorough ? "p4" : "p3", "polylines", 3 * pw(34, thorough ? 4 : 3) };
    lf[1] = { thorough ? "g3" : "g2", "grids and maps", 144 * pw(14, thorough ? 3 : 2) };
    lf[2] = { thorough ? "k5" : "k4", "kd-trees", 4 * pw(9, thorough ? 5 : 4) };
    for (int q = 0; q < 3; ++q) {
        uint64_t each = 64;
        add(F, strf("all histories of %s calls, memory sanitizer: %s", lf[q].name + 1, lf[q].what), (lf[q].n + each - 1) / each, [=](Ctx& c, uint64_t idx) {
            std::string none;
            Out o = runtool({ msan + "/life", lf[q].name, strf("%llu", (unsigned long long) (idx * each)), strf("%llu", (unsigned long long) std::min(each, lf[q].n - idx * each)), file("life") }, &none);
            c.step(each);
            for (uint64_t k = 0; k < each; ++k)
                c.state(mix(idx * each + k, 3300 + q));
            size_t p = o.err.find("WARNING: MemorySanitizer");
            MC_CHECK(c, o.status == 0, "%s, histories %llu to %llu: status %d:\n%s", lf[q].what, (unsigned long long) (idx * each), (unsigned long long) (idx * each + each - 1), o.status, o.err.substr(p == std::string::npos ? 0 : p, 1500).c_str());
        });
    }
    /* the library: everything is released */
    static std::vector<uint32_t> sh;
    sh = simpleshapes(3, 3);
    add(F, "grid nodes: all conversions, copies, subgrids and masks", sh.size() * 3 * 3 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        NODETYPE a = T3[d.take(3)], b = T3[d.take(3)];
        int km = d.take(2);
        Shape s = shapeof(3, 3, sh[d.v]);
        G g = a == NT_DD ? ddgrid(3, 3, s, 1) : geogrid(4, 4, 1);
        if (a != NT_DD)
            applyshape(g, s);
        if (a == NT_CEN)
            g = geogrid(3, 3, 1);
        std::string path = put("grid", gridtext(g)), mpath = put("mask", d.v % 4 == 3 ? "0\n0\n0\n0\n0\n0\n0\n0\n0\n" : d.v % 4 == 2 ? "1\n1\n1\n1\n1\n1\n1\n1\n1\n" : "1\n0\n1\n1\n1\n1\n0\n1\n1\n"), opath = file("out");
        c.state(mix(idx, 331));
        noleak(c, "grid nodes", [&] {
            gridnodes* gn = gridnodes_read((char*) path.c_str(), a);
            gridnodes_setmaptype(gn, km);
            gridnodes_validate(gn);
            gridnodes_calcstats(gn);
            gridnodes* t = gridnodes_transform(gn, b);
            gridnodes* cp = gridnodes_copy(t);
            gridnodes_calcstats(cp);
            gridnodes_calcstats(cp);
            gridnodes* cp2 = gridnodes_copy(cp);
            int** m = gu_readmask((char*) mpath.c_str(), gridnodes_getnce1(cp), gridnodes_getnce2(cp));
            if (b != NT_COR)
                gridnodes_applymask(cp, m);
            gu_free2d(m);
            gridnodes* sg = gridnodes_subgrid(cp, 1, 2, 0, 1);
            sink(sg, CT_XY);
            sink(cp2, CT_X);
            gridnodes_write(sg, (char*) opath.c_str(), CT_XY);
            gridnodes_write(t, (char*) opath.c_str(), CT_Y);
            gridnodes_destroy(sg);
            gridnodes_destroy(cp2);
            gridnodes_destroy(cp);
            gridnodes_destroy(t);
            gridnodes_destroy(gn);
        });
    });
    add(F, "maps: build, query, average, destroy", sh.size() * 2 * 3, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int type = d.take(2), how = d.take(3);
        Shape s = shapeof(3, 3, sh[d.v]);
        G g = geogrid(4, 4, GEO_CURVI);
        applyshape(g, s);
        c.state(mix(idx, 332));
        noleak(c, "maps", [&] {
            gridnodes* gn = mkgn(g, NT_COR);
            gridnodes_setmaptype(gn, type);
            gridmap* gm = how ? gridmap_build(3, 3, gridnodes_getx(gn), gridnodes_gety(gn), type) : gridmap_build2(gn);
            double x, y;
            int i, j;
            for (int k = 0; k < 12; ++k) {
                gridmap_xy2fij(gm, 0.3 * k, 0.27 * k, &x, &y);
                gridmap_xy2ij(gm, 3 - 0.3 * k, 0.27 * k, &i, &j);
                gridmap_fij2xy(gm, 0.3 * k, 0.27 * k, &x, &y);
            }
            if (how == 2) {
                gridaverager* ga = ga_create(gm);
                point p[3] = { {0.5, 0.5, 1}, {1.5, 0.5, 2}, {-9, 0, 3} };
                ga_addpoints(ga, 3, p);
                ga_getvalue(ga, p);
                ga_destroy(ga);
            }
            gridmap_destroy(gm);
            gridnodes_destroy(gn);
        });
    });
    add(F, "polygons", sh.size() * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int how = d.take(2);
        Shape s = shapeof(3, 3, sh[d.v]);
        G g = geogrid(4, 4, how ? GEO_UNIT : GEO_CURVI);
        applyshape(g, s);
        c.state(mix(idx, 333));
        noleak(c, "polygons", [&] {
            Arr x(g, true), y(g, false);
            poly* a = poly_formbound(3, 3, x.p, y.p);
            poly* b = poly_formboundij(3, 3, x.p);
            poly* e = poly_copy(a);
            poly* f = poly_create();
            for (int k = 0; k < 20; ++k)
                poly_addpoint(f, k, k * k);
            for (int k = 0; k < 20; ++k)
                poly_addpointat(f, k, -k, k);
            poly_append(e, b);
            poly_append(e, f);
            poly_resample(e, 0.01);
            poly_despike(e, 0.5);
            poly_reverse(e);
            poly_close(e);
            poly_compact(a, 1e-10);
            poly_compact(b, 1e-10);
            poly_deletepoint(f, 3);
            poly_clear(f);
            poly_addpoint(f, 1, 1);
            for (int n0 = 0; n0 < 10; ++n0) {   /* copies of all small sizes, filled beyond any capacity */
                poly* u = poly_create();
                for (int k = 0; k < n0; ++k)
                    poly_addpoint(u, k, -k);
                poly* v = poly_copy(u);
                for (int k = 0; k < 40; ++k)
                    poly_addpoint(v, k, k);
                poly* w = poly_copy(u);
                for (int k = 0; k < 20; ++k)
                    poly_addpointat(w, k / 2, k, k);
                poly* z = poly_copy(u);
                poly_append(z, w);
                poly_append(z, u);
                poly_compact(u, 1e-10);
                poly_addpoint(u, 3, 4);
                poly_destroy(u);
                poly_destroy(v);
                poly_destroy(w);
                poly_destroy(z);
            }
            poly_destroy(a);
            poly_destroy(b);
            poly_destroy(e);
            poly_destroy(f);
        });
    });
    add(F, "kd-trees and result sets: all sizes", 40ULL * 3 * 2 * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int n = d.take(40), ndim = 1 + d.take(3), rnd = d.take(2), ord = d.take(2);
        if (n > 30)
            n = n * 40;
        c.state(mix(idx, 334));
        noleak(c, "kd-trees", [&] {
            kdtree* t = kd_create(ndim);
            std::vector<vd> s(ndim, vd(n));
            std::vector<double*> p;
            for (int k = 0; k < ndim; ++k) {
                for (int q = 0; q < n; ++q)
                    s[k][q] = hash3(q, k, 9) % 64;
                p.push_back(s[k].data());
            }
            double o[3] = { 20, 20, 20 };
            kd_insertnodes(t, n, p.data(), rnd);
            kd_insertnode(t, o, 77);
            kd_findnearestnode(t, o);
            for (int part = 0; part < 3; ++part) {
                kdset* r = kd_findnodeswithinrange(t, o, part * 20.0, ord);
                double dist;
                for (int k = 0; k < part * 5; ++k)
                    kdset_read(r, &dist);
                kdset_free(r);
            }
            kd_getminmax(t);
            kd_destroy(t);
        });
    });
}

/* ---------------------------------------------------- C43 faults of the input */
PROPERTY(C43)
{
    static std::vector<Cmd> cmds, many;
    cmds.clear();
    many.clear();
    allcmds(cmds);
    manyopts(many);
    cmds.insert(cmds.end(), many.begin(), many.end());
    int W = 3, H = 2;
    struct Inp { size_t arg; char kind; std::string name, txt; };
    /* the inputs of a command that the repository itself reads (gridbathy's data are read by the nn library) */
    auto inputs = [](const SV& av0, const SV& av) {
        std::vector<Inp> v;
        for (size_t k = 1; k < av0.size(); ++k)
            if (av0[k][0] == '@' && av0[k][1] != 'D')
                v.push_back({k, av0[k][1], av[k], readfile(av[k])});
        return v;
    };
    /* what of the text must be read: all of a stream, the lines of an array */
    auto needed = [](const Inp& in) {
        return in.kind == 'P' || in.kind == 'B' ? (int64_t) in.txt.size() : (int64_t) in.txt.size() - 2;
    };
    add(F, strf("all command lines x some shapes of %dx%d cells x inputs x all positions at which reading fails", W, H), cmds.size() * (thorough ? 8 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av0 = cmds[d.take((int) cmds.size())].av, av = av0;
        static const uint32_t SH[8] = { 63, 62, 31, 54, 27, 15, 7, 58 };
        Shape s = shapeof(W, H, thorough ? SH[d.v] : SH[idx % 8]);
        fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, 0);
        std::string none, note = put("note", "");
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 43)));
        if (a.status != 0)
            return;
        for (auto& in : inputs(av0, av)) {
            int64_t n = (int64_t) in.txt.size();
            for (int64_t k = 0; k <= n; k += thorough || k + 3 >= n || k < 2 ? 1 : 1 + (int64_t) (k + idx) % 5) {
                bool fromstdin = (k + idx / 3) % 2 == 1;
                SV bv = av;
                if (fromstdin)
                    bv[in.arg] = "-";
                writefile(note, "");
                RunOpt o = faultenv(fromstdin ? "-" : in.name, k, (int) ((k + idx) % 4 == 0 ? 0 : (k + idx) % 4 == 1 ? 1 : (k + idx) % 4 == 2 ? 7 : 4096), note);
                Out b = runtool(bv, fromstdin ? &in.txt : &none, &o);
                c.step();
                bool hit = !readfile(note).empty();
                bool same = b.status == a.status && b.out == a.out;
                c.log("$ %s\nread error of %s at %lld of %lld%s: status %d\nstderr %s\n", join(bv).c_str(), bv[in.arg].c_str(), (long long) k, (long long) n, hit ? "" : " (not met)", b.status, b.err.c_str());
                if (!hit || k > needed(in))
                    if (same)
                        continue;
                MC_CHECK(c, hit || same, "%s: reading %s does not fail, but exit status %d instead of %d: %s", join(bv).c_str(), bv[in.arg].c_str(), b.status, a.status, b.err.c_str());
                MC_CHECK(c, b.status == 1, "%s: exit status %d although reading %s failed after %lld of %lld characters", join(bv).c_str(), b.status, bv[in.arg].c_str(), (long long) k, (long long) n);
                MC_CHECK(c, b.err.find("error") != std::string::npos, "%s: no error message although reading failed: %s", join(bv).c_str(), b.err.c_str());
                MC_CHECK(c, a.out.compare(0, b.out.size(), b.out) == 0, "%s: reading failed after %lld characters; the output\n%s\ndoes not begin the complete one:\n%s", join(bv).c_str(), (long long) k, b.out.c_str(), a.out.c_str());
            }
        }
    });
    add(F, strf("all command lines x shapes of %dx%d cells x inputs x sizes of the pieces in which they arrive", W, H), cmds.size() * (thorough ? 64 : 4), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av0 = cmds[d.take((int) cmds.size())].av, av = av0;
        Shape s = shapeof(W, H, (uint32_t) ((thorough ? d.v : d.v * 16 + idx % 16) * 37 % 64));
        fill(av, cmdgrid(av, s, W, H), cmdtype(av), idx, (int) (idx % 3));
        std::string none, note = put("note", "");
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 44)));
        for (auto& in : inputs(av0, av))
            for (int piece : { 1, 2, 3, 5, 16 })
                for (int fromstdin = 0; fromstdin < 2; ++fromstdin) {
                    if (!thorough && (piece + fromstdin + idx) % 2)
                        continue;
                    SV bv = av;
                    if (fromstdin)
                        bv[in.arg] = "-";
                    RunOpt o = faultenv(fromstdin ? "-" : in.name, -1, piece, note);
                    Out b = runtool(bv, fromstdin ? &in.txt : &none, &o);
                    c.step();
                    MC_CHECK(c, b.status == a.status && b.out == a.out, "%s, %s in pieces of %d: exit status %d, output\n%s\notherwise %d,\n%s", join(bv).c_str(), bv[in.arg].c_str(), piece, b.status, b.out.c_str(), a.status, a.out.c_str());
                }
    });
    /* what cannot be read at all: directories in place of files */
    add(F, "all command lines x inputs: directories", cmds.size() * 6, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        SV av0 = cmds[d.take((int) cmds.size())].av, av = av0;
        static const uint32_t SH[6] = { 63, 62, 31, 54, 27, 15 };
        fill(av, cmdgrid(av, shapeof(W, H, SH[d.v]), W, H), cmdtype(av), idx, 0);
        std::string none;
        Out a = runtool(av, &none);
        c.step();
        c.state(mix(hashs(join(av).substr(0, 80).c_str()), mix(idx, 45)));
        if (a.status != 0)
            return;
        for (auto& in : inputs(av0, av)) {
            SV bv = av;
            bv[in.arg] = "/";
            Out b = runtool(bv, &none);
            c.step();
            MC_CHECK(c, b.status == 1 && b.err.find("error") != std::string::npos, "%s: exit status %d although a directory cannot be read: %s", join(bv).c_str(), b.status, b.err.c_str());
        }
    });
}
