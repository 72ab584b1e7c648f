#include <array>
/* grid node arrays: reading, writing, validation, masking, conversions,
 * extraction, and histories of these operations */
#include "gridmodel.h"
#include <sys/stat.h>
#include <unistd.h>
#include <limits.h>
using namespace mc;

/* ---------------------------------------------------------------- helpers */
static uint64_t ipow(uint64_t a, int b)
{
    uint64_t r = 1;
    while (b-- > 0)
        r *= a;
    return r;
}
static void expectg(Ctx& c, gridnodes* gn, const G& want, const char* what)
{
    G got = getg(gn);
    c.step();
    MC_CHECK(c, sameg(got, want), "%s: the result is\n  %s\nexpected\n  %s", what, gstr(got).c_str(), gstr(want).c_str());
}
/* a number of nodes may differ by rounding */
static void expectnear(Ctx& c, gridnodes* gn, const G& want, const char* what)
{
    G got = getg(gn);
    double M = 1e-300;
    for (size_t k = 0; k < want.x.size(); ++k)
        if (!std::isnan(want.x[k]))
            M = std::max(M, std::max(fabs(want.x[k]), fabs(want.y[k])));
    c.step();
    bool good = got.nx == want.nx && got.ny == want.ny;
    for (size_t k = 0; good && k < want.x.size(); ++k)
        good = close_(got.x[k], want.x[k], 1e-14 * M) && close_(got.y[k], want.y[k], 1e-14 * M);
    MC_CHECK(c, good, "%s: the result is\n  %s\nexpected\n  %s", what, gstr(got).c_str(), gstr(want).c_str());
}

/* ------------------------------------------------------------ C01 reading */
struct LineForm {
    const char* s;
    int ok;
    double x, y;
};
static const LineForm LF[] = {
    {"1.5 2.5", 1, 1.5, 2.5}, {"NaN NaN", 0, 0, 0}, {"0 0", 1, 0, 0}, {"1.5 NaN", 0, 0, 0}, {"NaN 2.5", 0, 0, 0},
    {"7", 0, 0, 0}, {"", 0, 0, 0}, {"abc", 0, 0, 0}, {" 1e3\t-2.25 ", 1, 1000, -2.25}, {"-3 4 5 extra", 1, -3, 4},
    {"# 1 2", 0, 0, 0}, {"1.5,2.5", 0, 0, 0}, {"8.25 -0.125\r", 1, 8.25, -0.125}, {"nan nan", 0, 0, 0}, {"3 x", 0, 0, 0},
    {"x 3", 0, 0, 0}, {"-nan 1", 0, 0, 0}, {"12345678.9012345 -1e-300", 1, 12345678.9012345, -1e-300},
    {"1e21 -2e+300", 1, 1e21, -2e300}, {"+4.9e-324 -0", 1, 4.9e-324, -0.0},
    {"5 6 # a comment", 1, 5, 6}, {"-1.5 2 ## 3 x 3", 1, -1.5, 2}, {"7 8 NaN NaN", 1, 7, 8}, {"4 # 5", 0, 0, 0}, {"9 10#11", 1, 9, 10}
};
static const int NLF = sizeof LF / sizeof LF[0];
static const int NLFQ = 13;

static void readcheck(Ctx& c, const std::string& text, NODETYPE t, const G* want, const char* what)
{
    std::string fn = scratch() + "/g.txt";
    writefile(fn, text);
    c.log("%s: read as type %d:\n%s", what, (int) t, text.size() < 3000 ? text.c_str() : "(long)");
    gridnodes* p = nullptr;
    bool q = quits([&] { p = gridnodes_read((char*) fn.c_str(), t); });
    c.step();
    if (want == nullptr) {
        MC_CHECK(c, q, "%s: the file was accepted: %s", what, text.c_str());
        return;
    }
    MC_CHECK(c, !q, "%s: the file was not accepted (%s): %s", what, quit_msg.c_str(), text.c_str());
    GN gn(p);
    expectg(c, gn, *want, what);
    MC_CHECK(c, gridnodes_getmaptype(gn) == GRIDMAP_TYPE_DEF, "map type after reading");
    int n1 = -1, n2 = -1;
    if (t == NT_NONE)
        MC_CHECK(c, quits([&] { gridnodes_getnce1(gn); }) && quits([&] { gridnodes_getnce2(gn); }), "number of cells for nodes of unknown type");
    else {
        n1 = gridnodes_getnce1(gn);
        n2 = gridnodes_getnce2(gn);
        int e1 = t == NT_DD ? (want->nx - 1) / 2 : t == NT_COR ? want->nx - 1 : want->nx;
        int e2 = t == NT_DD ? (want->ny - 1) / 2 : t == NT_COR ? want->ny - 1 : want->ny;
        MC_CHECK(c, n1 == e1 && n2 == e2, "%d x %d cells, expected %d x %d", n1, n2, e1, e2);
    }
}
static const NODETYPE TYPES[4] = { NT_NONE, NT_DD, NT_CEN, NT_COR };
static const char* TN[4] = { "NONE", "DD", "CE", "CO" };

PROPERTY(C01)
{
    /* every combination of line forms */
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], n = nx * ny, nf = n <= 3 || thorough ? NLF : NLFQ;
        add(F, strf("all combinations of %d line forms, %dx%d nodes", nf, nx, ny), ipow(nf, n), [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            G g(nx, ny);
            std::string s = strf("## %d x %d\n", nx, ny);
            for (int k = 0; k < n; ++k) {
                const LineForm& f = LF[dd.take(nf)];
                s += std::string(f.s) + "\n";
                g.x[k] = f.ok ? f.x : NAN;
                g.y[k] = f.ok ? f.y : NAN;
            }
            c.state(idx);
            readcheck(c, s, nx % 2 && ny % 2 && idx % 2 ? NT_DD : idx % 3 == 0 ? NT_NONE : idx % 3 == 1 ? NT_CEN : NT_COR, &g, "line forms");
        });
    }
    /* one or two odd lines anywhere in a larger file */
    add(F, "two odd lines anywhere in a 5x3 file", 15 * 15 * NLF * NLF, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int p1 = d.take(15), p2 = d.take(15), f1 = d.take(NLF), f2 = d.take(NLF);
        G g = geogrid(5, 3, GEO_AFFINE);
        std::string s = "## 5 x 3\n";
        for (int k = 0; k < 15; ++k) {
            int f = k == p2 ? f2 : k == p1 ? f1 : -1;
            if (f >= 0) {
                s += std::string(LF[f].s) + "\n";
                g.x[k] = LF[f].ok ? LF[f].x : NAN;
                g.y[k] = LF[f].ok ? LF[f].y : NAN;
            } else
                s += num(g.x[k]) + " " + num(g.y[k]) + "\n";
        }
        c.state(idx);
        readcheck(c, s, TYPES[idx % 4], &g, "odd lines");
    });
    /* sizes, types, truncated and over-long files, last line without a newline */
    add(F, "all sizes up to 7x7, all types, all truncations", 7 * 7 * 4 * 54, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int nx = 1 + d.take(7), ny = 1 + d.take(7), t = d.take(4), e = d.take(54), n = nx * ny;
        G g = geogrid(nx, ny, GEO_CURVI);
        std::string s = strf("## %d x %d\n", nx, ny);
        int nl = e < 50 ? e : n;
        if (nl > n)
            return;
        for (int k = 0; k < nl; ++k)
            s += num(g.x[k]) + " " + num(g.y[k]) + "\n";
        if (e == 50)
            s.pop_back();
        else if (e == 51)
            s += "1 2\n";
        else if (e == 52)
            s += "\n# comment\nNaN NaN\n";
        else if (e == 53)
            s += "## 2 x 2\n1 2\n3 4\n5 6\n7 8";
        bool bad = nl < n || (TYPES[t] == NT_DD && (nx % 2 == 0 || ny % 2 == 0));
        c.state(idx);
        readcheck(c, s, TYPES[t], bad ? nullptr : &g, "sizes");
    });
    /* headers */
    static const struct {
        const char* s;
        int nx, ny;
    } H[] = {
        {"## 3 x 1\n", 3, 1}, {"## 1 x 3\n", 1, 3}, {"##3x1\n", 3, 1}, {"##   3   x   1   \n", 3, 1}, {"## 3 x 1 extra\n", 3, 1},
        {"## 3 x 1\r\n", 3, 1}, {"##\t3\tx\t1\n", 3, 1}, {"## +3 x 1\n", 3, 1}, {"## 03 x 1\n", 3, 1},
        {"# 3 x 1\n", 0, 0}, {"3 x 1\n", 0, 0}, {"## 3 1\n", 0, 0}, {"## 3 x\n", 0, 0}, {"## x 1\n", 0, 0}, {"## 3 X 1\n", 0, 0},
        {"## 0 x 3\n", 0, 0}, {"## 3 x 0\n", 0, 0}, {"## -3 x -1\n", 0, 0}, {"## -1 x 3\n", 0, 0}, {"## 3 x -1\n", 0, 0}, {"", 0, 0}, {"\n", 0, 0}, {"\n## 3 x 1\n", 0, 0},
        {"1 2\n", 0, 0}, {"## nan x 1\n", 0, 0}, {"## 3.5 x 1\n", 0, 0}, {"## 65536 x 65536\n", 0, 0}, {"## 2147483647 x 3\n", 0, 0}, {"## 46341 x 46341\n", 0, 0}
    };
    int nh = sizeof H / sizeof H[0];
    add(F, "header forms x types", nh * 4, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int h = d.take(nh), t = d.take(4);
        G g(H[h].nx, H[h].ny);
        std::string s = H[h].s;
        static const double v[6] = { 1, 2, 3.5, -4, 5, 6 };
        for (int k = 0; k < 3; ++k) {
            s += strf("%g %g\n", v[2 * k], v[2 * k + 1]);
            if (H[h].nx > 0) {
                g.x[k] = v[2 * k];
                g.y[k] = v[2 * k + 1];
            }
        }
        c.state(idx);
        readcheck(c, s, TYPES[t], H[h].nx > 0 ? &g : nullptr, "header");
    });
    add(F, "missing file", 4, [](Ctx& c, uint64_t idx) {
        std::string fn = scratch() + "/no/such/file";
        c.step();
        MC_CHECK(c, quits([&] { gridnodes_read((char*) fn.c_str(), TYPES[idx]); }), "a missing file was accepted");
    });
    /* long lines, anywhere in the file */
    add(F, "long lines", 6 * (NLONGKIND + 3) * NLINELEN * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int at = d.take(6), kind = d.take(NLONGKIND + 3), len = LINELEN[d.take(NLINELEN)], last = d.take(2);
        G g = geogrid(2, 2, GEO_AFFINE);
        std::string s = "## 2 x 2" + (at == 0 ? std::string(len - 8, kind % 2 ? ' ' : 'q') : "") + "\n";
        for (int k = 0; k < 4; ++k) {
            if (at != k + 1)
                s += num(g.x[k]) + " " + num(g.y[k]);
            else if (kind < NLONGKIND) {
                s += longline("1.5", "2.25", kind, len);
                g.x[k] = 1.5;
                g.y[k] = 2.25;
            } else {
                s += kind == NLONGKIND ? "#" + std::string(len - 1, '-') : kind == NLONGKIND + 1 ? std::string(len, ' ') : "NaN NaN" + std::string(len - 7, '.');
                g.x[k] = g.y[k] = NAN;
            }
            if (k < 3 || !last || at == 5)
                s += "\n";
        }
        if (at == 5)
            s += std::string(len, 'x');
        c.state(idx);
        readcheck(c, s, TYPES[idx % 3 + 1], TYPES[idx % 3 + 1] == NT_DD ? nullptr : &g, "long lines");
    });
    /* several reads in a row are independent */
    add(F, "pairs of reads", 24 * 24, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = d.take(24), b = d.take(24);
        for (int k = 0; k < 2; ++k) {
            int z = k ? b : a, nx = 1 + z % 3, ny = 1 + z / 3 % 2;
            G g = pattern(nx, ny, z / 6, GEO_UTM);
            readcheck(c, gridtext(g), NT_COR, &g, "pair of reads");
        }
    });
    /* sizes beyond 16-bit counts; complete, and with the last line missing */
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * NLARGEPAT * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT), cut = d.take(2);
        Size sz = fit(sizes(mid)[z], TYPES[(z + pat) % 4]);
        G g = largegrid(sz.nx, sz.ny, pat, GEO_UTM);
        std::string s = gridtext(g);
        if (cut)
            s.resize(s.rfind('\n', s.size() - 2) + 1);
        c.state(mix(idx, 9000));
        readcheck(c, s, TYPES[(z + pat) % 4], cut ? nullptr : &g, "large grid");
    }, mid ? 0 : 2);
}

/* ------------------------------------------------------------ C02 writing */
static const double VAL[] = { 0, -0.0, 1.0 / 3, -2.5, 123456789.123456789, 1e15 + 0.3, 1e-7, 999999999999999.9, 1e300, -4.9e-324, 5e-301, 100, 0.1, 147.123456789012, -43.9999999999999943, INFINITY, -INFINITY };
static const int NVAL = sizeof VAL / sizeof VAL[0];
static const COORDTYPE CTS[3] = { CT_XY, CT_X, CT_Y };

/* a printed number has 15 significant digits */
static bool dig15(double got, double v)
{
    return std::isnan(v) ? std::isnan(got) : got == v || (std::isfinite(got) && fabs(got - v) <= 5.25e-15 * fabs(v));
}
static void writecheck(Ctx& c, const G& g, NODETYPE t, bool reread)
{
    std::string fn = scratch() + "/o.txt", first;
    GN gn(mkgn(g, t));
    for (int k = 0; k < 3; ++k) {
        writefile(fn, "previous contents of the file, which are to be replaced by the output\n");
        MC_CHECK(c, !quits([&] { gridnodes_write(gn, (char*) fn.c_str(), CTS[k]); }), "writing failed: %s", quit_msg.c_str());
        std::string s = readfile(fn);
        G r;
        c.step();
        c.log("written (%s):\n%s", k == 0 ? "XY" : k == 1 ? "X" : "Y", s.size() < 2000 ? s.c_str() : "(long)");
        MC_CHECK(c, parsegrid(s, r, k == 0 ? 2 : 1), "output (%s) of %s is not a grid file:\n%s", k == 0 ? "XY" : k == 1 ? "X" : "Y", gstr(g).c_str(), s.c_str());
        MC_CHECK(c, r.nx == g.nx && r.ny == g.ny, "wrong size in the output");
        for (size_t q = 0; q < g.x.size(); ++q) {
            bool good = k == 0 ? dig15(r.x[q], g.x[q]) && dig15(r.y[q], g.y[q]) : k == 1 ? dig15(r.x[q], g.x[q]) : dig15(r.x[q], g.y[q]);
            MC_CHECK(c, good, "output (%s): node %d of %s was written as %.17g %.17g", k == 0 ? "XY" : k == 1 ? "X" : "Y", (int) q, gstr(g).c_str(), r.x[q], r.y[q]);
        }
        if (k == 0)
            first = s;
    }
    expectg(c, gn, g, "the grid after writing");
    if (!reread)
        return;
    /* reading back gives the same nodes; writing them again gives the same file */
    writefile(fn, first);
    gridnodes* p = nullptr;
    MC_CHECK(c, !quits([&] { p = gridnodes_read((char*) fn.c_str(), t); }), "cannot read what was written: %s", quit_msg.c_str());
    GN b(p);
    G gb = getg(b);
    for (size_t q = 0; q < g.x.size(); ++q)
        MC_CHECK(c, dig15(gb.x[q], g.x[q]) && dig15(gb.y[q], g.y[q]), "node %d changed from (%.17g,%.17g) to (%.17g,%.17g) by writing and reading", (int) q, g.x[q], g.y[q], gb.x[q], gb.y[q]);
    gridnodes_write(b, (char*) fn.c_str(), CT_XY);
    c.step(2);
    MC_CHECK(c, readfile(fn) == first, "writing is not stable");
}
static const char* FILENAMES[] = {
    "stdout.txt", "stdout1", "xstdout", "stdou", "stdin.txt", "stdinx", "stderr", "-x", "--", "x", "a b", "%s%n", "100%", "\"", "gr\nid", "\\", "#", "NaN", "L", ".hidden", "~", "a;b", "*", "|cat", ">x",
};
static const int NNAMES = (int) (sizeof FILENAMES / sizeof FILENAMES[0]);
PROPERTY(C02)
{
    add(F, "all pairs of values", NVAL * NVAL, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = d.take(NVAL), b = d.take(NVAL);
        G g(1, 1);
        g.set(0, 0, VAL[a], VAL[b]);
        c.state(idx);
        writecheck(c, g, NT_COR, true);
    });
    add(F, "all value pairs for two nodes", ipow(NVAL, 3) * 2, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int o = d.take(2);
        G g(o ? 1 : 2, o ? 2 : 1);
        int a = d.take(NVAL), b = d.take(NVAL), e = d.take(NVAL);
        g.x[0] = VAL[a];
        g.y[0] = VAL[b];
        g.x[1] = VAL[e];
        g.y[1] = VAL[(a + b) % NVAL];
        c.state(idx);
        writecheck(c, g, NT_NONE, true);
    });
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1];
        add(F, strf("all NaN patterns of %dx%d", nx, ny), ipow(2, nx * ny) * GEO_ALL, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int geo = d.take(GEO_ALL);
            G g = pattern(nx, ny, d.v, geo);
            c.state(mix(idx, nx * 10 + ny));
            writecheck(c, g, nx % 2 && ny % 2 ? NT_DD : NT_CEN, true);
        });
    }
    if (thorough)
        add(F, "all NaN patterns of 4x3", ipow(2, 12) * 2, [=](Ctx& c, uint64_t idx) {
            G g = pattern(idx % 2 ? 4 : 3, idx % 2 ? 3 : 4, idx / 2, GEO_POLAR);
            c.state(idx);
            writecheck(c, g, NT_COR, true);
        });
    add(F, "all sizes up to 12x12", 144, [](Ctx& c, uint64_t idx) {
        G g = pattern(1 + idx % 12, 1 + idx / 12, 0x8421084210842108ULL, GEO_UTM);
        c.state(idx);
        writecheck(c, g, NT_COR, true);
    });
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * NLARGEPAT, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT);
        c.state(mix(idx, 9000 + mid));
        writecheck(c, largegrid(sizes(mid)[z].nx, sizes(mid)[z].ny, pat, mid ? GEO_CURVI : GEO_UTM), NT_COR, true);
    }, mid ? 0 : 2);
    /* the names of files are nothing but names, except "stdout" */
    add(F, "names of files", NNAMES * 3 * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        std::string nm = FILENAMES[d.take(NNAMES)];
        int ct = d.take(3), how = d.take(3);
        if (nm.size() == 1 && nm[0] == 'L')
            nm = std::string(255, 'l');
        G g = pattern(3, 2, 1ULL << idx % 6, GEO_AFFINE);
        GN gn(mkgn(g, NT_NONE));
        std::string ref = scratch() + "/ref", dir = scratch() + "/d", full = (how == 2 ? dir : scratch()) + "/" + nm, decoy = (how == 2 ? scratch() : dir) + "/" + nm;
        mkdir(dir.c_str(), 0777);
        if (chdir(scratch().c_str()) != 0)
            c.fail("chdir");
        std::string p = how == 0 ? full : how == 1 ? nm : "d/" + nm;
        gridnodes_write(gn, (char*) ref.c_str(), CTS[ct]);
        writefile(decoy, "## 2 x 1\n7 8\n9 10\n");
        gridnodes_write(gn, (char*) p.c_str(), CTS[ct]);
        c.step(2);
        c.state(mix(idx, 77));
        FILE* f = fopen(full.c_str(), "r");
        MC_CHECK(c, f != nullptr, "nothing written to \"%s\"", p.c_str());
        if (f != nullptr)
            fclose(f);
        MC_CHECK(c, readfile(full) == readfile(ref), "\"%s\" holds \"%s\", expected \"%s\"", p.c_str(), readfile(full).c_str(), readfile(ref).c_str());
        MC_CHECK(c, readfile(decoy) == "## 2 x 1\n7 8\n9 10\n", "writing to \"%s\" changed \"%s\"", p.c_str(), decoy.c_str());
        if (ct == 0) {
            GN b(gridnodes_read((char*) p.c_str(), NT_NONE));
            c.step();
            expectg(c, b, getg(gn), strf("reading \"%s\"", p.c_str()).c_str());
        }
        unlink(full.c_str());
        unlink(decoy.c_str());
    });
    add(F, "unwritable file", 3, [](Ctx& c, uint64_t idx) {
        std::string fn = scratch() + "/no/such/dir";
        GN gn(gridnodes_create(2, 2, NT_COR));
        c.step();
        MC_CHECK(c, quits([&] { gridnodes_write(gn, (char*) fn.c_str(), CTS[idx]); }), "no error for an unwritable file");
    });
}

/* --------------------------------------------------------- C03, C04 valid */
static void validcheck(Ctx& c, const G& g, NODETYPE t)
{
    GN gn(mkgn(g, t));
    G want = modvalid(g, t);
    c.log("validate %s", gstr(g).c_str());
    gridnodes_validate(gn);
    expectg(c, gn, want, strf("validation of %s nodes %s", TN[t == NT_DD ? 1 : t == NT_CEN ? 2 : t == NT_COR ? 3 : 0], vstr(g).c_str()).c_str());
    gridnodes_validate(gn);
    expectg(c, gn, want, "second validation");
    /* derived facts, independent of the model: no valid cell is lost, no lone node is left */
    int s = t == NT_DD ? 2 : 1;
    G got = getg(gn);
    for (int j = 0; j < g.ny; j += s)
        for (int i = 0; i < g.nx; i += s) {
            bool used = false;
            for (int b = -s; b <= 0; b += s)
                for (int a = -s; a <= 0; a += s)
                    if (g.ok(i + a, j + b) && g.ok(i + a + s, j + b) && g.ok(i + a, j + b + s) && g.ok(i + a + s, j + b + s))
                        used = true;
            MC_CHECK(c, got.ok(i, j) == used, "corner node (%d,%d) of %s is %s", i, j, vstr(g).c_str(), used ? "lost though it belongs to a valid cell" : "kept though it belongs to no valid cell");
        }
}
static void shapefamilies(std::vector<Family>& F, bool thorough, NODETYPE t)
{
    static std::vector<Named> B[2];
    if (B[thorough].empty())
        B[thorough] = bigshapes(thorough);
    const std::vector<Named>* b = &B[thorough];
    /* larger grids: every shape with every single and every pair of neighbouring nodes removed */
    for (size_t s = 0; s < b->size(); ++s) {
        int W = (*b)[s].W, H = (*b)[s].H;
        if (W * H > 420)
            continue;
        int nn = t == NT_DD ? (2 * W + 1) * (2 * H + 1) : (W + 1) * (H + 1);
        add(F, "one or two nodes removed from " + (*b)[s].name, (uint64_t) nn * 4, [=](Ctx& c, uint64_t idx) {
            const Named& nm = (*b)[s];
            G co = geogrid(W + 1, H + 1, (int) (idx % GEO_ALL));
            applyshape(co, nm.s);
            G g = t == NT_DD ? co2dd(co) : co;
            int k = (int) (idx / 4), o = (int) (idx % 4), i = k % g.nx, j = k / g.nx;
            g.kill(i, j);
            if (o == 1 && i + 1 < g.nx)
                g.kill(i + 1, j);
            else if (o == 2 && j + 1 < g.ny)
                g.kill(i, j + 1);
            else if (o == 3 && i + 1 < g.nx && j + 1 < g.ny)
                g.kill(i + 1, j + 1);
            c.state(mix(idx, s));
            validcheck(c, g, t);
        });
    }
}
/* all small sets of missing nodes of grids too large for all patterns; also what is left if all but a block is missing */
static void fewfamilies(std::vector<Family>& F, bool thorough, NODETYPE t)
{
    static const int CO[][3] = { {8, 8, 3}, {20, 4, 2}, {4, 20, 2}, {7, 6, 4} }, DD[][3] = { {9, 9, 2}, {15, 5, 2}, {5, 15, 2}, {7, 7, 3}, {9, 9, 3}, {7, 7, 4} };
    int nd = t == NT_COR ? (thorough ? 4 : 3) : thorough ? 6 : 4;
    for (int q = 0; q < nd; ++q) {
        const int* D = t == NT_COR ? CO[q] : DD[q];
        int nx = D[0], ny = D[1], k = D[2];
        add(F, strf("all sets of up to %d missing nodes of %dx%d", k, nx, ny), nfew(nx * ny, k), [=](Ctx& c, uint64_t idx) {
            G g = geogrid(nx, ny, GEO_AFFINE);
            for (int e : few(nx * ny, k, idx))
                g.kill(e % nx, e / nx);
            c.state(mix(idx, q + 700));
            validcheck(c, g, t);
        });
    }
    /* all shapes made of two rectangles of cells, connected or not */
    int W = 5, H = thorough ? 5 : 4, s = t == NT_DD ? 2 : 1;
    std::vector<std::array<int, 4>> r;
    for (int j1 = 0; j1 < H; ++j1)
        for (int j2 = j1; j2 < H; ++j2)
            for (int i1 = 0; i1 < W; ++i1)
                for (int i2 = i1; i2 < W; ++i2)
                    r.push_back({ i1, i2, j1, j2 });
    add(F, strf("all pairs of rectangles of nodes within %dx%d cells, present or missing", W, H), (uint64_t) r.size() * r.size() * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        bool miss = d.take(2);
        const auto& a = r[d.take((int) r.size())];
        const auto& b = r[d.v];
        auto in = [&](const std::array<int, 4>& z, int i, int j) { return i >= z[0] * s && i <= (z[1] + !miss) * s && j >= z[2] * s && j <= (z[3] + !miss) * s; };
        G g = geogrid(s * W + 1, s * H + 1, GEO_UNIT);
        for (int j = 0; j < g.ny; ++j)
            for (int i = 0; i < g.nx; ++i)
                if ((in(a, i, j) || in(b, i, j)) == miss)
                    g.kill(i, j);
        c.state(mix(idx, 800));
        validcheck(c, g, t);
    });
}
static void largevalid(std::vector<Family>& F, NODETYPE t)
{
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * NLARGEPAT, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT);
        c.state(mix(idx, 9000 + mid));
        Size sz = fit(sizes(mid)[z], t);
        validcheck(c, largegrid(sz.nx, sz.ny, pat, GEO_UTM), t);
    }, mid ? 0 : 2);
}
PROPERTY(C03)
{
    static const int dims[][2] = { {1, 1}, {1, 2}, {2, 1}, {1, 5}, {5, 1}, {2, 2}, {3, 2}, {2, 3}, {6, 2}, {2, 6}, {3, 3}, {4, 3}, {3, 4}, {5, 3}, {3, 5}, {4, 4} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1];
        add(F, strf("all patterns of %dx%d corner nodes", nx, ny), ipow(2, nx * ny), [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, nx * 10 + ny));
            validcheck(c, pattern(nx, ny, idx, GEO_CURVI), NT_COR);
        });
    }
    if (thorough) {
        static const int d2[][2] = { {5, 4}, {4, 5}, {6, 3}, {3, 6}, {7, 3}, {3, 7}, {9, 2} };
        for (auto& d : d2) {
            int nx = d[0], ny = d[1];
            add(F, strf("all patterns of %dx%d corner nodes", nx, ny), ipow(2, nx * ny), [=](Ctx& c, uint64_t idx) {
                c.state(mix(idx, nx * 10 + ny));
                validcheck(c, pattern(nx, ny, idx, GEO_CURVI), NT_COR);
            });
        }
        add(F, "all patterns of 5x5 corner nodes", 1 << 25, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 55));
            validcheck(c, pattern(5, 5, idx, GEO_UNIT), NT_COR);
        });
    }
    shapefamilies(F, thorough, NT_COR);
    fewfamilies(F, thorough, NT_COR);
    largevalid(F, NT_COR);
    /* nodes of other types are left alone */
    add(F, "centre nodes and nodes of unknown type are not changed", 512 * 2, [](Ctx& c, uint64_t idx) {
        G g = pattern(3, 3, idx / 2, GEO_UTM);
        GN gn(mkgn(g, idx % 2 ? NT_CEN : NT_NONE));
        gridnodes_validate(gn);
        expectg(c, gn, g, "validation of nodes that are not corners");
    });
    /* order independence: removing a node and validating, in any order */
    add(F, "validate, remove a node, validate again", 9 * 512 + 12 * 4096, [](Ctx& c, uint64_t idx) {
        int nx = 3, ny = idx < 9 * 512 ? 3 : 4, n = nx * ny;
        uint64_t k = idx < 9 * 512 ? idx : idx - 9 * 512;
        G g = pattern(nx, ny, k / n, GEO_AFFINE);
        GN gn(mkgn(g, NT_COR));
        gridnodes_validate(gn);
        int q = (int) (k % n);
        gridnodes_getx(gn)[q / nx][q % nx] = NAN;
        gridnodes_gety(gn)[q / nx][q % nx] = NAN;
        gridnodes_validate(gn);
        G g2 = g;
        g2.kill(q % nx, q / nx);
        c.state(idx);
        expectg(c, gn, validCO(g2), "validate, remove, validate");
    });
}
PROPERTY(C04)
{
    static const int dims[][2] = { {1, 1}, {1, 3}, {3, 1}, {1, 5}, {5, 1}, {1, 7}, {7, 1}, {3, 3}, {5, 3}, {3, 5} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1];
        add(F, strf("all patterns of %dx%d double density nodes", nx, ny), ipow(2, nx * ny), [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, nx * 10 + ny));
            validcheck(c, pattern(nx, ny, idx, GEO_CURVI), NT_DD);
        });
    }
    add(F, "5x5: all corners x all centres", 1 << 13, [](Ctx& c, uint64_t idx) {
        c.state(mix(idx, 1));
        validcheck(c, pattern(5, 5, ddmask(5, 5, idx & 511, idx >> 9, 0), GEO_UNIT), NT_DD);
    });
    add(F, "5x5: all corners x up to two edges", 512 * 144, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int e1 = d.take(12), e2 = d.take(12);
        c.state(mix(idx, 2));
        validcheck(c, pattern(5, 5, ddmask(5, 5, d.v, 0, (1u << e1) | (1u << e2)), GEO_UNIT), NT_DD);
    });
    add(F, "5x5: all edges x up to one corner and one centre", 4096 * 50, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = d.take(10), b = d.take(5);
        c.state(mix(idx, 3));
        validcheck(c, pattern(5, 5, ddmask(5, 5, a < 9 ? 1u << a : 0, b < 4 ? 1u << b : 0, d.v), GEO_UNIT), NT_DD);
    });
    add(F, "7x5: all corners x no or one centre", 4096 * 7, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int b = d.take(7);
        c.state(mix(idx, 4));
        validcheck(c, pattern(7, 5, ddmask(7, 5, d.v, b < 6 ? 1u << b : 0, 0), GEO_UNIT), NT_DD);
    });
    add(F, "5x7: all corners x no or one centre", 4096 * 7, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int b = d.take(7);
        c.state(mix(idx, 5));
        validcheck(c, pattern(5, 7, ddmask(5, 7, d.v, b < 6 ? 1u << b : 0, 0), GEO_UNIT), NT_DD);
    });
    if (thorough) {
        add(F, "7x7: all corners", 1 << 16, [](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 6));
            validcheck(c, pattern(7, 7, ddmask(7, 7, idx, 0, 0), GEO_UNIT), NT_DD);
        });
        add(F, "all patterns of 7x3 double density nodes", 1 << 21, [](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 7));
            validcheck(c, pattern(7, 3, idx, GEO_UNIT), NT_DD);
        });
        add(F, "all patterns of 3x7 double density nodes", 1 << 21, [](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 8));
            validcheck(c, pattern(3, 7, idx, GEO_UNIT), NT_DD);
        });
        add(F, "all patterns of 5x5 double density nodes", 1 << 25, [](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 9));
            validcheck(c, pattern(5, 5, idx, GEO_UNIT), NT_DD);
        });
    }
    shapefamilies(F, thorough, NT_DD);
    fewfamilies(F, thorough, NT_DD);
    largevalid(F, NT_DD);
    add(F, "even sizes are rejected", 64, [](Ctx& c, uint64_t idx) {
        int nx = 1 + idx % 8, ny = 1 + idx / 8;
        if (nx % 2 == 1 && ny % 2 == 1)
            return;
        GN gn(mkgn(geogrid(nx, ny, GEO_UNIT), NT_DD));
        c.step();
        MC_CHECK(c, quits([&] { gridnodes_validate(gn); }), "double density nodes of %d x %d accepted", nx, ny);
    });
}

/* ------------------------------------------------------------ C05 masking */
struct Mask {
    int** p;
    std::vector<int> v;
    Mask(int nx, int ny, uint64_t zeros) : p((int**) gu_alloc2d(ny, nx, sizeof(int))), v((size_t) nx * ny)
    {
        for (int k = 0; k < nx * ny; ++k)
            v[k] = p[k / nx][k % nx] = !((zeros >> k) & 1);
    }
    ~Mask() { gu_free2d(p); }
    Mask(const Mask&) = delete;
    bool unchanged(int nx)
    {
        for (size_t k = 0; k < v.size(); ++k)
            if (p[k / nx][k % nx] != v[k])
                return false;
        return true;
    }
};
static void maskcheck(Ctx& c, const G& g, NODETYPE t, uint64_t zeros, uint64_t zeros2, bool twice)
{
    GN gn(mkgn(g, t));
    int w = gridnodes_getnce1(gn), h = gridnodes_getnce2(gn);
    Mask m(w, h, zeros);
    c.log("mask (zeros %llx) applied to %s", (unsigned long long) zeros, gstr(g).c_str());
    gridnodes_applymask(gn, m.p);
    G want = modmask(g, t, m.v);
    expectg(c, gn, want, strf("%s nodes %s masked with zeros %llx", t == NT_DD ? "DD" : "CE", vstr(g).c_str(), (unsigned long long) zeros).c_str());
    MC_CHECK(c, m.unchanged(w), "the mask was changed");
    if (twice) {
        Mask m2(w, h, zeros2);
        gridnodes_applymask(gn, m2.p);
        expectg(c, gn, modmask(want, t, m2.v), "second mask");
    }
    /* a masked cell is gone for good: in every derived type of nodes */
    if (t == NT_DD) {
        GN ce(gridnodes_transform(gn, NT_CEN));
        for (size_t k = 0; k < m.v.size(); ++k)
            if (m.v[k] == 0)
                MC_CHECK(c, std::isnan(gridnodes_getx(ce)[k / w][k % w]), "masked cell %d is valid", (int) k);
    }
}
PROPERTY(C05)
{
    add(F, "DD 3x3: all patterns x all masks x all second masks", 512 * 4, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(2), m2 = d.take(2);
        c.state(idx);
        maskcheck(c, pattern(3, 3, d.v, GEO_UTM), NT_DD, m, m2, true);
    });
    for (int o = 0; o < 2; ++o)
        add(F, o ? "DD 3x5: all patterns x all masks" : "DD 5x3: all patterns x all masks", 32768 * 4, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int m = d.take(4);
            c.state(mix(idx, 10 + o));
            maskcheck(c, pattern(o ? 3 : 5, o ? 5 : 3, d.v, GEO_UNIT), NT_DD, m, 0, false);
        });
    add(F, "DD 5x5: all corners x all centres x all masks", (1 << 13) * 16, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(16);
        c.state(mix(idx, 12));
        maskcheck(c, pattern(5, 5, ddmask(5, 5, d.v & 511, d.v >> 9, 0), GEO_UNIT), NT_DD, m, 0, false);
    });
    add(F, "DD 7x7: all pairs of masks of 3x3 cells", 512 * 512, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(512);
        c.state(mix(idx, 13));
        maskcheck(c, geogrid(7, 7, GEO_UNIT), NT_DD, m, d.v, true);
    });
    add(F, "DD 9x5: all masks of 4x2 cells x one invalid node or none", 256 * 46, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(256);
        c.state(mix(idx, 14));
        maskcheck(c, pattern(9, 5, d.v < 45 ? 1ULL << d.v : 0, GEO_AFFINE), NT_DD, m, 0, false);
    });
    add(F, "DD 5x9: all masks of 2x4 cells x one invalid node or none", 256 * 46, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int m = d.take(256);
        c.state(mix(idx, 15));
        maskcheck(c, pattern(5, 9, d.v < 45 ? 1ULL << d.v : 0, GEO_AFFINE), NT_DD, m, 0, false);
    });
    if (thorough) {
        add(F, "DD 7x5: all corners x all masks", 4096 * 64, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int m = d.take(64);
            c.state(mix(idx, 16));
            maskcheck(c, pattern(7, 5, ddmask(7, 5, d.v, 0, 0), GEO_UNIT), NT_DD, m, 0, false);
        });
        add(F, "DD 7x7: all corners x one masked cell or none", 65536 * 10, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            int m = d.take(10);
            c.state(mix(idx, 17));
            maskcheck(c, pattern(7, 7, ddmask(7, 7, d.v, 0, 0), GEO_UNIT), NT_DD, m < 9 ? 1u << m : 0, 0, false);
        });
        add(F, "DD 9x9: all masks of 4x4 cells", 65536, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 18));
            maskcheck(c, geogrid(9, 9, GEO_UNIT), NT_DD, idx, 0, false);
        });
    }
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 3}, {3, 3} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], n = nx * ny;
        add(F, strf("CE %dx%d: all patterns x all masks", nx, ny), ipow(4, n), [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 100 + n));
            maskcheck(c, pattern(nx, ny, idx >> n, GEO_CURVI), NT_CEN, idx & ((1u << n) - 1), idx % 7, true);
        });
    }
    for (int q = 0; q < 8; ++q) {
        static const int D[4][3] = { {6, 6, 3}, {12, 3, 2}, {3, 12, 2}, {8, 7, 2} };
        int W = D[q % 4][0], H = D[q % 4][1], k = D[q % 4][2] - (q >= 4 && D[q % 4][2] == 3 && !thorough);
        bool dd = q >= 4;
        add(F, strf("%s, %dx%d cells: all masks with up to %d zeros, or up to %d ones", dd ? "DD" : "CE", W, H, k, k), nfew(W * H, k) * 2, [=](Ctx& c, uint64_t idx) {
            uint64_t m = 0;
            for (int e : few(W * H, k, idx / 2))
                m |= 1ULL << e;
            if (idx % 2)
                m = ~m & (W * H == 64 ? ~0ULL : (1ULL << (W * H)) - 1);
            c.state(mix(idx, 300 + q));
            maskcheck(c, dd ? geogrid(2 * W + 1, 2 * H + 1, GEO_UNIT) : geogrid(W, H, GEO_UTM), dd ? NT_DD : NT_CEN, m, 0, false);
        });
    }
    for (int mid = 0; mid < 2; ++mid)
    add(F, strf("%s: masks by a rule", SIZENAME[mid]), sizes(mid).size() * NLARGEPAT * NLARGEPAT * 2 / (mid ? 4 : 1), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int mp = mid ? d.take(2) * 4 + (int) (idx / 64 % 4) : 0;
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT);
        if (!mid)
            mp = d.take(NLARGEPAT);
        NODETYPE t = d.take(2) ? NT_DD : NT_CEN;
        Size sz = fit(sizes(mid)[z], t);
        if (t == NT_DD && (sz.nx < 3 || sz.ny < 3))
            return;
        G g = largegrid(sz.nx, sz.ny, pat, GEO_UTM);
        GN gn(mkgn(g, t));
        int w = gridnodes_getnce1(gn), h = gridnodes_getnce2(gn);
        Mask m(w, h, 0);
        for (int k = 0; k < w * h; ++k)
            m.v[k] = m.p[k / w][k % w] = !largebad(mp, w, h, k % w, k / w);
        c.log("%dx%d nodes, pattern %d, mask %d", g.nx, g.ny, pat, mp);
        gridnodes_applymask(gn, m.p);
        c.state(mix(idx, 9000));
        expectg(c, gn, modmask(g, t, m.v), strf("%s nodes %dx%d, pattern %d, mask %d", t == NT_DD ? "DD" : "CE", g.nx, g.ny, pat, mp).c_str());
        MC_CHECK(c, m.unchanged(w), "the mask was changed");
    }, mid ? 0 : 4);
    add(F, "corner nodes and nodes of unknown type cannot be masked", 2, [](Ctx& c, uint64_t idx) {
        GN gn(mkgn(geogrid(3, 3, GEO_UNIT), idx ? NT_COR : NT_NONE));
        Mask m(3, 3, 0);
        c.step();
        MC_CHECK(c, quits([&] { gridnodes_applymask(gn, m.p); }), "mask accepted");
    });
}

/* -------------------------------------------------------- C06 conversions */
static void convcheck(Ctx& c, const G& g, NODETYPE t, int maptype)
{
    GN gn(mkgn(g, t));
    G v = modvalid(g, t);
    if (maptype == GRIDMAP_TYPE_BINARY && !bmapok(t == NT_DD ? dd2co(v) : v))
        maptype = GRIDMAP_TYPE_KDTREE;
    gridnodes_setmaptype(gn, maptype);
    std::string what = strf("%s nodes %s, map type %d", t == NT_DD ? "DD" : "CO", vstr(g).c_str(), maptype);
    c.log("%s: %s", what.c_str(), gstr(g).c_str());
    if (t == NT_DD) {
        GN co(gridnodes_transform(gn, NT_COR));
        expectg(c, gn, v, "the source of a conversion is validated");
        expectg(c, co, dd2co(v), (what + " to CO").c_str());
        GN ce(gridnodes_transform(gn, NT_CEN));
        expectg(c, ce, dd2ce(v), (what + " to CE").c_str());
        GN dd(gridnodes_transform(gn, NT_DD));
        expectg(c, dd, v, (what + " to DD").c_str());
        GN no(gridnodes_transform(gn, NT_NONE));
        expectg(c, no, v, (what + " to the same type").c_str());
        MC_CHECK(c, gridnodes_getmaptype(co) == maptype && gridnodes_getmaptype(ce) == maptype && gridnodes_getmaptype(dd) == maptype, "the map type is not inherited");
        MC_CHECK(c, gridnodes_getnce1(co) == (g.nx - 1) / 2 && gridnodes_getnce2(co) == (g.ny - 1) / 2 && gridnodes_getnce1(ce) == (g.nx - 1) / 2 && gridnodes_getnce2(ce) == (g.ny - 1) / 2 && gridnodes_getnce1(dd) == (g.nx - 1) / 2, "number of cells");
        GN back(gridnodes_transform(co, NT_DD));
        expectnear(c, back, co2dd(dd2co(v)), (what + " to CO and back").c_str());
        expectg(c, gn, v, "the source of a conversion");
    } else {
        GN ce(gridnodes_transform(gn, NT_CEN));
        expectg(c, gn, v, "the source of a conversion is validated");
        expectnear(c, ce, co2ce(v), (what + " to CE").c_str());
        GN dd(gridnodes_transform(gn, NT_DD));
        expectnear(c, dd, co2dd(v), (what + " to DD").c_str());
        GN co(gridnodes_transform(gn, NT_COR));
        expectg(c, co, v, (what + " to CO").c_str());
        /* via double density */
        GN co2(gridnodes_transform(dd, NT_COR));
        expectg(c, co2, v, (what + " to DD and back").c_str());
        GN ce2(gridnodes_transform(dd, NT_CEN));
        expectnear(c, ce2, getg(ce), (what + " to DD to CE").c_str());
        MC_CHECK(c, gridnodes_getmaptype(dd) == maptype && gridnodes_getmaptype(ce) == maptype && gridnodes_getmaptype(co2) == maptype, "the map type is not inherited");
        MC_CHECK(c, gridnodes_getnce1(dd) == g.nx - 1 && gridnodes_getnce2(dd) == g.ny - 1 && gridnodes_getnce1(ce) == g.nx - 1 && gridnodes_getnce2(ce) == g.ny - 1, "number of cells");
        expectg(c, gn, v, "the source of a conversion");
    }
}
static void largeconv(std::vector<Family>& F)
{
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * NLARGEPAT * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT), t = d.take(2);
        Size sz = fit(sizes(mid)[z], t ? NT_DD : NT_COR);
        if (sz.nx < (mid ? 2 : 3) || sz.ny < (mid ? 2 : 3))
            return;
        c.state(mix(idx, 9000 + mid));
        convcheck(c, largegrid(sz.nx, sz.ny, pat, GEO_UTM), t ? NT_DD : NT_COR, pat == 0 ? 0 : 1);
    }, mid ? 0 : 1);
}
PROPERTY(C06)
{
    static const int dims[][2] = { {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3}, {3, 4}, {5, 2}, {2, 5} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], n = nx * ny;
        int ng = n <= 9 ? GEO_ALL : 2;
        add(F, strf("CO %dx%d: all patterns, both map types, %d geometries", nx, ny, ng), ipow(2, n) * 2 * ng, [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int mt = dd.take(2), geo = ng == 2 ? (dd.take(2) ? GEO_CURVI : GEO_UTM) : dd.take(GEO_ALL);
            c.state(mix(idx, n * 10 + nx));
            convcheck(c, pattern(nx, ny, dd.v, geo), NT_COR, mt);
        });
    }
    add(F, "CO 4x4: all patterns", 65536, [=](Ctx& c, uint64_t idx) {
        c.state(mix(idx, 44));
        convcheck(c, pattern(4, 4, idx, GEO_CURVI), NT_COR, 1);
    });
    if (thorough) {
        add(F, "CO 4x4: all patterns, binary map", 65536, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 45));
            convcheck(c, pattern(4, 4, idx, GEO_UTM), NT_COR, 0);
        });
        add(F, "CO 5x4: all patterns", 1 << 20, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 46));
            convcheck(c, pattern(5, 4, idx, GEO_UNIT), NT_COR, 1);
        });
    }
    static const int dd[][2] = { {3, 3}, {5, 3}, {3, 5} };
    for (auto& d : dd) {
        int nx = d[0], ny = d[1];
        add(F, strf("DD %dx%d: all patterns", nx, ny), ipow(2, nx * ny), [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 50 + nx));
            convcheck(c, pattern(nx, ny, idx, GEO_CURVI), NT_DD, idx % 2);
        });
    }
    add(F, "DD 5x5: all corners x all centres, both map types", 1 << 14, [](Ctx& c, uint64_t idx) {
        c.state(mix(idx, 60));
        convcheck(c, pattern(5, 5, ddmask(5, 5, idx / 2 & 511, idx / 2 >> 9, 0), GEO_UTM), NT_DD, idx % 2);
    });
    add(F, "DD 5x5: all corners x up to two edges", 512 * 144, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int e1 = d.take(12), e2 = d.take(12);
        c.state(mix(idx, 61));
        convcheck(c, pattern(5, 5, ddmask(5, 5, d.v, 0, (1u << e1) | (1u << e2)), GEO_UNIT), NT_DD, 1);
    });
    for (int q = 0; q < 6; ++q) {
        static const int D[6][3] = { {7, 7, 3}, {14, 3, 2}, {3, 14, 2}, {9, 9, 2}, {15, 5, 2}, {5, 15, 2} };
        int nx = D[q][0], ny = D[q][1], k = D[q][2];
        add(F, strf("%s %dx%d: all sets of up to %d missing nodes", q < 3 ? "CO" : "DD", nx, ny, k), nfew(nx * ny, k), [=](Ctx& c, uint64_t idx) {
            G g = geogrid(nx, ny, idx % 2 ? GEO_CURVI : GEO_UTM);
            for (int e : few(nx * ny, k, idx))
                g.kill(e % nx, e / nx);
            c.state(mix(idx, 400 + q));
            convcheck(c, g, q < 3 ? NT_COR : NT_DD, 1);
        });
    }
    largeconv(F);
    static std::vector<Named> B = bigshapes(false);
    add(F, "large shapes, all geometries, both map types", B.size() * GEO_ALL * 4, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int s = d.take(B.size()), geo = d.take(GEO_ALL), mt = d.take(2), t = d.take(2);
        G g = geogrid(B[s].W + 1, B[s].H + 1, geo);
        applyshape(g, B[s].s);
        c.state(mix(idx, 62));
        if (t)
            convcheck(c, co2dd(g), NT_DD, mt);
        else
            convcheck(c, g, NT_COR, mt);
    });
}

/* ------------------------------------------ C07 recovery from centre nodes */
static void cecheck(Ctx& c, const G& ce, int maptype, const char* what)
{
    GN gn(mkgn(ce, NT_CEN));
    gridnodes_setmaptype(gn, maptype);
    c.log("%s: %s", what, gstr(ce).c_str());
    GN co(gridnodes_transform(gn, NT_COR));
    checkce(c, ce, 1, getg(co), strf("%s: CE %s to CO", what, vstr(ce).c_str()).c_str());
    GN dd(gridnodes_transform(gn, NT_DD));
    checkce(c, ce, 2, getg(dd), strf("%s: CE %s to DD", what, vstr(ce).c_str()).c_str());
    expectg(c, gn, ce, "the source of a conversion");
    MC_CHECK(c, gridnodes_getmaptype(co) == maptype && gridnodes_getmaptype(dd) == maptype, "the map type is not inherited");
    MC_CHECK(c, gridnodes_getnce1(co) == ce.nx && gridnodes_getnce2(co) == ce.ny && gridnodes_getnce1(dd) == ce.nx && gridnodes_getnce2(dd) == ce.ny, "number of cells");
    GN same_(gridnodes_transform(gn, NT_CEN));
    expectg(c, same_, ce, "CE to CE");
}
PROPERTY(C07)
{
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 2}, {1, 4}, {4, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {5, 2}, {2, 5}, {4, 3}, {3, 4}, {5, 3}, {3, 5} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], n = nx * ny, ng = n <= 10 ? GEO_ALL : n <= 12 ? 2 : 1;
        add(F, strf("CE %dx%d: all patterns, %d geometries", nx, ny, ng), ipow(2, n) * ng, [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int geo = ng == 1 ? GEO_CURVI : ng == 2 ? (dd.take(2) ? GEO_UTM : GEO_CURVI) : dd.take(GEO_ALL);
            c.state(mix(idx, nx * 10 + ny));
            cecheck(c, pattern(nx, ny, dd.v, geo), idx % 2, "pattern");
        });
    }
    if (thorough) {
        add(F, "CE 4x4: all patterns", 65536, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 44));
            cecheck(c, pattern(4, 4, idx, GEO_CURVI), idx % 2, "pattern");
        });
        add(F, "CE 5x4: all patterns", 1 << 20, [=](Ctx& c, uint64_t idx) {
            c.state(mix(idx, 45));
            cecheck(c, pattern(5, 4, idx, GEO_CURVI), idx % 2, "pattern");
        });
    }
    for (int q = 0; q < 5; ++q) {
        static const int D[5][3] = { {6, 6, 3}, {10, 4, 2}, {4, 10, 2}, {15, 2, 2}, {2, 15, 2} };
        int nx = D[q][0], ny = D[q][1], k = D[q][2];
        add(F, strf("CE %dx%d: all sets of up to %d missing, or of up to %d missing blocks of 2x2", nx, ny, k, k), nfew(nx * ny, k) * 2, [=](Ctx& c, uint64_t idx) {
            G g = geogrid(nx, ny, (int) (idx / 2 % GEO_ALL));
            for (int e : few(nx * ny, k, idx / 2))
                for (int b = 0; b <= (int) (idx % 2); ++b)
                    for (int a = 0; a <= (int) (idx % 2); ++a)
                        if (e % nx + a < nx && e / nx + b < ny)
                            g.kill(e % nx + a, e / nx + b);
            c.state(mix(idx, 500 + q));
            cecheck(c, g, idx / 2 % 2, "few missing");
        });
    }
    /* larger grids, with pieces removed */
    add(F, "CE up to 10x10: full, and with one or two centres removed", 100 * 100, [](Ctx& c, uint64_t idx) {
        int nx = 4 + idx % 7, ny = 4 + idx / 100 % 7;
        G g = geogrid(nx, ny, (int) (idx % GEO_ALL));
        int a = (int) (idx % 101), b = (int) (idx / 101);
        if (a < nx * ny)
            g.kill(a % nx, a / nx);
        if (b < nx * ny)
            g.kill(b % nx, b / nx);
        c.state(mix(idx, 70));
        cecheck(c, g, 0, "larger grid");
    });
    /* the same for large grids of centres, corner and double density nodes */
    for (int mid = 0; mid < 2; ++mid)
    add(F, mid ? "exact recovery of middle-sized affine grids" : "exact recovery of large affine grids", sizes(mid).size() * 2 * 3, [=](Ctx& c, uint64_t idx) {
        static const int geos[3] = { GEO_UNIT, GEO_AFFINE, GEO_LEFT };
        Dec d(idx);
        int z = d.take(sizes(mid).size()), s = 1 + d.take(2), geo = geos[d.take(3)], W = sizes(mid)[z].nx, H = sizes(mid)[z].ny;
        if (W < 2 || H < 2)
            return;
        G full = geogrid(s * W + 1, s * H + 1, geo), ce(W, H);
        for (double& v : full.x)
            v = 0;
        for (int j = 0; j < full.ny; ++j)
            for (int i = 0; i < full.nx; ++i) {
                double x, y;
                geopos(geo, (double) i / s, (double) j / s, &x, &y);
                full.set(i, j, x, y);
            }
        for (int j = 0; j < H; ++j)
            for (int i = 0; i < W; ++i) {
                double x, y;
                geopos(geo, i + 0.5, j + 0.5, &x, &y);
                ce.set(i, j, x, y);
            }
        GN gn(mkgn(ce, NT_CEN));
        GN out(gridnodes_transform(gn, s == 1 ? NT_COR : NT_DD));
        G r = getg(out);
        c.step(2);
        c.state(mix(idx, 9000 + mid));
        MC_CHECK(c, r.nx == full.nx && r.ny == full.ny, "size %dx%d, expected %dx%d", r.nx, r.ny, full.nx, full.ny);
        for (size_t k = 0; k < r.x.size(); ++k)
            MC_CHECK(c, fabs(r.x[k] - full.x[k]) < 1e-9 && fabs(r.y[k] - full.y[k]) < 1e-9, "%dx%d centres: node %zu of %s recovered at (%.15g,%.15g), expected (%.15g,%.15g)", W, H, k, s == 1 ? "CO" : "DD", r.x[k], r.y[k], full.x[k], full.y[k]);
    }, mid ? 0 : 1);
    /* the centres of a grid with straight, evenly spaced cells give the grid back */
    static std::vector<Named> B = bigshapes(false);
    add(F, "exact recovery of affine grids", B.size() * 3, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int s = d.take(B.size());
        static const int geos[3] = { GEO_UNIT, GEO_AFFINE, GEO_LEFT };
        G g = geogrid(B[s].W + 1, B[s].H + 1, geos[d.take(3)]);
        G full = g;
        applyshape(g, B[s].s);
        GN co(mkgn(g, NT_COR));
        gridnodes_setmaptype(co, 1);
        GN ce(gridnodes_transform(co, NT_CEN));
        GN co2(gridnodes_transform(ce, NT_COR));
        G r = getg(co2);
        c.state(mix(idx, 71));
        c.step(2);
        for (size_t k = 0; k < r.x.size(); ++k) {
            if (!std::isnan(r.x[k]))
                MC_CHECK(c, fabs(r.x[k] - full.x[k]) < 1e-11 && fabs(r.y[k] - full.y[k]) < 1e-11, "%s: node %d recovered at (%.15g,%.15g), expected (%.15g,%.15g)", B[s].name.c_str(), (int) k, r.x[k], r.y[k], full.x[k], full.y[k]);
        }
        /* cells whose centre belongs to a 2x2 block of valid cells must be recovered */
        G cg = getg(ce);
        for (int j = 0; j < cg.ny; ++j)
            for (int i = 0; i < cg.nx; ++i)
                if (cg.cell(i, j) || cg.cell(i - 1, j) || cg.cell(i, j - 1) || cg.cell(i - 1, j - 1))
                    MC_CHECK(c, r.cell(i, j), "%s: cell (%d,%d) not recovered", B[s].name.c_str(), i, j);
    });
}

/* ------------------------------------------------- C08 copy and subgrids */
static G submodel(const G& g, int imin, int imax, int jmin, int jmax)
{
    imin = std::max(imin, 0);
    jmin = std::max(jmin, 0);
    imax = std::min(imax, g.nx - 1);
    jmax = std::min(jmax, g.ny - 1);
    if (imin > imax || jmin > jmax)
        return G();
    G r(imax - imin + 1, jmax - jmin + 1);
    for (int j = 0; j < r.ny; ++j)
        for (int i = 0; i < r.nx; ++i)
            r.set(i, j, g.X(imin + i, jmin + j), g.Y(imin + i, jmin + j));
    return r;
}
static void subcheck(Ctx& c, const G& g, NODETYPE t, int i0, int i1, int j0, int j1, int maptype)
{
    GN gn(mkgn(g, t));
    gridnodes_setmaptype(gn, maptype);
    gridnodes* p = nullptr;
    std::string what = strf("subgrid [%d:%d][%d:%d] of %dx%d nodes", i0, i1, j0, j1, g.nx, g.ny);
    c.log("%s", what.c_str());
    bool q = quits([&] { p = gridnodes_subgrid(gn, i0, i1, j0, j1); });
    G want = submodel(g, i0, i1, j0, j1);
    c.step();
    if (want.nx == 0) {
        MC_CHECK(c, q, "%s, which is empty, was accepted", what.c_str());
        expectg(c, gn, g, "the source of a failed extraction");
        return;
    }
    MC_CHECK(c, !q, "%s was rejected: %s", what.c_str(), quit_msg.c_str());
    GN sub(p);
    expectg(c, sub, want, what.c_str());
    expectg(c, gn, g, "the source of an extraction");
    MC_CHECK(c, gridnodes_getmaptype(sub) == maptype, "%s: the map type is not inherited", what.c_str());
    if (t != NT_NONE) {
        int e1 = t == NT_DD ? (want.nx - 1) / 2 : t == NT_COR ? want.nx - 1 : want.nx;
        MC_CHECK(c, gridnodes_getnce1(sub) == e1, "%s: the type is not inherited", what.c_str());
    } else
        MC_CHECK(c, quits([&] { gridnodes_getnce1(sub); }), "%s: the type is not inherited", what.c_str());
    /* the two are independent of each other */
    for (int j = 0; j < want.ny; ++j)
        for (int i = 0; i < want.nx; ++i) {
            gridnodes_getx(sub)[j][i] += 1000;
            gridnodes_gety(sub)[j][i] = -7;
        }
    expectg(c, gn, g, "the source after changing the subgrid");
}
PROPERTY(C08)
{
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 3}, {3, 2}, {3, 3}, {5, 3}, {4, 5} };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], a = nx + 4, b = ny + 4;
        add(F, strf("all index ranges of %dx%d nodes", nx, ny), (uint64_t) a * a * b * b, [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int i0 = dd.take(a) - 2, i1 = dd.take(a) - 2, j0 = dd.take(b) - 2, j1 = dd.take(b) - 2;
            G g = pattern(nx, ny, 0x924924924ULL >> (idx % 3), GEO_CURVI);
            c.state(mix(idx, nx * 10 + ny));
            subcheck(c, g, TYPES[idx % 4], i0, i1, j0, j1, idx / 4 % 2);
        });
    }
    /* extreme indices; all types */
    static const int EX[] = { INT_MIN, -1, 0, 1, 2, 3, INT_MAX };
    add(F, "extreme indices", 7 * 7 * 7 * 7 * 4, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int t = d.take(4), i0 = EX[d.take(7)], i1 = EX[d.take(7)], j0 = EX[d.take(7)], j1 = EX[d.take(7)];
        c.state(mix(idx, 1));
        subcheck(c, geogrid(3, 3, GEO_UTM), TYPES[t], i0, i1, j0, j1, 1);
    });
    /* all patterns */
    add(F, "all patterns of 3x3 nodes x all proper ranges", 512 * 36, [](Ctx& c, uint64_t idx) {
        static const int R[6][2] = { {0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2} };
        Dec d(idx);
        int a = d.take(6), b = d.take(6);
        c.state(mix(idx, 2));
        subcheck(c, pattern(3, 3, d.v, GEO_POLAR), TYPES[idx % 4], R[a][0], R[a][1], R[b][0], R[b][1], 0);
    });
    static std::vector<uint64_t> mp;
    mp.clear();
    for (int a = 0; a < 25; ++a) {
        mp.push_back(1ULL << a);
        for (int b = 0; b < a; ++b)
            mp.push_back(1ULL << a | 1ULL << b);
    }
    for (int m = 0; m < 32; ++m)
        for (int r = 0; r < 5; ++r) {
            uint64_t row = 0, col = 0;
            for (int k = 0; k < 5; ++k)
                if (m >> k & 1) {
                    row |= 1ULL << (r * 5 + k);
                    col |= 1ULL << (k * 5 + r);
                }
            for (uint64_t z : {row, col, 0x1ffffff & ~row, 0x1ffffff & ~col})
                mp.push_back(z);
        }
    std::sort(mp.begin(), mp.end());
    mp.erase(std::unique(mp.begin(), mp.end()), mp.end());
    add(F, "all ranges of 5x5 nodes, all one or two missing nodes, all patterns in a row or column", 225 * mp.size(), [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int a = d.take(15), b = d.take(15), k = 0, ri[2], rj[2];
        for (int i0 = 0; i0 < 5; ++i0)
            for (int i1 = i0; i1 < 5; ++i1, ++k) {
                if (k == a)
                    ri[0] = i0, ri[1] = i1;
                if (k == b)
                    rj[0] = i0, rj[1] = i1;
            }
        c.state(mix(idx, 4));
        subcheck(c, pattern(5, 5, mp[d.v], GEO_CURVI), TYPES[idx % 4], ri[0], ri[1], rj[0], rj[1], idx / 4 % 2);
    });
    /* subgrid of a subgrid */
    add(F, "subgrid of a subgrid", 6 * 6 * 6 * 6 * 16, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        G g = geogrid(6, 6, GEO_CURVI);
        int i0 = d.take(6), i1 = i0 + d.take(6), j0 = d.take(6), j1 = j0 + d.take(6), k = d.take(16);
        GN gn(mkgn(g, NT_COR));
        GN s1(gridnodes_subgrid(gn, i0, i1, j0, j1));
        G w1 = submodel(g, i0, i1, j0, j1);
        int a0 = std::min(k & 1, w1.nx - 1), a1 = w1.nx - 1 - (k >> 1 & 1), b0 = std::min(k >> 2 & 1, w1.ny - 1), b1 = w1.ny - 1 - (k >> 3 & 1);
        G w2 = submodel(w1, a0, a1, b0, b1);
        c.state(mix(idx, 3));
        if (w2.nx == 0)
            return;
        GN s2(gridnodes_subgrid(s1, a0, a1, b0, b1));
        expectg(c, s2, w2, "subgrid of a subgrid");
        /* is the same as a subgrid of the original */
        GN s3(gridnodes_subgrid(gn, i0 + a0, i0 + a1, j0 + b0, j0 + b1));
        expectg(c, s3, w2, "direct subgrid");
    });
    for (int mid = 0; mid < 2; ++mid)
    add(F, SIZENAME[mid], sizes(mid).size() * 3 * 3 * NLARGEPAT, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), ri = d.take(3), rj = d.take(3), pat = d.take(NLARGEPAT), nx = sizes(mid)[z].nx, ny = sizes(mid)[z].ny;
        if (pat > 1 && pat < 5)
            return;
        G g = largegrid(nx, ny, pat, GEO_UTM);
        int i0 = ri == 0 ? 0 : ri == 1 ? nx / 3 : nx - 2, i1 = ri == 2 ? nx + 7 : nx - 1 - ri, j0 = rj == 0 ? -4 : rj == 1 ? ny / 2 : ny - 3, j1 = rj == 1 ? ny - 1 : ny;
        c.state(mix(idx, 9000));
        subcheck(c, g, TYPES[(z + pat + ri) % 4], i0, i1, j0, j1, ri == 1);
        if (ri + rj == 0) {
            gridnodes* src = mkgn(g, NT_COR);
            GN cp(gridnodes_copy(src));
            gridnodes_destroy(src);
            expectg(c, cp, g, "copy of a large grid");
        }
    }, mid ? 0 : 4);
    static const int cd[][2] = { {1, 1}, {2, 2}, {3, 2}, {3, 3}, {1, 7}, {7, 1} };
    for (auto& d : cd) {
        int nx = d[0], ny = d[1];
        add(F, strf("copies of all patterns of %dx%d nodes", nx, ny), ipow(2, nx * ny) * 8, [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int t = dd.take(4), mt = dd.take(2);
            G g = pattern(nx, ny, dd.v, GEO_SMALL);
            gridnodes* src = mkgn(g, TYPES[t]);
            gridnodes_setmaptype(src, mt);
            GN cp(gridnodes_copy(src));
            c.state(mix(idx, 4 + nx));
            expectg(c, cp, g, "copy");
            MC_CHECK(c, gridnodes_getmaptype(cp) == mt, "copy: map type");
            for (int k = 0; k < nx * ny; ++k)
                gridnodes_getx(src)[k / nx][k % nx] = gridnodes_gety(src)[k / nx][k % nx] = 1e6;
            gridnodes_destroy(src);
            expectg(c, cp, g, "copy after its source was changed and destroyed");
            if (TYPES[t] == NT_COR) {
                gridnodes_validate(cp);
                expectg(c, cp, validCO(g), "validated copy");
            }
        });
    }
}

/* ------------------------------------------- C26 mask files and 2-D arrays */
PROPERTY(C26)
{
    static const struct {
        const char* s;
        int v;
    } MF[] = { {"1", 1}, {"0", 0}, {"2", -1}, {"", -1}, {" 1", -1}, {"1 ", -1}, {"01", -1}, {"0\r", -1}, {"-1", -1}, {"1.0", -1}, {"x", -1}, {"00", -1}, {"10", -1}, {"1 0", -1}, {"0\t", -1}, {"+1", -1} };
    int nm = sizeof MF / sizeof MF[0];
    static const int dims[][2] = { {1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2} };
    auto check = [=](Ctx& c, const std::string& text, int nx, int ny, const std::vector<int>* want) {
        std::string fn = scratch() + "/m.txt";
        writefile(fn, text);
        int** m = nullptr;
        bool q = quits([&] { m = gu_readmask((char*) fn.c_str(), nx, ny); });
        c.step();
        if (want == nullptr) {
            MC_CHECK(c, q, "mask of %dx%d accepted: %s", nx, ny, text.c_str());
            return;
        }
        MC_CHECK(c, !q, "mask of %dx%d rejected (%s): %s", nx, ny, quit_msg.c_str(), text.c_str());
        for (int k = 0; k < nx * ny; ++k)
            MC_CHECK(c, m[k / nx][k % nx] == (*want)[k], "mask value (%d,%d) is %d", k % nx, k / nx, m[k / nx][k % nx]);
        gu_free2d(m);
    };
    for (auto& d : dims) {
        int nx = d[0], ny = d[1], n = nx * ny;
        add(F, strf("all combinations of line forms, %dx%d, with and without the last newline", nx, ny), ipow(nm, n) * 2, [=](Ctx& c, uint64_t idx) {
            Dec dd(idx);
            int nonl = dd.take(2);
            std::string s;
            std::vector<int> w;
            bool bad = false;
            for (int k = 0; k < n; ++k) {
                int f = dd.take(nm);
                s += std::string(MF[f].s) + "\n";
                w.push_back(MF[f].v);
                bad |= MF[f].v < 0;
            }
            if (nonl)
                s.pop_back();
            c.state(mix(idx, nx * 10 + ny));
            check(c, s, nx, ny, bad ? nullptr : &w);
        });
    }
    add(F, "all masks of 4x3 cells", 4096 * 2, [=](Ctx& c, uint64_t idx) {
        int nx = idx % 2 ? 4 : 3, ny = 7 - nx;
        std::string s;
        std::vector<int> w;
        for (int k = 0; k < 12; ++k) {
            w.push_back(idx / 2 >> k & 1);
            s += w.back() ? "1\n" : "0\n";
        }
        c.state(mix(idx, 3));
        check(c, s, nx, ny, &w);
    });
    add(F, "all sizes up to 6x6, all lengths of the file", 36 * 50, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int nx = 1 + d.take(6), ny = 1 + d.take(6), n = nx * ny, l = d.take(50);
        std::string s;
        std::vector<int> w;
        for (int k = 0; k < l; ++k) {
            w.push_back(hash3(k, nx, ny) >> 3 & 1);
            s += k < n ? (w.back() ? "1\n" : "0\n") : "anything\n";
        }
        c.state(mix(idx, 4));
        check(c, s, nx, ny, l < n ? nullptr : &w);
    });
    for (int mid = 0; mid < 2; ++mid)
    add(F, mid ? "middle-sized masks" : "large masks", sizes(mid).size() * NLARGEPAT * 2, [=](Ctx& c, uint64_t idx) {
        Dec d(idx);
        int z = d.take(sizes(mid).size()), pat = d.take(NLARGEPAT), cut = d.take(2), nx = sizes(mid)[z].nx, ny = sizes(mid)[z].ny;
        std::string s;
        std::vector<int> w;
        for (int k = 0; k < nx * ny; ++k) {
            w.push_back(!largebad(pat, nx, ny, k % nx, k / nx));
            s += w.back() ? "1\n" : "0\n";
        }
        if (cut)
            s.resize(s.size() - 2);
        c.state(mix(idx, 9000));
        check(c, s, nx, ny, cut ? nullptr : &w);
    }, mid ? 0 : 4);
    /* more than 2^31 bytes in an array; more than 65535 rows; very long rows */
    add(F, "large 2-D arrays", 7, [](Ctx& c, uint64_t idx) {
        static const size_t D[7][3] = { {13500, 20001, 8}, {65537, 3, 8}, {3, 65537, 8}, {140001, 1, 4}, {1, 140001, 16}, {4099, 4099, 1}, {40000, 1000, 4} };
        size_t nj = D[idx][0], ni = D[idx][1], u = D[idx][2];
        unsigned char** a = nullptr;
        bool q = quits([&] { a = (unsigned char**) gu_alloc2d(nj, ni, u); });
        c.step();
        c.state(mix(idx, 9001));
        MC_CHECK(c, !q, "allocation of %zu x %zu x %zu bytes failed: %s", nj, ni, u, quit_msg.c_str());
        for (size_t j = 0; j < nj; ++j) {
            MC_CHECK(c, a[j] == a[0] + j * ni * u, "row %zu of %zu x %zu x %zu bytes is at offset %td", j, nj, ni, u, a[j] - a[0]);
            MC_CHECK(c, a[j][0] == 0 && a[j][ni * u - 1] == 0, "the array is not filled with zeros");
            a[j][0] = a[j][ni * u - 1] = 77;
        }
        gu_free2d(a);
    }, 1);
    add(F, "missing file", 1, [](Ctx& c, uint64_t) {
        std::string fn = scratch() + "/no/mask";
        c.step();
        MC_CHECK(c, quits([&] { gu_readmask((char*) fn.c_str(), 1, 1); }), "a missing mask file was accepted");
    });
    /* 2-D arrays: zero-filled, rows do not overlap and are contiguous */
    add(F, "2-D arrays of all sizes up to 9x9", 10 * 10 * 5, [](Ctx& c, uint64_t idx) {
        Dec d(idx);
        static const int us[5] = { 1, 2, 4, 8, 16 };
        int ni = d.take(10), nj = d.take(10), u = us[d.take(5)];
        void* p = nullptr;
        bool q = quits([&] { p = gu_alloc2d(nj, ni, u); });
        c.step();
        c.state(mix(idx, 5));
        if (ni == 0 || nj == 0) {
            MC_CHECK(c, q, "an empty array of %d x %d was allocated", nj, ni);
            return;
        }
        MC_CHECK(c, !q, "allocation of %d x %d failed", nj, ni);
        unsigned char** a = (unsigned char**) p;
        for (int j = 0; j < nj; ++j)
            for (int k = 0; k < ni * u; ++k)
                MC_CHECK(c, a[j][k] == 0, "the array is not filled with zeros");
        for (int j = 0; j < nj; ++j)
            for (int k = 0; k < ni * u; ++k)
                a[j][k] = (unsigned char) (1 + j * 16 + k);
        for (int j = 0; j < nj; ++j)
            for (int k = 0; k < ni * u; ++k)
                MC_CHECK(c, a[j][k] == (unsigned char) (1 + j * 16 + k) && &a[0][(size_t) j * ni * u] == a[j], "rows overlap or are not contiguous");
        gu_free2d(p);
    });
}

/* --------------------------------------------------- C35 operation histories */
struct H35 {
    gridnodes* p = nullptr;
    G g;
    NODETYPE t;
    bool validated = false, tidy = true;      /* tidy: cells do not overlap */
    int maptype = 0, next = 0;
    ~H35() { if (p != nullptr) gridnodes_destroy(p); }
};
static const int NOPS = 16;
/* returns false if the operation is not applicable */
static void op35(Ctx& c, H35& h, int o)
{
    auto replace = [&](gridnodes* n, const G& want, NODETYPE t, bool validated) {
        gridnodes_destroy(h.p);
        h.p = n;
        h.g = want;
        h.t = t;
        h.validated = validated;
        h.next = 0;
    };
    bool oddbad = h.t == NT_DD && (h.g.nx % 2 == 0 || h.g.ny % 2 == 0);
    switch (o) {
    case 0:
        c.log("validate");
        if (oddbad) {
            MC_CHECK(c, quits([&] { gridnodes_validate(h.p); }), "double density nodes with even dimensions were validated");
            break;
        }
        gridnodes_validate(h.p);
        h.g = modvalid(h.g, h.t);
        h.validated = true;
        break;
    case 1:
        c.log("calcstats");
        if (oddbad && !h.validated)
            break;
        if ((h.t == NT_DD || h.t == NT_COR) && !h.validated) {
            h.g = modvalid(h.g, h.t);
            h.validated = true;
        }
        if (h.next % 2)
            gridnodes_calcstats(h.p);
        else {
            gu_verbose = 1;
            std::string e = errof([&] { gridnodes_calcstats(h.p); });
            gu_verbose = 0;
            if (h.t == NT_DD || h.t == NT_COR) {
                G co = h.t == NT_DD ? dd2co(h.g) : h.g;
                if (h.tidy || nicecells(co))
                    verifystats(c, co, e, "statistics");
            }
        }
        break;
    case 2:
    case 3:
        {
            uint64_t z = o == 2 ? 1 : 0xAAAA;
            c.log("applymask %llx", (unsigned long long) z);
            if (h.t == NT_NONE || h.t == NT_COR) {
                Mask m(h.g.nx, h.g.ny, z);
                MC_CHECK(c, quits([&] { gridnodes_applymask(h.p, m.p); }), "mask accepted for nodes of this type");
                break;
            }
            int w = gridnodes_getnce1(h.p), hh = gridnodes_getnce2(h.p);
            if (w < 1 || hh < 1 || oddbad)
                break;
            Mask m(w, hh, z);
            gridnodes_applymask(h.p, m.p);
            h.g = modmask(h.g, h.t, m.v);
            if (h.t == NT_DD)
                h.validated = true;
            break;
        }
    case 4:
        c.log("copy");
        replace(gridnodes_copy(h.p), h.g, h.t, false);
        break;
    case 5:
    case 6:
        {
            int i0 = o == 5 ? 0 : 1, i1 = o == 5 ? h.g.nx - 2 : 100, j0 = o == 5 ? 1 : -3, j1 = o == 5 ? 4 : h.g.ny - 2;
            c.log("subgrid [%d:%d][%d:%d]", i0, i1, j0, j1);
            G w = submodel(h.g, i0, i1, j0, j1);
            gridnodes* n = nullptr;
            if (w.nx == 0) {
                MC_CHECK(c, quits([&] { n = gridnodes_subgrid(h.p, i0, i1, j0, j1); }), "empty subgrid accepted");
                break;
            }
            n = gridnodes_subgrid(h.p, i0, i1, j0, j1);
            replace(n, w, h.t, false);
            break;
        }
    case 7:
    case 8:
    case 9:
    case 10:
        {
            NODETYPE t2 = o == 7 ? NT_COR : o == 8 ? NT_CEN : o == 9 ? NT_DD : NT_NONE;
            c.log("transform to type %d", (int) t2);
            gridnodes* n = nullptr;
            if (oddbad && !h.validated) {
                MC_CHECK(c, quits([&] { n = gridnodes_transform(h.p, t2); }), "double density nodes with even dimensions were transformed");
                break;
            }
            G v = h.validated ? h.g : modvalid(h.g, h.t);
            if (h.t == NT_NONE && t2 != NT_NONE)
                break;          /* not a meaningful request */
            bool empty = (h.t == NT_DD && t2 == NT_CEN && (h.g.nx < 3 || h.g.ny < 3)) || (h.t == NT_COR && (t2 == NT_CEN || t2 == NT_DD) && (h.g.nx < 2 || h.g.ny < 2));
            if (empty)
                break;
            if (h.t == NT_COR && t2 != NT_COR && t2 != NT_NONE && h.maptype == GRIDMAP_TYPE_BINARY && !(h.tidy && bmapok(v))) {
                c.log("(with the kd map)");
                gridnodes_setmaptype(h.p, h.maptype = GRIDMAP_TYPE_KDTREE);
            }
            n = gridnodes_transform(h.p, t2);
            if (h.t == t2 || t2 == NT_NONE)
                replace(n, v, h.t, false);
            else if (h.t == NT_DD)
                replace(n, t2 == NT_COR ? dd2co(v) : dd2ce(v), t2, true);
            else if (h.t == NT_COR)
                replace(n, t2 == NT_CEN ? co2ce(v) : co2dd(v), t2, true);
            else {
                try {
                    checkce(c, v, t2 == NT_COR ? 1 : 2, getg(n), "transform");
                } catch (...) {
                    gridnodes_destroy(n);
                    throw;
                }
                G got = getg(n);
                replace(n, got, t2, true);
            }
            break;
        }
    case 11:
        c.log("setmaptype %d", 1 - h.maptype);
        gridnodes_setmaptype(h.p, 1 - h.maptype);
        h.maptype = 1 - h.maptype;
        break;
    case 12:
    case 13:
        {
            int k = h.next;
            double x = o == 12 ? 17.25 + k : NAN, y = o == 12 ? -3.5 * k : NAN;
            c.log("readnextpoint (%g,%g)", x, y);
            gridnodes_readnextpoint(h.p, x, y);
            h.tidy = false;
            h.g.x[k] = x;
            h.g.y[k] = y;
            h.next = (h.next + 1) % (h.g.nx * h.g.ny);
            break;
        }
    case 14:
        {
            c.log("write and read");
            std::string fn = scratch() + "/h.txt";
            gridnodes_write(h.p, (char*) fn.c_str(), CT_XY);
            gridnodes* n = nullptr;
            bool q = quits([&] { n = gridnodes_read((char*) fn.c_str(), h.t); });
            MC_CHECK(c, q == oddbad, "reading back %s: %s", q ? "failed" : "succeeded", q ? quit_msg.c_str() : "");
            if (q)
                break;
            G got = getg(n);
            for (size_t k = 0; k < got.x.size() && got.nx == h.g.nx && got.ny == h.g.ny; ++k)
                if (!dig15(got.x[k], h.g.x[k]) || !dig15(got.y[k], h.g.y[k])) {
                    gridnodes_destroy(n);
                    c.fail("node %d changed by writing and reading", (int) k);
                }
            int nx = h.g.nx, ny = h.g.ny;
            replace(n, got, h.t, false);
            h.maptype = 0;
            MC_CHECK(c, got.nx == nx && got.ny == ny, "size changed by writing and reading");
            break;
        }
    case 15:
        c.log("change a node directly");
        {
            int k = (int) (h.g.x.size() / 2);
            gridnodes_getx(h.p)[k / h.g.nx][k % h.g.nx] = NAN;
            gridnodes_gety(h.p)[k / h.g.nx][k % h.g.nx] = NAN;
            h.g.x[k] = h.g.y[k] = NAN;
            break;
        }
    }
    c.step();
    G got = getg(h.p);
    bool good = got.nx == h.g.nx && got.ny == h.g.ny;
    double M = 1e-300;
    for (double x : h.g.x)
        M = std::isnan(x) ? M : std::max(M, fabs(x));
    for (double x : h.g.y)
        M = std::isnan(x) ? M : std::max(M, fabs(x));
    for (size_t k = 0; good && k < got.x.size(); ++k)
        good = close_(got.x[k], h.g.x[k], 1e-13 * M) && close_(got.y[k], h.g.y[k], 1e-13 * M);
    MC_CHECK(c, good, "after the last operation the nodes are\n  %s\nexpected\n  %s", gstr(got).c_str(), gstr(h.g).c_str());
    h.g = got;
    MC_CHECK(c, gridnodes_getmaptype(h.p) == h.maptype, "map type %d, expected %d", gridnodes_getmaptype(h.p), h.maptype);
    int e1 = h.t == NT_DD ? (got.nx - 1) / 2 : h.t == NT_COR ? got.nx - 1 : got.nx;
    int e2 = h.t == NT_DD ? (got.ny - 1) / 2 : h.t == NT_COR ? got.ny - 1 : got.ny;
    if (h.t == NT_NONE)
        MC_CHECK(c, quits([&] { gridnodes_getnce1(h.p); }), "number of cells for nodes of unknown type");
    else
        MC_CHECK(c, gridnodes_getnce1(h.p) == e1 && gridnodes_getnce2(h.p) == e2, "number of cells");
    uint64_t hs = mix(mix(mix(h.t, h.validated), h.maptype), h.next);
    for (size_t k = 0; k < got.x.size(); ++k)
        hs = hashd(hs, got.x[k]);
    c.state(mix(mix(hs, got.nx), got.ny));
}
PROPERTY(C35)
{
    static const struct {
        const char* name;
        int nx, ny;
        NODETYPE t;
        uint64_t nan;
        int geo;
    } S[] = {
        {"DD 5x5 full", 5, 5, NT_DD, 0, GEO_CURVI}, {"DD 5x5 with holes", 5, 5, NT_DD, 0x10401, GEO_UTM}, {"DD 3x5", 3, 5, NT_DD, 0, GEO_AFFINE}, {"CO 3x3 full", 3, 3, NT_COR, 0, GEO_CURVI},
        {"CO 4x3 with holes", 4, 3, NT_COR, 0x801, GEO_UNIT}, {"CE 3x3 full", 3, 3, NT_CEN, 0, GEO_AFFINE}, {"CE 3x2 with a hole", 3, 2, NT_CEN, 1, GEO_CURVI}, {"unknown type 3x3", 3, 3, NT_NONE, 4, GEO_UNIT}, {"created empty, CO 2x2", 2, 2, NT_COR, 0, -1}
    };
    /* the same conversion again and again, also after other work in the process */
    for (auto wh : std::vector<std::pair<int, int>>{ {3, 3}, {4, 3}, {2, 4} })
        add(F, strf("repeated conversions of all %dx%d centre grids", wh.first, wh.second), (2ULL << wh.first * wh.second) * 3, [=](Ctx& c, uint64_t idx) {
            Dec d(idx);
            NODETYPE t = d.take(2) ? NT_COR : NT_DD;
            int other = d.take(3), nx = wh.first, ny = wh.second;
            G g = pattern(nx, ny, d.v, GEO_CURVI);
            gridnodes* p = mkgn(g, NT_CEN);
            G first;
            c.state(idx);
            for (int k = 0; k < 12; ++k) {
                gridnodes* r = gridnodes_transform(p, t);
                G got = getg(r);
                gridnodes_destroy(r);
                c.step();
                if (k == 0)
                    first = got;
                bool good = got.nx == first.nx && got.ny == first.ny;
                for (size_t q = 0; good && q < got.x.size(); ++q)
                    good = same(got.x[q], first.x[q]) && same(got.y[q], first.y[q]);
                if (!good)
                    gridnodes_destroy(p);
                MC_CHECK(c, good, "conversion %d of %s:\n  %s\nbut the first one:\n  %s", k, gstr(g).c_str(), gstr(got).c_str(), gstr(first).c_str());
                if (other == 1) {
                    G g2 = pattern(2 + k % 3, 3, 0, GEO_AFFINE);
                    gridnodes* p2 = mkgn(g2, NT_CEN);
                    gridnodes_destroy(gridnodes_transform(p2, NT_DD));
                    gridnodes_destroy(p2);
                } else if (other == 2) {
                    gridnodes* p2 = gridnodes_copy(p);
                    gridnodes_destroy(p);
                    p = p2;
                }
            }
            gridnodes_destroy(p);
        });
    int depth = thorough ? 5 : 4;
    for (auto& s : S)
        add(F, strf("all histories of %d operations, %s", depth, s.name), ipow(NOPS, depth), [=](Ctx& c, uint64_t idx) {
            H35 h;
            Dec d(idx);
            if (s.geo < 0) {
                h.p = gridnodes_create(s.nx, s.ny, s.t);
                h.g = G(s.nx, s.ny);
                h.tidy = false;
                expectg(c, h.p, h.g, "a new grid");
            } else {
                h.g = pattern(s.nx, s.ny, s.nan, s.geo);
                if (mix(idx, 35) >> 9 & 1) {
                    double** gx = (double**) gu_alloc2d(s.ny, s.nx, sizeof(double));
                    double** gy = (double**) gu_alloc2d(s.ny, s.nx, sizeof(double));
                    for (int k = 0; k < s.nx * s.ny; ++k) {
                        gx[k / s.nx][k % s.nx] = h.g.x[k];
                        gy[k / s.nx][k % s.nx] = h.g.y[k];
                    }
                    h.p = gridnodes_create2(s.nx, s.ny, s.t, gx, gy);
                } else
                    h.p = mkgn(h.g, s.t);
            }
            h.t = s.t;
            for (int k = 0; k < depth; ++k)
                op35(c, h, d.take(NOPS));
        });
}
