/* mc.h -- a small explicit-state / bounded-exhaustive model-checking engine.
 *
 * A property is a list of families.  A family is a finite, fully enumerated
 * space of behaviours of the real code: indices 0..n-1, and run(ctx, index)
 * decodes the index into an input / operation history, executes it on the code
 * under test, steps the reference model next to it and compares after every
 * step.  The engine runs every index of every family in forked worker
 * processes (one fresh process per chunk of indices, so that the history that
 * led to a failure is known exactly), detects crashes, sanitizer reports,
 * unexpected fatal errors and non-termination, replays every failure in a
 * fresh process before it is believed, and counts states and transitions. */
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Fail {
    std::string key, msg;
};

struct Ctx {
    bool tracing = false;
    bool thorough = false;
    uint64_t transitions = 0;   /* operations executed on the implementation and compared */
    uint64_t comparisons = 0;   /* individual observations compared with the model */
    std::string trace;
    /* records a (canonical) state of the model that has been visited */
    void state(uint64_t h);
    void step(uint64_t n = 1) { transitions += n; }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void failkey(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
};

#define MC_CHECK(c, cond, ...) do { ++(c).comparisons; if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

struct Family {
    std::string name;
    uint64_t n;
    std::function<void(Ctx&, uint64_t)> run;
    uint64_t chunk = 0;         /* cases per worker process; 0 = automatic */
};

struct Property {
    std::string id;
    std::vector<Family> families;
};

typedef std::function<void(std::vector<Family>&, bool thorough)> Maker;
struct Reg {
    Reg(const char* id, Maker m);
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define PROPERTY(id) \
    static void MC_CAT(mk_, id)(std::vector<mc::Family>& F, bool thorough); \
    static mc::Reg MC_CAT(reg_, id)(#id, MC_CAT(mk_, id)); \
    static void MC_CAT(mk_, id)(std::vector<mc::Family>& F, [[maybe_unused]] bool thorough)

inline void add(std::vector<Family>& F, const std::string& name, uint64_t n, std::function<void(Ctx&, uint64_t)> f, uint64_t chunk = 0)
{
    F.push_back(Family{name, n, f, chunk});
}

/* fatal errors of the library (gu_quit) are turned into a return value */
extern std::string quit_msg;
bool quits_impl(void (*fn)(void*), void* arg);
template <class L> bool quits(L&& l)
{
    struct T {
        static void call(void* a) { (*(typename std::remove_reference<L>::type*) a)(); }
    };
    return quits_impl(&T::call, (void*) &l);
}

/* hashing */
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hashd(uint64_t h, double d)
{
    uint64_t u;
    if (d != d)
        u = 0x7ff8000000000000ULL;
    else
        memcpy(&u, &d, 8);
    return mix(h, u);
}
inline uint64_t hashs(const char* s)
{
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s)
        h = (h ^ (unsigned char) *s) * 1099511628211ULL;
    return h;
}

/* mixed-radix decoding of an index */
struct Dec {
    uint64_t v;
    explicit Dec(uint64_t x) : v(x) {}
    int take(uint64_t base) { int r = (int) (v % base); v /= base; return r; }
};

/* scratch directory of this run (absolute path), private to the worker */
const std::string& scratch();

/* running a command-line tool */
struct Out {
    int status = -1;            /* exit code, or -signal, or -1000 for a timeout */
    std::string out, err;
};
extern std::string bindir;      /* directory with the tools under test */
struct RunOpt {                 /* circumstances of a run */
    std::string cwd;            /* current directory, if not empty */
    bool setenv = false;        /* env instead of the own environment */
    std::vector<std::string> env;
    bool pipein = false, pipeout = false;       /* pipes instead of files (up to 1 MB) */
    int64_t outlimit = -1;      /* >= 0: files cannot become larger than this */
    int nowrite = 0;            /* 1: stdout is a full device, 2: a pipe nobody reads, 3: closed, 4: opened for reading */
};
Out runtool(const std::vector<std::string>& argv, const std::string* in = nullptr, const RunOpt* opt = nullptr);
void writefile(const std::string& path, const std::string& data);
std::string readfile(const std::string& path);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

int main_(int argc, char** argv);
extern void (*leak_check)();    /* called at the end of each chunk if set */
}
#endif
