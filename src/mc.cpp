#include "mc.h"
#include <csetjmp>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <map>
#include <set>
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/syscall.h>

extern "C" {
typedef void (*gu_quitfn)(char* format, ...);
void gu_setquitfn(gu_quitfn quitfn);
}
extern char** environ;

namespace mc {

static std::map<std::string, Maker>& registry()
{
    static std::map<std::string, Maker> m;
    return m;
}
Reg::Reg(const char* id, Maker m)
{
    registry()[id] = m;
}

std::string quit_msg;
std::string bindir;
void (*leak_check)() = nullptr;

std::string strf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char* p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string s(p, n > 0 ? n : 0);
    free(p);
    return s;
}

/* ------------------------------------------------------------------ quit */
static sigjmp_buf jb_case, jb_call;
static bool armed_call = false;
static char quit_buf[2048];
static std::string case_quit;

static void on_quit(char* format, ...)
{
    va_list ap;
    va_start(ap, format);
    vsnprintf(quit_buf, sizeof quit_buf, format, ap);
    va_end(ap);
    if (armed_call)
        siglongjmp(jb_call, 1);
    siglongjmp(jb_case, 1);
}

__attribute__((noinline)) bool quits_impl(void (*fn)(void*), void* arg)
{
    if (sigsetjmp(jb_call, 0) == 0) {
        armed_call = true;
        fn(arg);
        armed_call = false;
        return false;
    }
    armed_call = false;
    quit_msg = quit_buf;
    return true;
}

/* ---------------------------------------------------------------- shared */
static const uint64_t NBITS = 1ULL << 28;
struct Slot {
    volatile uint64_t cur;
    volatile uint64_t t0;       /* ms */
    volatile int phase;         /* 0 free, 1 running, 2 failed, 3 done */
    uint64_t transitions, comparisons, cases;
    char key[256];
    char msg[4096];
};
struct Shared {
    uint64_t distinct;
    Slot slot[64];
};
static Shared* sh;
static uint64_t* bits;

static uint64_t now_ms()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000ULL + t.tv_nsec / 1000000;
}

void Ctx::state(uint64_t h)
{
    h = mix(h, 0x51ed27);
    uint64_t b = h % NBITS;
    uint64_t m = 1ULL << (b & 63);
    if (bits != nullptr && !(__atomic_load_n(&bits[b >> 6], __ATOMIC_RELAXED) & m))
        if (!(__atomic_fetch_or(&bits[b >> 6], m, __ATOMIC_RELAXED) & m))
            __atomic_fetch_add(&sh->distinct, 1, __ATOMIC_RELAXED);
}
void Ctx::log(const char* fmt, ...)
{
    if (!tracing)
        return;
    va_list ap;
    va_start(ap, fmt);
    char* p = nullptr;
    if (vasprintf(&p, fmt, ap) >= 0) {
        if (trace.size() < 60000) {
            trace += p;
            trace += '\n';
        }
        free(p);
    }
    va_end(ap);
}
void Ctx::fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[3500];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{"", buf};
}
void Ctx::failkey(const char* key, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[3500];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{key, buf};
}

/* ----------------------------------------------------------------- tools */
static std::string scratch_root, scratch_dir;
static pid_t scratch_pid = 0;

const std::string& scratch()
{
    if (scratch_pid != getpid()) {
        scratch_pid = getpid();
        scratch_dir = strf("%s/w%d", scratch_root.c_str(), (int) getpid());
        mkdir(scratch_dir.c_str(), 0700);
    }
    return scratch_dir;
}

static void rmtree(const std::string& d)
{
    if (d.empty() || d[0] != '/' || d.find("/vpmc.") == std::string::npos)
        return;
    DIR* dp = opendir(d.c_str());
    if (dp != nullptr) {
        struct dirent* e;
        while ((e = readdir(dp)) != nullptr) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
                continue;
            std::string p = d + "/" + e->d_name;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                rmtree(p);
            else
                unlink(p.c_str());
        }
        closedir(dp);
    }
    rmdir(d.c_str());
}

void writefile(const std::string& path, const std::string& data)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) {
        perror(path.c_str());
        _exit(97);
    }
    size_t o = 0;
    while (o < data.size()) {
        ssize_t k = write(fd, data.data() + o, data.size() - o);
        if (k <= 0) {
            perror("write");
            _exit(97);
        }
        o += k;
    }
    close(fd);
}
static std::string slurpfd(int fd)
{
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t k;
    while ((k = read(fd, buf, sizeof buf)) > 0)
        s.append(buf, k);
    return s;
}
std::string readfile(const std::string& path)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0)
        return "";
    std::string s = slurpfd(fd);
    close(fd);
    return s;
}

static int memfile(const std::string* data)
{
    int fd = memfd_create("mc", MFD_CLOEXEC);
    if (fd < 0) {
        perror("memfd_create");
        _exit(97);
    }
    if (data != nullptr) {
        size_t o = 0;
        while (o < data->size()) {
            ssize_t k = write(fd, data->data() + o, data->size() - o);
            if (k <= 0)
                _exit(97);
            o += k;
        }
        lseek(fd, 0, SEEK_SET);
    }
    return fd;
}

static std::string slurppipe(int fd)
{
    std::string s;
    char buf[65536];
    ssize_t k;
    while ((k = read(fd, buf, sizeof buf)) > 0)
        s.append(buf, k);
    return s;
}

static Out runtool1(const std::vector<std::string>& argv, const std::string* in, const RunOpt* opt, int limit_ms)
{
    Out o;
    std::vector<char*> av;
    std::string exe = argv[0][0] == '/' ? argv[0] : bindir + "/" + argv[0];
    for (auto& a : argv)
        av.push_back((char*) a.c_str());
    av.push_back(nullptr);
    int fi = memfile(in), fo = memfile(nullptr), fe = memfile(nullptr);
    int po = -1;                /* write end of the output pipe */
    if (opt != nullptr && opt->pipein) {
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0 || (fcntl(p[1], F_SETPIPE_SZ, 1 << 20) < 0 && in != nullptr && in->size() > 65536))
            _exit(97);
        if (in != nullptr && write(p[1], in->data(), in->size()) != (ssize_t) in->size())
            _exit(97);
        close(p[1]);
        close(fi);
        fi = p[0];
    }
    if (opt != nullptr && opt->pipeout) {
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0)
            _exit(97);
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        close(fo);
        fo = p[0];
        po = p[1];
    }
    int pe = -1;
    bool faulty = opt != nullptr && (opt->outlimit >= 0 || opt->nowrite > 0);
    if (faulty) {               /* messages are not limited */
        int p[2];
        if (pipe2(p, O_CLOEXEC) != 0)
            _exit(97);
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        close(fe);
        fe = p[0];
        pe = p[1];
        if (opt->nowrite == 2) {
            if (pipe2(p, O_CLOEXEC) != 0)
                _exit(97);
            close(p[0]);
            po = p[1];
        } else if (opt->nowrite == 1 || opt->nowrite == 4)
            po = opt->nowrite == 1 ? open("/dev/full", O_WRONLY | O_CLOEXEC) : open("/dev/null", O_RDONLY | O_CLOEXEC);
    }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fi, 0);
    if (opt != nullptr && opt->nowrite == 3)
        posix_spawn_file_actions_addclose(&fa, 1);
    else
        posix_spawn_file_actions_adddup2(&fa, po >= 0 ? po : fo, 1);
    posix_spawn_file_actions_adddup2(&fa, pe >= 0 ? pe : fe, 2);
    if (opt != nullptr && !opt->cwd.empty())
        posix_spawn_file_actions_addchdir_np(&fa, opt->cwd.c_str());
    std::vector<char*> ev;
    if (opt != nullptr && opt->setenv)
        for (auto& e : opt->env)
            ev.push_back((char*) e.c_str());
    ev.push_back(nullptr);
    pid_t pid;
    struct rlimit rl, lim;
    void (*sx)(int) = SIG_DFL;
    void (*sp)(int) = SIG_DFL;
    if (faulty) {               /* a failed write is an error, not a signal */
        sx = signal(SIGXFSZ, SIG_IGN);
        sp = signal(SIGPIPE, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &rl);
        lim = rl;
        if (opt->outlimit >= 0) {
            lim.rlim_cur = (rlim_t) opt->outlimit;
            setrlimit(RLIMIT_FSIZE, &lim);
        }
    }
    int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), opt != nullptr && opt->setenv ? ev.data() : environ);
    if (faulty) {
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, sx);
        signal(SIGPIPE, sp);
        close(pe);
    }
    posix_spawn_file_actions_destroy(&fa);
    if (po >= 0)
        close(po);
    if (rc != 0) {
        fprintf(stderr, "spawn %s: %s\n", exe.c_str(), strerror(rc));
        _exit(97);
    }
    int st = 0;
    int pfd = (int) syscall(434 /* pidfd_open */, pid, 0);
    bool timed = false;
    if (pfd >= 0) {
        struct pollfd p = {pfd, POLLIN, 0};
        int k;
        uint64_t t1 = now_ms() + limit_ms;
        do {
            int64_t left = (int64_t) t1 - (int64_t) now_ms();
            k = poll(&p, 1, left > 0 ? (int) left : 0);
        } while (k < 0 && errno == EINTR);
        if (k == 0) {
            timed = true;
            kill(pid, SIGKILL);
        }
        close(pfd);
    } else {
        uint64_t t1 = now_ms() + limit_ms;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            if (now_ms() > t1) {
                timed = true;
                kill(pid, SIGKILL);
                break;
            }
            usleep(500);
        }
        if (!timed)
            goto reaped;
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  reaped:
    o.status = timed ? -1000 : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    o.out = opt != nullptr && opt->pipeout ? slurppipe(fo) : slurpfd(fo);
    o.err = faulty ? slurppipe(fe) : slurpfd(fe);
    close(fi);
    close(fo);
    close(fe);
    return o;
}

Out runtool(const std::vector<std::string>& argv, const std::string* in, const RunOpt* opt)
{
    Out o = runtool1(argv, in, opt, 10000);
    if (o.status == -1000)
        o = runtool1(argv, in, opt, 60000);      /* a loaded machine is not a hang */
    return o;
}

/* ---------------------------------------------------------------- engine */
static bool run_case(const Family& f, uint64_t idx, Ctx& ctx, Fail& out)
{
    try {
        if (sigsetjmp(jb_case, 0) == 0) {
            armed_call = false;
            f.run(ctx, idx);
            return true;
        }
        out.key = "";
        out.msg = std::string("unexpected fatal error of the library: ") + quit_buf;
        return false;
    } catch (Fail& e) {
        out = e;
        return false;
    }
}

struct Work {
    int fam;
    uint64_t start, a, b;       /* run [a,b); the process starts at `start' when replayed */
};
struct Failure {
    int fam;
    uint64_t start, idx;
    std::string kind, key, msg;
};

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c == '\t')
            o += "\\t";
        else if (c < 32 || c >= 127)
            o += strf("\\u%04x", c);
        else
            o += c;
    }
    return o + "\"";
}

static std::string errpath(int w)
{
    return strf("%s/stderr.%d", scratch_root.c_str(), w);
}

static void child_main(const Family& f, const Work& wk, int w, bool thorough)
{
    int fd = open(errpath(w).c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
    fd = open("/dev/null", O_RDWR);
    dup2(fd, 0);
    dup2(fd, 1);
    close(fd);
    Slot* s = &sh->slot[w];
    Ctx ctx;
    ctx.thorough = thorough;
    uint64_t cases = 0;
    for (uint64_t i = wk.a; i < wk.b; ++i) {
        s->cur = i;
        s->t0 = now_ms();
        Fail fl;
        bool ok = run_case(f, i, ctx, fl);
        ++cases;
        s->transitions = ctx.transitions;
        s->comparisons = ctx.comparisons;
        s->cases = cases;
        if (!ok) {
            snprintf(s->key, sizeof s->key, "%s", fl.key.c_str());
            snprintf(s->msg, sizeof s->msg, "%s", fl.msg.c_str());
            s->phase = 2;
            _exit(0);
        }
    }
    if (leak_check != nullptr)
        leak_check();
    s->phase = 3;
    if (scratch_pid == getpid())
        rmtree(scratch_dir);
    _exit(0);
}

static std::string tail(const std::string& s, size_t n)
{
    return s.size() <= n ? s : "..." + s.substr(s.size() - n);
}
static std::string head(const std::string& s, size_t n)
{
    return s.size() <= n ? s : s.substr(0, n) + "...";
}

/* a worker and the tool it is running */
static void killgroup(pid_t pid)
{
    if (kill(-pid, SIGKILL) != 0)
        kill(pid, SIGKILL);
}

/* Runs [start, idx] of a family in a fresh process with tracing of the last
 * case.  Returns true if it fails (any way), with a description. */
static bool replay(const char* self, const std::string& prop, const Family& f, uint64_t start, uint64_t idx, bool thorough, int limit_s, std::string& desc, bool& timeout)
{
    std::string outp = scratch_root + "/replay.out";
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        int fd = open(outp.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
        std::string a = strf("%llu", (unsigned long long) start), b = strf("%llu", (unsigned long long) idx);
        execl(self, self, "--property", prop.c_str(), "--tier", thorough ? "thorough" : "quick", "--bindir", bindir.c_str(), "--replay", f.name.c_str(), a.c_str(), b.c_str(), (char*) nullptr);
        _exit(98);
    }
    uint64_t t1 = now_ms() + limit_s * 1000ULL;
    int st = 0;
    timeout = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now_ms() > t1) {
            timeout = true;
            killgroup(pid);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(2000);
    }
    desc = readfile(outp);
    if (timeout)
        desc += strf("\n[no termination within %d s]\n", limit_s);
    else if (WIFSIGNALED(st))
        desc += strf("\n[killed by signal %d]\n", WTERMSIG(st));
    return timeout || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static int replay_main(const Family& f, uint64_t start, uint64_t idx, bool thorough)
{
    for (uint64_t i = start; i <= idx; ++i) {
        Ctx ctx;
        ctx.thorough = thorough;
        ctx.tracing = (i == idx);
        Fail fl;
        if (i == idx) {
            printf("family=%s index=%llu (process started at index %llu)\n", f.name.c_str(), (unsigned long long) i, (unsigned long long) start);
            fflush(stdout);
        }
        bool ok = run_case(f, i, ctx, fl);
        if (i == idx && leak_check != nullptr && ok)
            leak_check();
        if (i == idx) {
            fputs(ctx.trace.c_str(), stdout);
            if (!ok)
                printf("FAILED: %s\n", fl.msg.c_str());
            else
                printf("ok\n");
            fflush(stdout);
        }
        if (!ok && i == idx) {
            if (scratch_pid == getpid())
                rmtree(scratch_dir);
            rmtree(scratch_root);
            _exit(1);
        }
    }
    if (scratch_pid == getpid())
        rmtree(scratch_dir);
    rmtree(scratch_root);
    _exit(0);
}

int main_(int argc, char** argv)
{
    std::string prop, tier = "quick", evidence, replaydir = ".", seed = "1", known, only;
    bool dolist = false, doreplay = false;
    std::string rfam;
    uint64_t rstart = 0, ridx = 0;
    int W = (int) sysconf(_SC_NPROCESSORS_ONLN);
    double budget = 0;

    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--property") prop = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--bindir") bindir = nx();
        else if (a == "--evidence") evidence = nx();
        else if (a == "--replaydir") replaydir = nx();
        else if (a == "--seed") seed = nx();
        else if (a == "--known") known = nx();
        else if (a == "--workers") W = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--only") only = nx();
        else if (a == "--list") dolist = true;
        else if (a == "--replay") {
            doreplay = true;
            rfam = nx();
            rstart = strtoull(nx().c_str(), nullptr, 10);
            ridx = strtoull(nx().c_str(), nullptr, 10);
        }
    }
    if (dolist && prop.empty()) {
        for (auto& r : registry())
            printf("%s\n", r.first.c_str());
        return 0;
    }
    if (!registry().count(prop)) {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 2;
    }
    if (W < 1) W = 1;
    if (W > 32) W = 32;
    bool thorough = tier == "thorough";
    if (budget <= 0)
        budget = thorough ? 14400 : 600;

    {
        const char* t = getenv("TMPDIR");
        std::string tpl = std::string(t && *t ? t : "/tmp") + "/vpmc.XXXXXX";
        std::vector<char> b(tpl.begin(), tpl.end());
        b.push_back(0);
        if (mkdtemp(b.data()) == nullptr) {
            perror("mkdtemp");
            return 2;
        }
        scratch_root = b.data();
    }
    gu_setquitfn(on_quit);
    {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 128UL << 20;
        setrlimit(RLIMIT_FSIZE, &rl);
    }

    std::vector<Family> F;
    registry()[prop](F, thorough);
    if (!only.empty()) {
        std::vector<Family> G;
        for (auto& f : F)
            if (f.name.find(only) != std::string::npos)
                G.push_back(f);
        F = G;
    }
    if (dolist) {
        for (auto& f : F)
            printf("%-40s %llu\n", f.name.c_str(), (unsigned long long) f.n);
        rmtree(scratch_root);
        return 0;
    }
    if (doreplay) {
        for (auto& f : F)
            if (f.name == rfam)
                return replay_main(f, rstart, ridx, thorough);
        fprintf(stderr, "no family %s\n", rfam.c_str());
        rmtree(scratch_root);
        return 2;
    }

    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bits = (uint64_t*) mmap(nullptr, NBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || bits == MAP_FAILED) {
        perror("mmap");
        return 2;
    }

    std::set<std::string> knownkeys;
    if (!known.empty()) {
        /* lines "KNOWN property=<id> key=<key> ..." */
        std::string s = readfile(known);
        size_t p = 0;
        while (p < s.size()) {
            size_t e = s.find('\n', p);
            if (e == std::string::npos) e = s.size();
            std::string l = s.substr(p, e - p);
            p = e + 1;
            char id[64], key[256];
            if (sscanf(l.c_str(), "KNOWN property=%63s key=%255s", id, key) == 2 && prop == id)
                knownkeys.insert(key);
        }
    }

    uint64_t T0 = now_ms();
    std::vector<Work> queue;
    uint64_t total = 0;
    std::map<int, uint64_t> famdone, famtr;
    for (size_t k = 0; k < F.size(); ++k) {
        uint64_t c = F[k].chunk;
        if (c == 0) {
            c = F[k].n / (W * 12) + 1;
            if (c > 2048) c = 2048;
        }
        for (uint64_t a = 0; a < F[k].n; a += c)
            queue.push_back(Work{(int) k, a, a, std::min(F[k].n, a + c)});
        total += F[k].n;
    }

    struct Run {
        pid_t pid = 0;
        Work wk;
        bool killed = false;
    };
    std::vector<Run> run(W);
    std::vector<Failure> fails;
    std::map<std::string, std::string> knownhits;
    size_t qi = 0;
    uint64_t transitions = 0, comparisons = 0, cases = 0;
    int active = 0;
    bool stop = false, capped = false;
    std::vector<Work> extra;
    const uint64_t case_limit_ms = thorough ? 120000 : 30000;

    while (true) {
        if (!stop && (now_ms() - T0) / 1000.0 > budget) {
            stop = true;
            capped = true;
        }
        for (int w = 0; w < W && !stop; ++w) {
            if (run[w].pid != 0)
                continue;
            Work wk;
            if (!extra.empty()) {
                wk = extra.back();
                extra.pop_back();
            } else if (qi < queue.size())
                wk = queue[qi++];
            else
                break;
            Slot* s = &sh->slot[w];
            memset((void*) s, 0, sizeof *s);
            s->phase = 1;
            s->cur = wk.a;
            s->t0 = now_ms();
            pid_t pid = fork();
            if (pid < 0) {
                extra.push_back(wk);
                usleep(10000);
                break;
            }
            if (pid == 0) {
                setpgid(0, 0);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
            }
            if (pid == 0)
                child_main(F[wk.fam], wk, w, thorough);
            run[w].pid = pid;
            run[w].wk = wk;
            run[w].killed = false;
            ++active;
        }
        if (active == 0 && (stop || (qi >= queue.size() && extra.empty())))
            break;
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            for (int w = 0; w < W; ++w)
                if (run[w].pid != 0 && !run[w].killed && sh->slot[w].phase == 1) {
                    uint64_t t0 = sh->slot[w].t0, t1 = now_ms();        /* in this order */
                    if (t1 > t0 && t1 - t0 > case_limit_ms) {
                        run[w].killed = true;
                        killgroup(run[w].pid);
                    }
                }
            usleep(300);
            continue;
        }
        int w;
        for (w = 0; w < W; ++w)
            if (run[w].pid == p)
                break;
        if (w == W)
            continue;
        run[w].pid = 0;
        --active;
        Slot* s = &sh->slot[w];
        Work wk = run[w].wk;
        transitions += s->transitions;
        comparisons += s->comparisons;
        cases += s->cases;
        famdone[wk.fam] += s->cases;
        famtr[wk.fam] += s->transitions;
        if (s->phase == 3)
            continue;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
            fprintf(stderr, "harness error in %s at %llu: %s\n", F[wk.fam].name.c_str(), (unsigned long long) s->cur, readfile(errpath(w)).c_str());
            rmtree(scratch_root);
            return 2;
        }
        Failure fl;
        fl.fam = wk.fam;
        fl.start = wk.start;
        fl.idx = s->cur;
        if (s->phase == 2) {
            fl.kind = "mismatch";
            fl.key = s->key;
            fl.msg = s->msg;
        } else if (run[w].killed) {
            fl.kind = "hang";
            fl.msg = "no termination";
        } else {
            fl.kind = "crash";
            fl.msg = strf("process ended abnormally (%s %d)\n", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + head(readfile(errpath(w)), 3000);
        }
        if (!fl.key.empty() && knownkeys.count(fl.key))
            knownhits[fl.key] = fl.msg;
        else {
            fails.push_back(fl);
            if (fails.size() >= 6)
                stop = true;
        }
        /* carry on with the rest of the chunk */
        if (!stop && fl.idx + 1 < wk.b)
            extra.push_back(Work{wk.fam, fl.idx + 1, fl.idx + 1, wk.b});
    }

    /* samples of what has been explored */
    std::vector<std::string> samples;
    for (size_t k = 0; k < F.size() && samples.size() < 12; ++k) {
        if (F[k].n == 0)
            continue;
        std::string d;
        bool to;
        uint64_t idx = F[k].n / 2 + F[k].n / 7;
        if (idx >= F[k].n)
            idx = F[k].n - 1;
        if (fails.empty())
            replay(argv[0], prop, F[k], idx, idx, thorough, 60, d, to);
        samples.push_back(head(d, 1200));
    }

    int nviol = 0, unconfirmed = 0;
    std::vector<std::string> viol;
    std::sort(fails.begin(), fails.end(), [](const Failure& a, const Failure& b) { return a.fam != b.fam ? a.fam < b.fam : a.idx < b.idx; });
    for (auto& f : fails) {
        std::string d;
        bool to = false;
        uint64_t start = f.idx;
        int lim = f.kind == "hang" ? 120 : 150;
        bool bad = replay(argv[0], prop, F[f.fam], f.idx, f.idx, thorough, lim, d, to);
        if (!bad && f.start < f.idx) {
            start = f.start;
            bad = replay(argv[0], prop, F[f.fam], f.start, f.idx, thorough, lim, d, to);
        }
        if (!bad) {
            ++unconfirmed;
            fprintf(stderr, "unconfirmed: family %s index %llu: %s\n", F[f.fam].name.c_str(), (unsigned long long) f.idx, head(f.msg, 1500).c_str());
            continue;
        }
        ++nviol;
        mkdir(replaydir.c_str(), 0755);
        std::string base = strf("%s-%s-%llu.txt", prop.c_str(), F[f.fam].name.c_str(), (unsigned long long) f.idx);
        for (auto& c : base)
            if (!isalnum((unsigned char) c) && c != '.' && c != '-')
                c = '_';
        std::string path = replaydir + "/" + base;
        std::string text = strf("property: %s\ntier: %s\nfamily: %s\nindex: %llu\nstart: %llu\nkind: %s\n", prop.c_str(), tier.c_str(), F[f.fam].name.c_str(), (unsigned long long) f.idx, (unsigned long long) start, f.kind.c_str());
        text += strf("replay: python3 check.py %s --replay %s %llu %llu\n", prop.c_str(), F[f.fam].name.c_str(), (unsigned long long) start, (unsigned long long) f.idx);
        text += "message: " + f.msg + "\n\n--- replayed in a fresh process ---\n" + tail(d, 20000);
        writefile(path, text);
        viol.push_back(path);
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        fprintf(stderr, "  %s\n", head(f.msg, 600).c_str());
        if (nviol >= 3)
            break;
    }
    for (auto& k : knownhits)
        printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), k.first.c_str(), head(k.second, 300).c_str());

    double wall = (now_ms() - T0) / 1000.0;
    if (!evidence.empty()) {
        std::string j = "{\n";
        j += strf(" \"property\": %s,\n \"tier\": %s,\n \"seed\": %d,\n \"level\": \"model_checking\",\n", jstr(prop).c_str(), jstr(tier).c_str(), atoi(seed.c_str()));
        j += " \"coverage\": {\n";
        j += strf("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"observations_compared\": %llu,\n", (unsigned long long) sh->distinct, (unsigned long long) transitions, (unsigned long long) cases, (unsigned long long) comparisons);
        j += strf("  \"exhaustive\": %s,\n", (!capped && nviol == 0 && unconfirmed == 0 && cases >= total) ? "true" : "false");
        j += strf("  \"rule\": %s,\n", jstr("every index of every family below is executed on the real code built from /repo and compared with the reference model; 'states' counts distinct model states/inputs (hash bitmap, a lower bound), 'transitions' operations executed, 'traces' complete cases").c_str());
        if (capped)
            j += strf("  \"capped\": \"time budget of %.0f s reached; families below list what was completed\",\n", budget);
        j += "  \"families\": {";
        for (size_t k = 0; k < F.size(); ++k)
            j += strf("%s\n   %s: {\"space\": %llu, \"executed\": %llu, \"transitions\": %llu}", k ? "," : "", jstr(F[k].name).c_str(), (unsigned long long) F[k].n, (unsigned long long) famdone[k], (unsigned long long) famtr[k]);
        j += "\n  },\n  \"samples\": [";
        for (size_t k = 0; k < samples.size(); ++k)
            j += strf("%s\n   %s", k ? "," : "", jstr(samples[k]).c_str());
        j += "\n  ]\n },\n";
        j += strf(" \"assumptions\": [%s],\n", jstr("bounded: only the enumerated families (see DESIGN.md) are covered; the reference models and the C/C++ toolchain are trusted").c_str());
        j += strf(" \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, nviol);
        writefile(evidence, j);
    }
    fprintf(stderr, "%s %s: %llu cases of %llu, %llu distinct states, %llu transitions, %llu comparisons, %.1f s%s%s\n", prop.c_str(), tier.c_str(), (unsigned long long) cases, (unsigned long long) total, (unsigned long long) sh->distinct, (unsigned long long) transitions, (unsigned long long) comparisons, wall, capped ? " CAPPED" : "", unconfirmed ? " UNCONFIRMED failures" : "");
    rmtree(scratch_root);
    if (nviol > 0)
        return 1;
    if (unconfirmed > 0) {
        bool hang = true;
        for (auto& f : fails)
            if (f.kind != "hang")
                hang = false;
        return hang ? 0 : 2;
    }
    return 0;
}
}

int main(int argc, char** argv)
{
    return mc::main_(argc, argv);
}
