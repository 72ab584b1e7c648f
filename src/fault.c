/*
 * Fault injector for the inputs of a tool (preloaded).  The file MC_FAULT_FILE ("-" for the standard
 * input) delivers MC_FAULT_AT bytes in pieces of at most MC_FAULT_PIECE bytes, and then an error; -1
 * is no error.  A delivered error is noted in the file MC_FAULT_NOTE.
 *
 * The standard output: MC_OUT_FAIL=n makes the n-th piece of MC_OUT_PIECE bytes fail to be written (once),
 * which is noted in the file MC_FAULT_NOTE.
 *
 * Other circumstances of a run: MC_CLOCK=n sets the clocks, the identifiers of the process and the
 * random bytes of the system; MC_ENV=value is the value of every variable that is not in the environment.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>

static long left;
static long piece;

extern char** environ;

static char* var(const char* name)
{
    size_t n = strlen(name);
    char** e;

    for (e = environ; e != NULL && *e != NULL; ++e)
        if (strncmp(*e, name, n) == 0 && (*e)[n] == '=')
            return *e + n + 1;
    return NULL;
}

char* getenv(const char* name)
{
    char* v = var(name);

    return v != NULL ? v : var("MC_ENV");
}

char* secure_getenv(const char* name)
{
    return getenv(name);
}

static long long clk(void)
{
    char* v = var("MC_CLOCK");

    return v != NULL ? atoll(v) : -1;
}

time_t time(time_t* t)
{
    struct timespec ts;
    time_t r;

    if (clk() >= 0)
        r = clk();
    else
        r = ((int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime")) (CLOCK_REALTIME, &ts) == 0 ? ts.tv_sec : -1;
    if (t != NULL)
        *t = r;
    return r;
}

int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (clk() >= 0) {
        ts->tv_sec = clk();
        ts->tv_nsec = clk() % 1000 * 999999;
        return 0;
    }
    return ((int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime")) (id, ts);
}

int gettimeofday(struct timeval* restrict tv, void* restrict tz)
{
    struct timespec ts;

    (void) tz;
    if (clock_gettime(CLOCK_REALTIME, &ts) != 0)
        return -1;
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

clock_t clock(void)
{
    if (clk() >= 0)
        return clk() % 100003;
    return ((clock_t (*)(void)) dlsym(RTLD_NEXT, "clock")) ();
}

pid_t getpid(void)
{
    if (clk() >= 0)
        return 2 + clk() % 29989;
    return ((pid_t (*)(void)) dlsym(RTLD_NEXT, "getpid")) ();
}

pid_t getppid(void)
{
    if (clk() >= 0)
        return 2 + clk() % 29983;
    return ((pid_t (*)(void)) dlsym(RTLD_NEXT, "getppid")) ();
}

ssize_t getrandom(void* buf, size_t n, unsigned flags)
{
    if (clk() >= 0) {
        memset(buf, clk() % 251, n);
        return n;
    }
    return ((ssize_t (*)(void*, size_t, unsigned)) dlsym(RTLD_NEXT, "getrandom")) (buf, n, flags);
}

static ssize_t rd(void* c, char* buf, size_t n)
{
    int fd = (int) (long) c;
    ssize_t r;

    if (left == 0) {
        int note = open(var("MC_FAULT_NOTE"), O_WRONLY | O_APPEND);

        if (note >= 0) {
            (void) !write(note, "x", 1);
            close(note);
        }
        errno = EIO;
        return -1;
    }
    if (piece > 0 && n > (size_t) piece)
        n = (size_t) piece;
    if (left > 0 && n > (size_t) left)
        n = (size_t) left;
    r = read(fd, buf, n);
    if (r > 0 && left > 0)
        left -= r;
    return r;
}

static int cl(void* c)
{
    return close((int) (long) c);
}

static FILE* wrap(int fd)
{
    cookie_io_functions_t io = { rd, NULL, NULL, cl };

    return fopencookie((void*) (long) fd, "r", io);
}

static long outleft;
static char outbuf[4096];

static ssize_t wr(void* c, const char* buf, size_t n)
{
    size_t done = 0;

    if (--outleft == 0) {
        int note = open(var("MC_FAULT_NOTE"), O_WRONLY | O_APPEND);

        if (note >= 0) {
            (void) !write(note, "x", 1);
            close(note);
        }
        errno = ENOSPC;
        return 0;
    }
    while (done < n) {
        ssize_t r = write((int) (long) c, buf + done, n - done);

        if (r <= 0)
            return (ssize_t) done;
        done += (size_t) r;
    }
    return (ssize_t) done;
}

static FILE* faulty(const char* path, const char* mode, const char* sym)
{
    FILE* (*f)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, sym);
    const char* name = var("MC_FAULT_FILE");

    if (name != NULL && strcmp(name, path) == 0 && mode[0] == 'r') {
        int fd = open(path, O_RDONLY | O_CLOEXEC);

        return fd < 0 ? NULL : wrap(fd);
    }
    return f(path, mode);
}

FILE* fopen(const char* path, const char* mode)
{
    return faulty(path, mode, "fopen");
}

FILE* fopen64(const char* path, const char* mode)
{
    return faulty(path, mode, "fopen64");
}

__attribute__((constructor)) static void init(void)
{
    const char* name = var("MC_FAULT_FILE");

    left = var("MC_FAULT_AT") ? atol(var("MC_FAULT_AT")) : -1;
    piece = var("MC_FAULT_PIECE") ? atol(var("MC_FAULT_PIECE")) : 0;
    if (name != NULL && strcmp(name, "-") == 0)
        stdin = wrap(0);
    if (var("MC_OUT_FAIL") != NULL) {
        cookie_io_functions_t io = { NULL, wr, NULL, NULL };

        outleft = atol(var("MC_OUT_FAIL"));
        stdout = fopencookie((void*) 1L, "w", io);
        setvbuf(stdout, outbuf, _IOFBF, (size_t) atol(var("MC_OUT_PIECE")));
    }
}
