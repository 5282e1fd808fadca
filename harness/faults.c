// Preloaded into the code generator: injects faults into the I/O operations on the output and controls the environment
// (order of addresses returned by the allocator, clock) so all of this can be enumerated by C16.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static const char *outdir, *plan, *openplan;
static int closeplan;
static size_t outdirlen;
static int tracefd = -1, nop;
static long long offset;
static unsigned char tracked[1024];

__attribute__((constructor)) static void init(void)
{
    const char *v;
    if ((v = getenv("RRJ_FSIZE"))) {
        struct rlimit l = { strtoull(v, 0, 10), strtoull(v, 0, 10) };
        setrlimit(RLIMIT_FSIZE, &l);
        signal(SIGXFSZ, SIG_IGN);
    }
    if (getenv("RRJ_NOSIGPIPE"))
        signal(SIGPIPE, SIG_IGN);
    outdir = getenv("RRJ_OUTDIR");
    outdirlen = outdir ? strlen(outdir) : 0;
    plan = getenv("RRJ_PLAN");
    openplan = getenv("RRJ_OPEN");
    closeplan = getenv("RRJ_CLOSE") != 0;
    if ((v = getenv("RRJ_TRACE"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND, 0600);
        tracefd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 500); // do not take the place of a closed standard stream
        syscall(SYS_close, fd);
    }
    if ((v = getenv("RRJ_TIME")))
        offset = atoll(v);
}

static void note(char kind, char what)
{
    if (tracefd >= 0) {
        char b[2] = { kind, what };
        syscall(SYS_write, tracefd, b, 2);
    }
}

static int relevant(const char *path, int writing)
{
    return outdir && writing && path && !strncmp(path, outdir, outdirlen);
}

static int fail_open(const char *path, int writing)
{
    if (!relevant(path, writing))
        return 0;
    int e = openplan ? atoi(openplan) : 0;
    note('o', e ? 'e' : 'o');
    return e;
}

static void track(const char *path, int writing, int fd)
{
    if (fd >= 0 && fd < (int)sizeof(tracked))
        tracked[fd] = relevant(path, writing);
}

#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

#define FOPEN(name)                                                                                                                                  \
    FILE *name(const char *path, const char *mode)                                                                                                   \
    {                                                                                                                                                \
        int w = strpbrk(mode, "wa+") != 0, e = fail_open(path, w);                                                                                   \
        if (e) {                                                                                                                                     \
            errno = e;                                                                                                                               \
            return 0;                                                                                                                                \
        }                                                                                                                                            \
        FILE *f = NEXT(name)(path, mode);                                                                                                            \
        if (f)                                                                                                                                       \
            track(path, w, fileno(f));                                                                                                               \
        return f;                                                                                                                                    \
    }
FOPEN(fopen)
FOPEN(fopen64)

#define OPEN(name)                                                                                                                                   \
    int name(const char *path, int flags, ...)                                                                                                       \
    {                                                                                                                                                \
        va_list l;                                                                                                                                   \
        va_start(l, flags);                                                                                                                          \
        int m = va_arg(l, int), w = (flags & O_ACCMODE) != O_RDONLY, e = fail_open(path, w);                                                         \
        va_end(l);                                                                                                                                   \
        if (e) {                                                                                                                                     \
            errno = e;                                                                                                                               \
            return -1;                                                                                                                               \
        }                                                                                                                                            \
        int fd = NEXT(name)(path, flags, m);                                                                                                         \
        track(path, w, fd);                                                                                                                          \
        return fd;                                                                                                                                   \
    }
OPEN(open)
OPEN(open64)

// returns the number of bytes to transfer or -1
static ssize_t step(size_t n)
{
    char c = plan && nop < (int)strlen(plan) ? plan[nop] : 'o';
    ++nop;
    note('w', c);
    switch (c) {
    case 'e':
        errno = EIO;
        return -1;
    case 's':
        errno = ENOSPC;
        return -1;
    case 'i':
        errno = EINTR;
        return -1;
    case '1':
        return n ? 1 : 0;
    case 'h':
        return n > 1 ? n / 2 : n;
    }
    return n;
}

ssize_t write(int fd, const void *b, size_t n)
{
    if (fd >= 0 && fd < (int)sizeof(tracked) && tracked[fd]) {
        ssize_t r = step(n);
        if (r < 0)
            return r;
        n = r;
    }
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int count)
{
    if (fd >= 0 && fd < (int)sizeof(tracked) && tracked[fd]) {
        size_t n = 0;
        for (int i = 0; i < count; ++i)
            n += v[i].iov_len;
        ssize_t r = step(n);
        if (r < 0)
            return r;
        if ((size_t)r < n) {
            ssize_t done = 0;
            for (int i = 0; i < count && done < r; ++i) {
                size_t m = v[i].iov_len < (size_t)(r - done) ? v[i].iov_len : (size_t)(r - done);
                ssize_t k = syscall(SYS_write, fd, v[i].iov_base, m);
                if (k < 0)
                    return done ? done : k;
                done += k;
                if ((size_t)k < m)
                    break;
            }
            return done;
        }
    }
    return syscall(SYS_writev, fd, v, count);
}

static int closing(int fd)
{
    if (fd < 0 || fd >= (int)sizeof(tracked) || !tracked[fd])
        return 0;
    tracked[fd] = 0;
    note('c', closeplan ? 'e' : 'o');
    return closeplan;
}

int close(int fd)
{
    int e = closing(fd), r = syscall(SYS_close, fd);
    if (e && !r) {
        errno = EIO;
        return -1;
    }
    return r;
}

int fclose(FILE *f)
{
    int e = closing(fileno(f)), r = NEXT(fclose)(f);
    if (e && !r) {
        errno = EIO;
        return EOF;
    }
    return r;
}

// ---- clock
int clock_gettime(clockid_t c, struct timespec *t)
{
    int r = syscall(SYS_clock_gettime, c, t);
    t->tv_sec += offset;
    return r;
}

time_t time(time_t *t)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t)
        *t = s.tv_sec;
    return s.tv_sec;
}

int gettimeofday(struct timeval *t, void *z)
{
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
