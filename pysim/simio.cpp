// Preloaded into the simulated Python processes: every operation on a file below the scratch directory goes through
// here, where the scheduler may switch to another process, and where faults are injected.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <new>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C"
{
#define MAXFD 4096
enum { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, NOPS };
enum { ACT_GO, ACT_EIO, ACT_SHORT, ACT_EOF, ACT_EINTR, ACT_ENOSPC, ACT_EMFILE };
static char g_prefix[4096];
static size_t g_plen;
static unsigned char g_watch[MAXFD];
static int g_on;
static int ctl_r = -1, ctl_w = -1; // set in a worker
// the main process: faults by (operation, ordinal)
static struct { int op, act; long n; } g_f[64];
static int g_nf;
static long g_count[NOPS], g_fired;
static unsigned long long g_trace;

static long raw(long n, long a, long b, long c)
{
    return syscall(n, a, b, c);
}
void simio_watch(const char *prefix)
{
    strncpy(g_prefix, prefix, sizeof g_prefix - 1);
    g_plen = strlen(g_prefix);
}
void simio_on(int on) { g_on = on; }
void simio_worker(int r, int w)
{
    ctl_r = r;
    ctl_w = w;
    g_nf = 0;
    memset(g_count, 0, sizeof g_count);
    g_on = 1;
}
void simio_fault(int op, int act, long n)
{
    if (g_nf < 64)
    {
        g_f[g_nf].op = op;
        g_f[g_nf].act = act;
        g_f[g_nf++].n = n;
    }
}
void simio_reset(void)
{
    g_nf = 0;
    g_fired = 0;
    g_trace = 0;
    memset(g_count, 0, sizeof g_count);
}
long simio_count(int op) { return g_count[op]; }
long simio_fired(void) { return g_fired; }
unsigned long long simio_trace(void) { return g_trace; }

static int point(int op, size_t size)
{
    if (!g_on)
        return ACT_GO;
    long n = g_count[op]++;
    if (ctl_w >= 0)
    {
        unsigned char m[6] = {'Y', (unsigned char)op, (unsigned char)size, (unsigned char)(size >> 8), (unsigned char)(size >> 16),
                              (unsigned char)(size >> 24)};
        if (raw(SYS_write, ctl_w, (long)m, 6) != 6)
            _exit(9);
        unsigned char a;
        if (raw(SYS_read, ctl_r, (long)&a, 1) != 1)
            _exit(9);
        return a;
    }
    g_trace = (g_trace ^ (unsigned long long)(op * 1000003 + size)) * 1099511628211ull;
    for (int i = 0; i < g_nf; i++)
        // a full disk and a broken device stay so
        if (g_f[i].op == op && (g_f[i].n == n || (n > g_f[i].n && (g_f[i].act == ACT_ENOSPC || g_f[i].act == ACT_EIO))))
        {
            g_fired++;
            return g_f[i].act;
        }
    return ACT_GO;
}
static int watched(int fd) { return fd >= 0 && fd < MAXFD && g_watch[fd]; }

typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(const char *name, const char *path, const char *mode)
{
    fopen_t f = (fopen_t)dlsym(RTLD_NEXT, name);
    int mine = g_plen && !strncmp(path, g_prefix, g_plen);
    if (mine)
    {
        int a = point(OP_OPEN, 0);
        if (a != ACT_GO && a != ACT_SHORT && a != ACT_EOF)
        {
            errno = a == ACT_EMFILE ? EMFILE : a == ACT_EINTR ? EINTR : EIO;
            return NULL;
        }
    }
    FILE *r = f(path, mode);
    if (r && mine && fileno(r) < MAXFD)
        g_watch[fileno(r)] = 1;
    return r;
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }
int fclose(FILE *f)
{
    static int (*real)(FILE *);
    if (!real)
        real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1;
    if (watched(fd))
    {
        g_watch[fd] = 0;
        int a = point(OP_CLOSE, 0);
        int r = real(f);
        if (a == ACT_EIO || a == ACT_ENOSPC)
        {
            errno = a == ACT_EIO ? EIO : ENOSPC;
            return EOF;
        }
        return r;
    }
    return real(f);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (watched(fd))
    {
        int a = point(OP_READ, n);
        if (a == ACT_EIO || a == ACT_ENOSPC || a == ACT_EMFILE)
        {
            errno = EIO;
            return -1;
        }
        if (a == ACT_EINTR)
        {
            errno = EINTR;
            return -1;
        }
        if (a == ACT_EOF)
            return 0;
        if (a == ACT_SHORT && n > 1)
            n = (n + 1) / 2;
    }
    return raw(SYS_read, fd, (long)b, (long)n);
}
static int wr(int a, size_t *n)
{
    if (a == ACT_EIO || a == ACT_EMFILE || a == ACT_EOF)
    {
        errno = EIO;
        return 1;
    }
    if (a == ACT_ENOSPC)
    {
        errno = ENOSPC;
        return 1;
    }
    if (a == ACT_EINTR)
    {
        errno = EINTR;
        return 1;
    }
    if (a == ACT_SHORT && *n > 1)
        *n = (*n + 1) / 2;
    return 0;
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (watched(fd) && wr(point(OP_WRITE, n), &n))
        return -1;
    return raw(SYS_write, fd, (long)b, (long)n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (watched(fd))
    {
        size_t n = 0, full;
        for (int i = 0; i < c; i++)
            n += v[i].iov_len;
        full = n;
        if (wr(point(OP_WRITE, n), &n))
            return -1;
        if (n < full)
        { // a short write: put out the first n bytes
            size_t done = 0;
            for (int i = 0; i < c && done < n; i++)
            {
                size_t k = v[i].iov_len < n - done ? v[i].iov_len : n - done;
                if (!k)
                    continue;
                long r = raw(SYS_write, fd, (long)v[i].iov_base, (long)k);
                if (r < 0)
                    return done ? (ssize_t)done : -1;
                done += (size_t)r;
            }
            return (ssize_t)done;
        }
    }
    return raw(SYS_writev, fd, (long)v, c);
}
off64_t lseek64(int fd, off64_t o, int w)
{
    if (watched(fd))
    {
        int a = point(OP_SEEK, 0);
        if (a == ACT_EIO)
        {
            errno = EIO;
            return -1;
        }
    }
    return raw(SYS_lseek, fd, (long)o, w);
}
off_t lseek(int fd, off_t o, int w) { return (off_t)lseek64(fd, o, w); }
}

// The library keeps some things in the order of their addresses: addresses grow with every allocation, so that this
// order does not depend on anything outside the simulation.
static char *g_arena, *g_next;
static const size_t ARENA = 3ull << 30, SMALL = 512;
void *operator new(size_t n)
{
    if (n <= SMALL)
    {
        if (!g_arena)
        {
            void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p != MAP_FAILED)
                g_arena = g_next = (char *)p;
        }
        size_t k = (n + 15) & ~(size_t)15;
        if (!k)
            k = 16;
        if (g_arena && g_next + k <= g_arena + ARENA)
        {
            char *p = g_next;
            g_next += k;
            return p;
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept
{
    if ((char *)p >= g_arena && (char *)p < g_arena + ARENA && g_arena)
        return;
    free(p);
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
