/* Ends the process at the k-th operation that changes a file below a directory.
   Loaded with LD_PRELOAD; armed from Python.  mode 0: before the operation; mode 1: in
   the middle of it (half of a write) or right after it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static long target = 0, count = 0;
static int mode = 0;
static char prefix[4096] = "";
static char tracked[4096];

void shim_arm(const char *dir, long k, int m)
{
    strncpy(prefix, dir, sizeof prefix - 1);
    memset(tracked, 0, sizeof tracked);
    count = 0;
    target = k;
    mode = m;
}
void shim_disarm(void) { prefix[0] = 0; }
long shim_count(void) { return count; }

static int mine(const char *path)
{
    if (!prefix[0] || !path) return 0;
    if (path[0] != '/') return 1;  /* the working directory is below the prefix */
    return strncmp(path, prefix, strlen(prefix)) == 0;
}
static int hit(void) { return ++count == target; }
#define BEFORE() do { if (h && mode == 0) _exit(77); } while (0)
#define AFTER() do { if (h) _exit(77); } while (0)

static int opened(int (*real)(int, const char *, int, mode_t), int dir, const char *path,
                  int flags, mode_t m)
{
    int w = mine(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    int h = w && hit();
    BEFORE();
    int fd = real(dir, path, flags, m);
    AFTER();
    if (w && fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1;
    return fd;
}
static int via_open(int d, const char *p, int f, mode_t m)
{
    static int (*r)(const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "open64");
    return r(p, f, m);
}
static int via_openat(int d, const char *p, int f, mode_t m)
{
    static int (*r)(int, const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "openat64");
    return r(d, p, f, m);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return opened(via_open, 0, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return opened(via_open, 0, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return opened(via_openat, d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return opened(via_openat, d, p, flags, m); }

ssize_t write(int fd, const void *buf, size_t n)
{
    static ssize_t (*r)(int, const void *, size_t);
    if (!r) r = dlsym(RTLD_NEXT, "write");
    if (prefix[0] && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]) {
        int h = hit();
        BEFORE();
        if (h) { r(fd, buf, n / 2); _exit(77); }
    }
    return r(fd, buf, n);
}
int close(int fd)
{
    static int (*r)(int);
    if (!r) r = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
    return r(fd);
}
int ftruncate64(int fd, off64_t n)
{
    static int (*r)(int, off64_t);
    if (!r) r = dlsym(RTLD_NEXT, "ftruncate64");
    int h = prefix[0] && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && hit();
    BEFORE();
    int x = r(fd, n);
    AFTER();
    return x;
}
#define TWO(NAME, ARGS, CALL, PATHS) int NAME ARGS { static int (*r) ARGS; \
    if (!r) r = dlsym(RTLD_NEXT, #NAME); \
    int h = (PATHS) && hit(); BEFORE(); int x = r CALL; AFTER(); return x; }
TWO(rename, (const char *a, const char *b), (a, b), mine(a) || mine(b))
TWO(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), mine(a) || mine(b))
TWO(renameat2, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), mine(a) || mine(b))
TWO(unlink, (const char *a), (a), mine(a))
TWO(unlinkat, (int d, const char *a, int f), (d, a, f), mine(a))
TWO(remove, (const char *a), (a), mine(a))
TWO(link, (const char *a, const char *b), (a, b), mine(b))
TWO(symlink, (const char *a, const char *b), (a, b), mine(b))
TWO(truncate64, (const char *a, off64_t n), (a, n), mine(a))
