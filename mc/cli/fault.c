/* LD_PRELOAD: counts the operations that change files below FAULT_DIR and makes one of them fail.
 *
 * FAULT_AT=<k>       the k-th operation (from 0)
 * FAULT_KIND=        kill      the process ends before it
 *                    torn:<n>  a write stores only n bytes, then the process ends
 *                    short:<n> a write stores only n bytes
 *                    error:<e> it fails with errno e
 * FAULT_STDOUT=1     standard output counts as such a file
 * FAULT_READS=1      operations that only look at such files count too
 * The operation is described on fd 9 when that is open.
 *
 * FAULT_STEP=1       lockstep (with FAULT_READS=1): before each operation its name goes to fd 9 and a
 *                    byte is read from fd 8; without one the process ends */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long step;
static char ours[1024];

static int below(const char *path) {
    const char *dir = getenv("FAULT_DIR");
    char full[8192];
    if (!dir || !path) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    }
    return !strncmp(full, dir, strlen(dir));
}
static int mine(int fd) {
    /* standard output too, when asked for */
    if (fd == 1 && getenv("FAULT_STDOUT")) return 1;
    return fd >= 0 && fd < (int)sizeof ours && ours[fd] == 1;
}
static int read_from(int fd) { return fd >= 0 && fd < (int)sizeof ours && ours[fd] == 2; }
static int reads(void) { return getenv("FAULT_READS") != NULL; }

static void gate(const char *what) {
    char line[64], c;
    int n = snprintf(line, sizeof line, "%s\n", what);
    if (write(9, line, n) < 0) _exit(137);
    ssize_t r;
    do r = read(8, &c, 1); while (r < 0 && errno == EINTR);
    if (r != 1) _exit(137);
}

/* -1: carry on; otherwise the number of bytes to write, or -2 with errno set */
static long fault(const char *what, size_t len) {
    const char *at = getenv("FAULT_AT"), *kind = getenv("FAULT_KIND");
    if (getenv("FAULT_STEP")) { gate(what); return -1; }
    long here = step++;
    if (!at || !kind || atol(at) != here) return -1;
    char line[256];
    int n = snprintf(line, sizeof line, "%s %s\n", kind, what);
    if (write(9, line, n) < 0) {}
    if (!strcmp(kind, "kill")) _exit(137);
    if (!strncmp(kind, "error:", 6)) { errno = atoi(kind + 6); return -2; }
    if (!strncmp(kind, "torn:", 5) || !strncmp(kind, "short:", 6)) {
        long k = atol(strchr(kind, ':') + 1);
        if (len) return k < (long)len ? k : (long)len;
        if (kind[0] == 't') _exit(137);
    }
    return -1;
}
#define REAL(name, ...) static __typeof__(__VA_ARGS__) real; if (!real) real = (__typeof__(__VA_ARGS__))dlsym(RTLD_NEXT, name)

typedef int (*open_t)(const char *, int, ...);
typedef int (*openat_t)(int, const char *, int, ...);
static int opened(int fd, int watch) { if (fd >= 0 && fd < (int)sizeof ours) ours[fd] = watch; return fd; }
#define OPEN(NAME) \
    int NAME(const char *p, int flags, ...) { \
        REAL(#NAME, open_t); \
        va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
        int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below(p); \
        int r = !w && reads() && below(p); \
        if (w && fault("open", 0) == -2) return -1; \
        if (r && fault("look", 0) == -2) return -1; \
        return opened(real(p, flags, mode), w ? 1 : r ? 2 : 0); \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
    int NAME(int d, const char *p, int flags, ...) { \
        REAL(#NAME, openat_t); \
        va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
        int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below(p); \
        int r = !w && reads() && below(p); \
        if (w && fault("open", 0) == -2) return -1; \
        if (r && fault("look", 0) == -2) return -1; \
        return opened(real(d, p, flags, mode), w ? 1 : r ? 2 : 0); \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL("write", ssize_t (*)(int, const void *, size_t));
    if (mine(fd)) {
        long k = fault("write", n);
        if (k == -2) return -1;
        if (k >= 0) {
            ssize_t r = real(fd, b, k);
            if (!strncmp(getenv("FAULT_KIND"), "torn", 4)) _exit(137);
            return r;
        }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t (*)(int, const struct iovec *, int));
    if (mine(fd)) {
        if (c < 1) return 0;
        return write(fd, v[0].iov_base, v[0].iov_len);
    }
    return real(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL("copy_file_range", ssize_t (*)(int, off64_t *, int, off64_t *, size_t, unsigned));
    if (mine(b)) {
        long k = fault("copy", n);
        if (k == -2) return -1;
        if (k >= 0) {
            ssize_t r = real(a, ao, b, bo, k, f);
            if (!strncmp(getenv("FAULT_KIND"), "torn", 4)) _exit(137);
            return r;
        }
    }
    return real(a, ao, b, bo, n, f);
}
int close(int fd) {
    REAL("close", int (*)(int));
    if ((mine(fd) || read_from(fd)) && fd != 1) {
        /* closing may give up a lock */
        if (getenv("FAULT_STEP")) gate("close");
        ours[fd] = 0;
    }
    return real(fd);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL("read", ssize_t (*)(int, void *, size_t));
    if (read_from(fd) && fault("read", 0) == -2) return -1;
    return real(fd, b, n);
}
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
    REAL("statx", int (*)(int, const char *, int, unsigned, struct statx *));
    const char *volatile name = p; /* callers do pass NULL */
    if (reads() && name && *name && below(name) && fault("stat", 0) == -2) return -1;
    return real(d, p, f, m, s);
}
int flock(int fd, int op) {
    REAL("flock", int (*)(int, int));
    if (!mine(fd) && !read_from(fd)) return real(fd, op);
    if (fault("flock", 0) == -2) return -1;
    if (!getenv("FAULT_STEP") || op == LOCK_UN) return real(fd, op);
    for (;;) {
        int r = real(fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
        gate("blocked");
    }
}
#define FD1(NAME, WHAT, PARAMS, ARGS) \
    int NAME PARAMS { \
        REAL(#NAME, int (*) PARAMS); \
        if (mine(fd) && fault(WHAT, 0) == -2) return -1; \
        return real ARGS; \
    }
FD1(fsync, "fsync", (int fd), (fd))
FD1(fdatasync, "fsync", (int fd), (fd))
FD1(ftruncate, "truncate", (int fd, off_t n), (fd, n))
FD1(ftruncate64, "truncate", (int fd, off64_t n), (fd, n))
FD1(fchmod, "chmod", (int fd, mode_t m), (fd, m))
#define PATH1(NAME, WHAT, PARAMS, ARGS) \
    int NAME PARAMS { \
        REAL(#NAME, int (*) PARAMS); \
        if (below(p) && fault(WHAT, 0) == -2) return -1; \
        return real ARGS; \
    }
PATH1(unlink, "unlink", (const char *p), (p))
PATH1(chmod, "chmod", (const char *p, mode_t m), (p, m))
PATH1(mkdir, "mkdir", (const char *p, mode_t m), (p, m))
PATH1(rename, "rename", (const char *p, const char *q), (p, q))
PATH1(link, "link", (const char *p, const char *q), (p, q))
PATH1(truncate, "truncate", (const char *p, off_t n), (p, n))
PATH1(truncate64, "truncate", (const char *p, off64_t n), (p, n))
int renameat(int a, const char *p, int b, const char *q) {
    REAL("renameat", int (*)(int, const char *, int, const char *));
    if (below(p) && fault("rename", 0) == -2) return -1;
    return real(a, p, b, q);
}
int renameat2(int a, const char *p, int b, const char *q, unsigned f) {
    REAL("renameat2", int (*)(int, const char *, int, const char *, unsigned));
    if (below(p) && fault("rename", 0) == -2) return -1;
    return real(a, p, b, q, f);
}
int unlinkat(int d, const char *p, int f) {
    REAL("unlinkat", int (*)(int, const char *, int));
    if (below(p) && fault("unlink", 0) == -2) return -1;
    return real(d, p, f);
}
