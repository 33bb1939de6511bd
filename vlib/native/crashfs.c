/* LD_PRELOAD library: numbers the state-changing file operations below one directory and ends the process
 * (or fails the call) at a chosen one, with a chosen number of bytes of the interrupted write on disk. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static int armed = 0, logfd = -1, fail_mode = 0, fired = 0, full_disk = 0;
static long count = 0, crash_at = -1, torn = 0;
static char tracked[65536];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); }

void crash_arm(const char *p, long at, long keep, int fail, int log) {
    strncpy(prefix, p, sizeof prefix - 1); crash_at = at; torn = keep; fail_mode = fail; logfd = log; count = 0; fired = 0; full_disk = 0; armed = 1;
    memset(tracked, 0, sizeof tracked);
}
long crash_count(void) { return count; }
int crash_fired(void) { return fired; }
void crash_disarm(void) { armed = 0; }

static int below(const char *p) { return armed && p && strncmp(p, prefix, strlen(prefix)) == 0; }
static int below_at(int dfd, const char *p, char *full) {
    if (!armed || !p) return 0;
    if (p[0] == '/') { strncpy(full, p, PATH_MAX - 1); full[PATH_MAX - 1] = 0; return below(full); }
    if (dfd == AT_FDCWD) { if (!getcwd(full, PATH_MAX)) return 0; }
    else {
        char lnk[64]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dfd);
        ssize_t k = readlink(lnk, full, PATH_MAX - 1); if (k < 0) return 0; full[k] = 0;
    }
    size_t l = strlen(full); snprintf(full + l, PATH_MAX - l, "/%s", p);
    return below(full);
}
/* 0: go on; 1: this is the point */
static int point(const char *op, const char *path, long size) {
    long me = count++;
    if (logfd >= 0) {
        char line[PATH_MAX + 64]; const char *b = strrchr(path, '/');
        int k = snprintf(line, sizeof line, "%ld %s %s %ld\n", me, op, b ? b + 1 : path, size);
        raw_write(logfd, line, (size_t)k);
    }
    if (me != crash_at) return 0;
    fired = 1;
    return 1;
}
static int stop(void) { if (!fail_mode) _exit(137); errno = fail_mode; return -1; }

#define OPEN_BODY(name) \
    mode_t mode = 0; int fd; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int hit = below(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); \
    if (hit && point("open", path, 0)) return stop(); \
    REAL(int, name, const char *, int, ...); fd = real(path, flags, mode); \
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = hit; return fd;
int open(const char *path, int flags, ...) { OPEN_BODY(open) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64) }
#define OPENAT_BODY(name) \
    mode_t mode = 0; int fd; char full[PATH_MAX]; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int hit = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below_at(dfd, path, full); \
    if (hit && point("open", full, 0)) return stop(); \
    REAL(int, name, int, const char *, int, ...); fd = real(dfd, path, flags, mode); \
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = hit; return fd;
int openat(int dfd, const char *path, int flags, ...) { OPENAT_BODY(openat) }
int openat64(int dfd, const char *path, int flags, ...) { OPENAT_BODY(openat64) }

static const char *fdname(int fd, char *buf) {
    char lnk[64]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(lnk, buf, PATH_MAX - 1); if (k < 0) k = 0; buf[k] = 0; return buf;
}
ssize_t write(int fd, const void *b, size_t n) {
    char buf[PATH_MAX];
    if (armed && full_disk && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]) { errno = fail_mode; return -1; }
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && point("write", fdname(fd, buf), (long)n)) {
        size_t k = torn < 0 ? n : (size_t)torn < n ? (size_t)torn : n;
        if (k) {
            raw_write(fd, b, k);
            if (fail_mode) { full_disk = 1; return (ssize_t)k; } /* a short write, every later one fails */
        }
        return stop();
    }
    return raw_write(fd, b, n);
}
int fsync(int fd) {
    char buf[PATH_MAX]; REAL(int, fsync, int);
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && point("fsync", fdname(fd, buf), 0)) return stop();
    return real(fd);
}
int fdatasync(int fd) {
    char buf[PATH_MAX]; REAL(int, fdatasync, int);
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && point("fsync", fdname(fd, buf), 0)) return stop();
    return real(fd);
}
int close(int fd) {
    char buf[PATH_MAX]; REAL(int, close, int);
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]) {
        int hit = point("close", fdname(fd, buf), 0); tracked[fd] = 0;
        if (hit && !fail_mode) return stop();
        if (hit) { real(fd); return stop(); }
    }
    return real(fd);
}
int ftruncate(int fd, off_t len) {
    char buf[PATH_MAX]; REAL(int, ftruncate, int, off_t);
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && point("truncate", fdname(fd, buf), (long)len)) return stop();
    return real(fd, len);
}
int ftruncate64(int fd, off64_t len) {
    char buf[PATH_MAX]; REAL(int, ftruncate64, int, off64_t);
    if (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && point("truncate", fdname(fd, buf), (long)len)) return stop();
    return real(fd, len);
}
int unlink(const char *p) { REAL(int, unlink, const char *); if (below(p) && point("unlink", p, 0)) return stop(); return real(p); }
int unlinkat(int d, const char *p, int f) {
    char full[PATH_MAX]; REAL(int, unlinkat, int, const char *, int);
    if (below_at(d, p, full) && point("unlink", full, 0)) return stop();
    return real(d, p, f);
}
int rmdir(const char *p) { REAL(int, rmdir, const char *); if (below(p) && point("rmdir", p, 0)) return stop(); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (below(p) && point("mkdir", p, 0)) return stop(); return real(p, m); }
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if ((below(a) || below(b)) && point("rename", b, 0)) return stop();
    return real(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
    char fa[PATH_MAX], fb[PATH_MAX]; REAL(int, renameat, int, const char *, int, const char *);
    if ((below_at(da, a, fa) || below_at(db, b, fb)) && point("rename", b, 0)) return stop();
    return real(da, a, db, b);
}
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (below(b) && point("link", b, 0)) return stop(); return real(a, b); }
