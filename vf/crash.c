/* LD_PRELOAD shim: counts the operations that change files below a directory and, at a chosen one,
   stops the process or makes the operation fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, KILL_BEFORE, KILL_TORN, FAIL_ONCE, FAIL_ALWAYS, INTERRUPT };
static char prefix[4096], logfile[4096];
static int mode = OFF, armed_pid;
static long countdown, total;
static int fired;
static unsigned char tracked[65536];

void vf_arm(const char *dir, const char *log, long k, int m) {
    snprintf(prefix, sizeof prefix, "%s", dir);
    snprintf(logfile, sizeof logfile, "%s", log);
    countdown = k; total = 0; fired = 0; armed_pid = getpid(); mode = m;
}

static int inside(const char *path) {
    char buf[8192];
    if (mode == OFF || !path || getpid() != armed_pid) return 0;
    if (path[0] != '/') {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    return strncmp(path, prefix, strlen(prefix)) == 0;
}

static int mine(int fd) { return mode != OFF && fd >= 0 && fd < 65536 && tracked[fd] && getpid() == armed_pid; }

static void stop(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* where the log of questions stood when the fault happened */
static void mark(void) {
    static int (*real_open)(const char *, int, ...);
    static ssize_t (*real_write)(int, const void *, size_t);
    if (!real_open) real_open = dlsym(RTLD_NEXT, "open64");
    if (!real_write) real_write = dlsym(RTLD_NEXT, "write");
    struct stat st;
    char buf[64], path[4200];
    if (fired++) return;
    snprintf(path, sizeof path, "%s.at", logfile);
    int n = snprintf(buf, sizeof buf, "%ld %ld", stat(logfile, &st) == 0 ? (long)st.st_size : 0L, total);
    int fd = real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { real_write(fd, buf, n); close(fd); }
}

/* 0: do the operation; 1: do it (for a write, half of it) and stop; 2: fail */
static int fault(void) {
    total++;
    if (countdown > 0) { countdown--; return 0; }
    if (countdown < 0) return mode == FAIL_ALWAYS ? 2 : 0;
    countdown = -1;
    mark();
    switch (mode) {
    case KILL_BEFORE: stop();
    case KILL_TORN: return 1;
    case FAIL_ONCE: case FAIL_ALWAYS: return 2;
    case INTERRUPT: raise(SIGINT); return 0;
    }
    return 0;
}

#define REAL(name, type, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define GUARD(cond, call, err) \
    int f = (cond) ? fault() : 0; \
    if (f == 2) { errno = err; return -1; } \
    __typeof__(call) r = call; \
    if (f == 1) stop();

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(name, int, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && inside(path); \
    GUARD(w, real(path, flags, m), ENOSPC) \
    if (r >= 0 && r < 65536) tracked[r] = w; \
    return r; \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) { \
    REAL(name, int, int, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && inside(path); \
    GUARD(w, real(dir, path, flags, m), ENOSPC) \
    if (r >= 0 && r < 65536) tracked[r] = w; \
    return r; \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write, ssize_t, int, const void *, size_t);
    if (!mine(fd)) return real(fd, buf, n);
    int f = fault();
    if (f == 2) { errno = ENOSPC; return -1; }
    if (f == 1) { real(fd, buf, n / 2); stop(); }
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    REAL(pwrite64, ssize_t, int, const void *, size_t, off64_t);
    if (!mine(fd)) return real(fd, buf, n, off);
    int f = fault();
    if (f == 2) { errno = ENOSPC; return -1; }
    if (f == 1) { real(fd, buf, n / 2, off); stop(); }
    return real(fd, buf, n, off);
}
int ftruncate64(int fd, off64_t len) { REAL(ftruncate64, int, int, off64_t); GUARD(mine(fd), real(fd, len), EIO) return r; }
int ftruncate(int fd, off_t len) { REAL(ftruncate, int, int, off_t); GUARD(mine(fd), real(fd, len), EIO) return r; }
int truncate64(const char *p, off64_t len) { REAL(truncate64, int, const char *, off64_t); GUARD(inside(p), real(p, len), EIO) return r; }
int fsync(int fd) { REAL(fsync, int, int); GUARD(mine(fd), real(fd), EIO) return r; }
int fdatasync(int fd) { REAL(fdatasync, int, int); GUARD(mine(fd), real(fd), EIO) return r; }
int rename(const char *a, const char *b) { REAL(rename, int, const char *, const char *); GUARD(inside(b), real(a, b), EIO) return r; }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat, int, int, const char *, int, const char *); GUARD(inside(b), real(x, a, y, b), EIO) return r; }
int link(const char *a, const char *b) { REAL(link, int, const char *, const char *); GUARD(inside(b), real(a, b), EIO) return r; }
int unlink(const char *p) { REAL(unlink, int, const char *); GUARD(inside(p), real(p), EIO) return r; }
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat, int, int, const char *, int); GUARD(inside(p), real(d, p, fl), EIO) return r; }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { REAL(sendfile64, ssize_t, int, int, off64_t *, size_t); GUARD(mine(out), real(out, in, off, n), ENOSPC) return r; }
ssize_t copy_file_range(int in, off64_t *o1, int out, off64_t *o2, size_t n, unsigned fl) { REAL(copy_file_range, ssize_t, int, off64_t *, int, off64_t *, size_t, unsigned); GUARD(mine(out), real(in, o1, out, o2, n, fl), ENOSPC) return r; }
int close(int fd) {
    REAL(close, int, int);
    int m = mine(fd);
    GUARD(m && (mode == KILL_BEFORE || mode == KILL_TORN), real(fd), EIO)
    if (fd >= 0 && fd < 65536) tracked[fd] = 0;
    return r;
}
