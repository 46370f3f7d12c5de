/* Simulated disk of the exporter (C18): stands between the program and the kernel and lets the operations of the
 * plan fail, be cut short or be the last ones. Everything it does follows from the plan, so that a run can be
 * repeated exactly. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXPLAN 256

static int started;
static char watched[MAXFD];
static const char *dir;
static int logfd = -1;
static long ops, space = -1;
static struct { long op; char kind; long arg; } plan[MAXPLAN];
static int planned;

static void start(void) {
    if (started) return;
    started = 1;
    dir = getenv("SIMDISK_DIR");
    const char *p = getenv("SIMDISK_PLAN"), *s = getenv("SIMDISK_SPACE"), *l = getenv("SIMDISK_LOG"), *o = getenv("SIMDISK_STDOUT");
    if (s) space = atol(s);
    if (o) watched[1] = 1;
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    while (p && *p && planned < MAXPLAN) {
        char kind;
        long op, arg;
        int n = 0;
        if (sscanf(p, "%ld%c%ld%n", &op, &kind, &arg, &n) != 3) break;
        plan[planned].op = op;
        plan[planned].kind = kind;
        plan[planned++].arg = arg;
        p += n;
        if (*p == ',') p++;
    }
}

static void note(const char *what, long arg) {
    char b[96];
    int n = snprintf(b, sizeof b, "%ld %s %ld\n", ops, what, arg);
    if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}

/* Fault planned for the next operation. e: error, s: short transfer, k: the process is killed before, K: after it. */
static char fault(long *arg, const char *what) {
    char kind = 0;
    for (int i = 0; i < planned; i++)
        if (plan[i].op == ops) {
            kind = plan[i].kind;
            *arg = plan[i].arg;
        }
    if (!kind) note(what, 0);
    ops++;
    if (kind == 'k') {
        ops--;
        note("killed-before", 0);
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    return kind;
}

static void died(void) {
    ops--;
    note("killed-after", 0);
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static int simple(const char *what, char *after) {
    long arg = 0;
    char k = fault(&arg, what);
    *after = k == 'K';
    if (k == 'e') {
        ops--;
        note(what, arg);
        ops++;
        errno = arg;
        return -1;
    }
    return 0;
}

static int ours(int at, const char *path) {
    char full[PATH_MAX * 2];
    if (!dir || !path) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else if (at == AT_FDCWD) {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    } else return 0;
    return strncmp(full, dir, strlen(dir)) == 0;
}

static int do_open(int at, const char *path, int flags, mode_t mode) {
    start();
    char after = 0;
    int mine = ours(at, path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    if (mine && simple("open", &after)) return -1;
    int fd = syscall(SYS_openat, at, path, flags, mode);
    if (mine && fd >= 0 && fd < MAXFD) watched[fd] = 1;
    if (after) died();
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }

int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { MODE(flags) return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE(flags) return do_open(at, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

int close(int fd) {
    start();
    if (fd >= 3 && fd < MAXFD) watched[fd] = 0;
    return syscall(SYS_close, fd);
}

/* How many of the bytes are transferred; -1: none, with errno. */
static ssize_t granted(size_t want, char *after) {
    long arg = 0;
    char k = fault(&arg, "write");
    *after = k == 'K';
    if (k == 'e') {
        ops--;
        note("write-error", arg);
        ops++;
        errno = arg;
        return -1;
    }
    if (k == 's') {
        size_t n = (size_t)arg < want ? (size_t)arg : want;
        ops--;
        note("write-short", n);
        ops++;
        want = n;
    }
    if (space >= 0 && (long)want > space) {
        if (space == 0) {
            ops--;
            note("disk-full", 0);
            ops++;
            errno = ENOSPC;
            return -1;
        }
        ops--;
        note("disk-nearly-full", space);
        ops++;
        want = space;
    }
    return want;
}

static ssize_t done(ssize_t n, char after) {
    if (space >= 0 && n > 0) space -= n;
    if (after) died();
    return n;
}

#define MINE(fd) (fd >= 0 && fd < MAXFD && watched[fd])

ssize_t write(int fd, const void *b, size_t len) {
    start();
    if (!MINE(fd)) return syscall(SYS_write, fd, b, len);
    char after;
    ssize_t n = granted(len, &after);
    if (n < 0) return -1;
    return done(n == 0 ? 0 : syscall(SYS_write, fd, b, n), after);
}

ssize_t writev(int fd, const struct iovec *v, int cnt) {
    start();
    if (!MINE(fd)) return syscall(SYS_writev, fd, v, cnt);
    size_t len = 0;
    for (int i = 0; i < cnt; i++) len += v[i].iov_len;
    char after;
    ssize_t n = granted(len, &after), put = 0;
    if (n < 0) return -1;
    for (int i = 0; i < cnt && put < n; i++) {
        size_t k = v[i].iov_len;
        if ((ssize_t)k > n - put) k = n - put;
        put += syscall(SYS_write, fd, v[i].iov_base, k);
    }
    return done(put, after);
}

ssize_t pwrite64(int fd, const void *b, size_t len, off64_t off) {
    start();
    if (!MINE(fd)) return syscall(SYS_pwrite64, fd, b, len, off);
    char after;
    ssize_t n = granted(len, &after);
    if (n < 0) return -1;
    return done(n == 0 ? 0 : syscall(SYS_pwrite64, fd, b, n, off), after);
}
ssize_t pwrite(int fd, const void *b, size_t len, off_t off) { return pwrite64(fd, b, len, off); }

ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t len, unsigned flags) {
    start();
    if (!MINE(out)) return syscall(SYS_copy_file_range, in, oi, out, oo, len, flags);
    char after;
    ssize_t n = granted(len > 1 << 20 ? 1 << 20 : len, &after);
    if (n < 0) return -1;
    return done(syscall(SYS_copy_file_range, in, oi, out, oo, n, flags), after);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t len) {
    start();
    if (!MINE(out)) return syscall(SYS_sendfile, out, in, off, len);
    char after;
    ssize_t n = granted(len > 1 << 20 ? 1 << 20 : len, &after);
    if (n < 0) return -1;
    return done(syscall(SYS_sendfile, out, in, off, n), after);
}
ssize_t sendfile(int out, int in, off_t *off, size_t len) { return sendfile64(out, in, off, len); }

#define FD_OP(name, sys, what, ...) \
    start(); \
    char after = 0; \
    if (MINE(fd) && simple(what, &after)) return -1; \
    int r = syscall(sys, __VA_ARGS__); \
    if (after) died(); \
    return r;
int fsync(int fd) { FD_OP(fsync, SYS_fsync, "sync", fd) }
int fdatasync(int fd) { FD_OP(fdatasync, SYS_fdatasync, "sync", fd) }
int ftruncate64(int fd, off64_t n) { FD_OP(ftruncate64, SYS_ftruncate, "truncate", fd, n) }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

#define PATH_OP(p, what, call) \
    start(); \
    char after = 0; \
    if (ours(AT_FDCWD, p) && simple(what, &after)) return -1; \
    int r = call; \
    if (after) died(); \
    return r;
int rename(const char *a, const char *b) { PATH_OP(b, "rename", syscall(SYS_rename, a, b)) }
int unlink(const char *p) { PATH_OP(p, "unlink", syscall(SYS_unlink, p)) }
int mkdir(const char *p, mode_t m) { PATH_OP(p, "mkdir", syscall(SYS_mkdir, p, m)) }
int link(const char *a, const char *b) { PATH_OP(b, "link", syscall(SYS_link, a, b)) }
