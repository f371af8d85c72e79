/* LD_PRELOAD library: every call of the C library that touches a path below the
   armed directory is numbered and logged; up to two calls are made to fail, to be
   cut short, to be the last thing the process does, or to interrupt it. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, ERROR, CRASH, TORN, SHORT, INTERRUPT, FULL, PART };
static char dir[PATH_MAX];
static size_t dirlen;
static int armed, counter, full;
static struct { int at, kind, err; } plan[4];
static int nplan;
static char *fdpath[1024];
static char log_[1 << 20];
static size_t loglen;

void fault_arm(const char *d) {
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    counter = nplan = full = 0;
    loglen = 0;
    log_[0] = 0;
    armed = 1;
}
void fault_at(int at, int kind, int err) {
    plan[nplan].at = at;
    plan[nplan].kind = kind;
    plan[nplan++].err = err;
}
const char *fault_log(void) { armed = 0; return log_; }

static int inside(const char *path, char *out) {
    char buf[PATH_MAX];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (syscall(SYS_getcwd, buf, sizeof buf) < 0) return 0;
        snprintf(out, PATH_MAX, "%.2000s/%.2000s", buf, path);
    } else
        snprintf(out, PATH_MAX, "%.4000s", path);
    return strncmp(out, dir, dirlen) == 0 && (out[dirlen] == '/' || out[dirlen] == 0);
}
static int insidefd(int fd, char *out) {
    if (!armed || fd < 0 || fd >= 1024 || !fdpath[fd]) return 0;
    snprintf(out, PATH_MAX, "%.4000s", fdpath[fd]);
    return 1;
}
static int at_path(int dfd, const char *path, char *out) {
    char base[PATH_MAX];
    if (dfd == AT_FDCWD || (path && path[0] == '/')) return inside(path, out);
    if (!insidefd(dfd, base)) return 0;
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path ? path : "");
    return 1;
}

/* Number the call; what is planned for it. */
static int hit(const char *name, const char *path, int *err, int writes) {
    int i, kind = NONE;
    counter++;
    for (i = 0; i < nplan; i++)
        if (plan[i].at == counter) {
            kind = plan[i].kind;
            *err = plan[i].err;
        }
    if (loglen + PATH_MAX + 64 < sizeof log_)
        loglen += sprintf(log_ + loglen, "%s %s\n", name, path);
    if (kind == FULL) full = 1;
    if (full && writes) { *err = ENOSPC; return ERROR; }
    if (kind == FULL) return NONE;
    if (kind == CRASH) syscall(SYS_exit_group, 77);
    if (kind == INTERRUPT) { raise(SIGINT); return NONE; }
    return kind;
}

#define REAL(ret, name, args) \
    static ret(*real) args; \
    if (!real) real = (ret(*) args)dlsym(RTLD_NEXT, #name)
#define FAULT(cond, name, writes, fail) \
    char p_[PATH_MAX]; \
    if (cond) { \
        int e_ = 0, k_ = hit(name, p_, &e_, writes); \
        if (k_ == ERROR) { errno = e_; return fail; } \
        (void)k_; \
    }

static void track(int fd, const char *path) {
    if (fd >= 0 && fd < 1024) { free(fdpath[fd]); fdpath[fd] = strdup(path); }
}

#define OPEN(fname) \
    int fname(const char *path, int flags, ...) { \
        mode_t mode = 0; \
        va_list ap; \
        va_start(ap, flags); \
        if (flags & (O_CREAT | __O_TMPFILE)) mode = va_arg(ap, mode_t); \
        va_end(ap); \
        REAL(int, fname, (const char *, int, ...)); \
        char p_[PATH_MAX]; \
        int in = inside(path, p_); \
        if (in) { \
            int e = 0, k = hit(flags & O_CREAT ? "create" : (flags & O_ACCMODE) ? "openw" : "open", p_, &e, flags & O_CREAT); \
            if (k == ERROR) { errno = e; return -1; } \
        } \
        int fd = real(path, flags, mode); \
        if (in) track(fd, p_); \
        return fd; \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(fname) \
    int fname(int dfd, const char *path, int flags, ...) { \
        mode_t mode = 0; \
        va_list ap; \
        va_start(ap, flags); \
        if (flags & (O_CREAT | __O_TMPFILE)) mode = va_arg(ap, mode_t); \
        va_end(ap); \
        REAL(int, fname, (int, const char *, int, ...)); \
        char p_[PATH_MAX]; \
        int in = at_path(dfd, path, p_); \
        if (in) { \
            int e = 0, k = hit(flags & O_CREAT ? "create" : (flags & O_ACCMODE) ? "openw" : "open", p_, &e, flags & O_CREAT); \
            if (k == ERROR) { errno = e; return -1; } \
        } \
        int fd = real(dfd, path, flags, mode); \
        if (in) track(fd, p_); \
        return fd; \
    }
OPENAT(openat)
OPENAT(openat64)

static ssize_t plain_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    char p[PATH_MAX];
    if (insidefd(fd, p)) {
        int e = 0, k = hit("write", p, &e, 1);
        if (k == ERROR) { errno = e; return -1; }
        if (k == TORN) { plain_write(fd, b, n / 2); syscall(SYS_exit_group, 77); }
        if (k == SHORT) return plain_write(fd, b, n > 1 ? n / 2 : n);
        if (k == PART) { /* the disk is full in the middle of the write */
            full = 1;
            return plain_write(fd, b, n > 1 ? n / 2 : n);
        }
    }
    return plain_write(fd, b, n);
}
#define PWRITE(fname) \
    ssize_t fname(int fd, const void *b, size_t n, off_t o) { \
        REAL(ssize_t, fname, (int, const void *, size_t, off_t)); \
        FAULT(insidefd(fd, p_), "write", 1, -1) \
        return real(fd, b, n, o); \
    }
PWRITE(pwrite)
PWRITE(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    FAULT(insidefd(fd, p_), "write", 1, -1)
    return real(fd, v, n);
}
#define SENDFILE(fname) \
    ssize_t fname(int o, int i, off_t *f, size_t n) { \
        REAL(ssize_t, fname, (int, int, off_t *, size_t)); \
        FAULT(insidefd(o, p_), "write", 1, -1) \
        return real(o, i, f, n); \
    }
SENDFILE(sendfile)
SENDFILE(sendfile64)
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    FAULT(insidefd(o, p_), "write", 1, -1)
    return real(i, io, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, (int, void *, size_t));
    char p[PATH_MAX];
    if (insidefd(fd, p)) {
        int e = 0, k = hit("read", p, &e, 0);
        if (k == ERROR) { errno = e; return -1; }
        if (k == SHORT) return real(fd, b, n > 7 ? 7 : 1);
    }
    return real(fd, b, n);
}
int close(int fd) {
    REAL(int, close, (int));
    char p[PATH_MAX];
    if (insidefd(fd, p)) {
        int e = 0, k = hit("close", p, &e, 0);
        free(fdpath[fd]);
        fdpath[fd] = 0;
        if (k == ERROR) { real(fd); errno = e; return -1; }
    }
    return real(fd);
}
#define PATHCALL(ret, fname, label, writes, decl, args, path, fail) \
    ret fname decl { \
        REAL(ret, fname, decl); \
        FAULT(inside(path, p_), label, writes, fail) \
        return real args; \
    }
#define FDCALL(ret, fname, label, decl, args, fd, fail) \
    ret fname decl { \
        REAL(ret, fname, decl); \
        FAULT(insidefd(fd, p_), label, 0, fail) \
        return real args; \
    }
#define ATCALL(ret, fname, label, decl, args, dfd, path, fail) \
    ret fname decl { \
        REAL(ret, fname, decl); \
        FAULT(at_path(dfd, path, p_), label, 0, fail) \
        return real args; \
    }
PATHCALL(int, rename, "rename", 0, (const char *a, const char *b), (a, b), b, -1)
ATCALL(int, renameat, "rename", (int f, const char *a, int d, const char *b), (f, a, d, b), d, b, -1)
ATCALL(int, renameat2, "rename", (int f, const char *a, int d, const char *b, unsigned x), (f, a, d, b, x), d, b, -1)
PATHCALL(int, link, "link", 0, (const char *a, const char *b), (a, b), b, -1)
ATCALL(int, linkat, "link", (int f, const char *a, int d, const char *b, int x), (f, a, d, b, x), d, b, -1)
PATHCALL(int, symlink, "link", 0, (const char *a, const char *b), (a, b), b, -1)
PATHCALL(int, unlink, "unlink", 0, (const char *a), (a), a, -1)
ATCALL(int, unlinkat, "unlink", (int d, const char *a, int x), (d, a, x), d, a, -1)
PATHCALL(int, rmdir, "unlink", 0, (const char *a), (a), a, -1)
PATHCALL(int, mkdir, "mkdir", 0, (const char *a, mode_t m), (a, m), a, -1)
PATHCALL(int, chmod, "chmod", 0, (const char *a, mode_t m), (a, m), a, -1)
FDCALL(int, fchmod, "chmod", (int f, mode_t m), (f, m), f, -1)
ATCALL(int, fchmodat, "chmod", (int d, const char *a, mode_t m, int x), (d, a, m, x), d, a, -1)
PATHCALL(int, chown, "chown", 0, (const char *a, uid_t u, gid_t g), (a, u, g), a, -1)
FDCALL(int, fchown, "chown", (int f, uid_t u, gid_t g), (f, u, g), f, -1)
ATCALL(int, fchownat, "chown", (int d, const char *a, uid_t u, gid_t g, int x), (d, a, u, g, x), d, a, -1)
PATHCALL(int, truncate, "truncate", 0, (const char *a, off_t n), (a, n), a, -1)
PATHCALL(int, truncate64, "truncate", 0, (const char *a, off64_t n), (a, n), a, -1)
FDCALL(int, ftruncate, "truncate", (int f, off_t n), (f, n), f, -1)
FDCALL(int, ftruncate64, "truncate", (int f, off64_t n), (f, n), f, -1)
FDCALL(int, fsync, "fsync", (int f), (f), f, -1)
FDCALL(int, fdatasync, "fsync", (int f), (f), f, -1)
PATHCALL(int, access, "access", 0, (const char *a, int m), (a, m), a, -1)
ATCALL(int, faccessat, "access", (int d, const char *a, int m, int x), (d, a, m, x), d, a, -1)
ATCALL(int, utimensat, "utime", (int d, const char *a, const struct timespec t[2], int x), (d, a, t, x), d, a, -1)
PATHCALL(int, stat, "stat", 0, (const char *a, struct stat *s), (a, s), a, -1)
PATHCALL(int, stat64, "stat", 0, (const char *a, struct stat64 *s), (a, s), a, -1)
PATHCALL(int, lstat, "lstat", 0, (const char *a, struct stat *s), (a, s), a, -1)
PATHCALL(int, lstat64, "lstat", 0, (const char *a, struct stat64 *s), (a, s), a, -1)
FDCALL(int, fstat, "fstat", (int f, struct stat *s), (f, s), f, -1)
FDCALL(int, fstat64, "fstat", (int f, struct stat64 *s), (f, s), f, -1)
ATCALL(int, fstatat, "stat", (int d, const char *a, struct stat *s, int x), (d, a, s, x), d, a, -1)
ATCALL(int, fstatat64, "stat", (int d, const char *a, struct stat64 *s, int x), (d, a, s, x), d, a, -1)
PATHCALL(DIR *, opendir, "opendir", 0, (const char *a), (a), a, NULL)
FDCALL(off_t, lseek, "seek", (int f, off_t o, int w), (f, o, w), f, -1)
FDCALL(off64_t, lseek64, "seek", (int f, off64_t o, int w), (f, o, w), f, -1)
