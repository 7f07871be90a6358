/* Preloaded into the application: records, fails or cuts short at calls dealing with files in the
 * directory PFPV_DIR. PFPV_LOG is where calls are recorded. PFPV_FAULT is "<mode> <k> <errno>", it
 * concerns the k-th call:
 *   n  no fault
 *   e  the call fails      E  this and all the following calls fail
 *   s  only half of the data is written or read, the next write fails
 *   b  killed before the call       a  killed after the call */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static size_t dir_len;
static int log_fd = -1;
static char mode = 'n';
static int fault_at = -1, fault_errno = EIO;
static int count, short_done, active;

__attribute__((constructor)) static void init(void) {
    const char *d = getenv("PFPV_DIR"), *l = getenv("PFPV_LOG"), *f = getenv("PFPV_FAULT");
    if (!d || !l || !f) return;
    strncpy(dir, d, sizeof dir - 1);
    dir_len = strlen(dir);
    log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    sscanf(f, "%c %d %d", &mode, &fault_at, &fault_errno);
    active = log_fd >= 0;
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

static void put(const char *s, size_t n) {
    while (n) {
        long r = syscall(SYS_write, log_fd, s, n);
        if (r <= 0) return;
        s += r;
        n -= r;
    }
}

static int absolute(int at, const char *path, char *out) {
    if (!path) return 0;
    if (path[0] == '/') {
        snprintf(out, PATH_MAX, "%s", path);
    } else {
        char link[64], base[PATH_MAX];
        ssize_t n;
        if (at == AT_FDCWD) snprintf(link, sizeof link, "/proc/self/cwd");
        else snprintf(link, sizeof link, "/proc/self/fd/%d", at);
        n = syscall(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
        if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    }
    return 1;
}

static int inside(const char *path) {
    return !strncmp(path, dir, dir_len) && (path[dir_len] == '/' || !path[dir_len]);
}

static int path_in(int at, const char *path, char *out) {
    return active && absolute(at, path, out) && inside(out);
}

static int fd_in(int fd, char *out) {
    char link[64];
    ssize_t n;
    if (!active || fd < 0 || fd == log_fd) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = syscall(SYS_readlinkat, AT_FDCWD, link, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return inside(out);
}

/* 0 to go on, 1 to fail, 2 to do half of it */
static int before(int *k) {
    *k = count++;
    if (mode == 'e' && *k == fault_at) return 1;
    if (mode == 'E' && *k >= fault_at) return 1;
    if (mode == 's' && *k == fault_at) return 2;
    if (mode == 'b' && *k == fault_at) die();
    return 0;
}

static void note(const char *op, const char *p1, const char *p2, int fd, long result) {
    /* op <TAB> result <TAB> path <TAB> path2 <TAB> inode <TAB> mode <TAB> contents in hex <LF> */
    char head[2 * PATH_MAX + 100];
    struct stat st;
    unsigned long ino = 0, mode = 0;
    int known = 0, opened = -1;
    char link[64];
    if (fd >= 0 && fstat(fd, &st) == 0) known = 1;
    else if (p1 && fstatat(AT_FDCWD, p2 && *p2 ? p2 : p1, &st, AT_SYMLINK_NOFOLLOW) == 0) known = 1;
    if (known) ino = st.st_ino, mode = st.st_mode;
    int n = snprintf(head, sizeof head, "%s\t%ld\t%s\t%s\t%lu\t%lu\t", op, result, p1 ? p1 : "", p2 ? p2 : "", ino, mode);
    put(head, n);
    if (known && S_ISREG(st.st_mode)) {
        if (fd >= 0) {
            snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            opened = syscall(SYS_openat, AT_FDCWD, link, O_RDONLY | O_CLOEXEC, 0);
        } else {
            opened = syscall(SYS_openat, AT_FDCWD, p2 && *p2 ? p2 : p1, O_RDONLY | O_CLOEXEC, 0);
        }
    }
    if (opened >= 0) {
        unsigned char buf[4096];
        char hex[8192];
        long r;
        while ((r = syscall(SYS_read, opened, buf, sizeof buf)) > 0) {
            for (long i = 0; i < r; i++) {
                hex[2 * i] = "0123456789abcdef"[buf[i] >> 4];
                hex[2 * i + 1] = "0123456789abcdef"[buf[i] & 15];
            }
            put(hex, 2 * r);
        }
        syscall(SYS_close, opened);
    }
    put("\n", 1);
}

static void after(int k) {
    if (mode == 'a' && k == fault_at) die();
}

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

/* Runs the call, EXPR results in -1 on failure */
#define WRAP(inside_cond, op, p1, p2, fd, expr) \
    do { \
        if (!(inside_cond)) return expr; \
        int k, f = before(&k); \
        if (f == 1) { \
            note(op "!", p1, p2, fd, -1); \
            errno = fault_errno; \
            return -1; \
        } \
        long result = expr; \
        int e = errno; \
        note(op, p1, p2, fd, result); \
        after(k); \
        errno = e; \
        return result; \
    } while (0)

static int do_open(int (*real)(int, const char *, int, mode_t), int at, const char *path, int flags, mode_t m) {
    char p[PATH_MAX];
    if (!path_in(at, path, p)) return real(at, path, flags, m);
    int k, f = before(&k);
    const char *op = flags & O_TRUNC || flags & O_CREAT ? "create" : (flags & O_ACCMODE) != O_RDONLY ? "openw" : "open";
    if (f == 1) {
        note("open!", p, NULL, -1, -1);
        errno = fault_errno;
        return -1;
    }
    int r = real(at, path, flags, m);
    int e = errno;
    note(op, p, NULL, r, r);
    after(k);
    errno = e;
    return r;
}

static int real_openat(int at, const char *path, int flags, mode_t m) {
    long r = syscall(SYS_openat, at, path, flags, m);
    return r;
}

#define MODE_ARG(m) \
    mode_t m = 0; \
    if (flags & O_CREAT || (flags & O_TMPFILE) == O_TMPFILE) { \
        va_list ap; \
        va_start(ap, flags); \
        m = va_arg(ap, mode_t); \
        va_end(ap); \
    }

int open(const char *path, int flags, ...) { MODE_ARG(m); return do_open(real_openat, AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE_ARG(m); return do_open(real_openat, AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int at, const char *path, int flags, ...) { MODE_ARG(m); return do_open(real_openat, at, path, flags, m); }
int openat64(int at, const char *path, int flags, ...) { MODE_ARG(m); return do_open(real_openat, at, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return do_open(real_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(real_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t moved(const char *op, int fd, char *p, size_t n, ssize_t (*call)(void *, size_t), void *arg, int is_write) {
    int k, f = before(&k);
    if (is_write && short_done) {
        f = 1;
        short_done = 0;
    }
    if (f == 1) {
        char name[32];
        snprintf(name, sizeof name, "%s!", op);
        note(name, p, NULL, fd, -1);
        errno = fault_errno;
        return -1;
    }
    if (f == 2 && n > 1) {
        n /= 2;
        if (is_write) short_done = 1;
    }
    ssize_t r = call(arg, n);
    int e = errno;
    note(op, p, NULL, fd, r);
    after(k);
    errno = e;
    return r;
}

struct io { int fd; const void *buf; off_t off; };
static ssize_t do_write(void *a, size_t n) { struct io *i = a; return syscall(SYS_write, i->fd, i->buf, n); }
static ssize_t do_pwrite(void *a, size_t n) { struct io *i = a; return syscall(SYS_pwrite64, i->fd, i->buf, n, i->off); }
static ssize_t do_read(void *a, size_t n) { struct io *i = a; return syscall(SYS_read, i->fd, i->buf, n); }

ssize_t write(int fd, const void *buf, size_t n) {
    char p[PATH_MAX];
    struct io i = {fd, buf, 0};
    if (!fd_in(fd, p)) return do_write(&i, n);
    return moved("write", fd, p, n, do_write, &i, 1);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    char p[PATH_MAX];
    struct io i = {fd, buf, off};
    if (!fd_in(fd, p)) return do_pwrite(&i, n);
    return moved("write", fd, p, n, do_pwrite, &i, 1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    char p[PATH_MAX];
    if (!fd_in(fd, p)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t read(int fd, void *buf, size_t n) {
    char p[PATH_MAX];
    struct io i = {fd, buf, 0};
    if (!fd_in(fd, p)) return do_read(&i, n);
    return moved("read", fd, p, n, do_read, &i, 0);
}

int fsync(int fd) { char p[PATH_MAX]; WRAP(fd_in(fd, p), "sync", p, NULL, fd, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { char p[PATH_MAX]; WRAP(fd_in(fd, p), "sync", p, NULL, fd, syscall(SYS_fdatasync, fd)); }
int syncfs(int fd) { char p[PATH_MAX]; WRAP(fd_in(fd, p), "syncall", p, NULL, fd, syscall(SYS_syncfs, fd)); }
void sync(void) {
    if (active) note("syncall", dir, NULL, -1, 0);
    syscall(SYS_sync);
}
int ftruncate(int fd, off_t n) { char p[PATH_MAX]; WRAP(fd_in(fd, p), "truncate", p, NULL, fd, syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *path, off_t n) { char p[PATH_MAX]; WRAP(path_in(AT_FDCWD, path, p), "truncate", p, NULL, -1, syscall(SYS_truncate, path, n)); }
int truncate64(const char *path, off64_t n) { return truncate(path, n); }
int fchmod(int fd, mode_t m) { char p[PATH_MAX]; WRAP(fd_in(fd, p), "chmod", p, NULL, fd, syscall(SYS_fchmod, fd, m)); }
int chmod(const char *path, mode_t m) { char p[PATH_MAX]; WRAP(path_in(AT_FDCWD, path, p), "chmod", p, NULL, -1, syscall(SYS_fchmodat, AT_FDCWD, path, m)); }
int mkdir(const char *path, mode_t m) { char p[PATH_MAX]; WRAP(path_in(AT_FDCWD, path, p), "mkdir", p, NULL, -1, syscall(SYS_mkdirat, AT_FDCWD, path, m)); }
int rmdir(const char *path) { char p[PATH_MAX]; WRAP(path_in(AT_FDCWD, path, p), "rmdir", p, NULL, -1, syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR)); }
int unlink(const char *path) { char p[PATH_MAX]; WRAP(path_in(AT_FDCWD, path, p), "unlink", p, NULL, -1, syscall(SYS_unlinkat, AT_FDCWD, path, 0)); }
int unlinkat(int at, const char *path, int flags) { char p[PATH_MAX]; WRAP(path_in(at, path, p), "unlink", p, NULL, -1, syscall(SYS_unlinkat, at, path, flags)); }
int rename(const char *a, const char *b) {
    char p[PATH_MAX], q[PATH_MAX];
    WRAP(path_in(AT_FDCWD, b, q) && absolute(AT_FDCWD, a, p), "rename", p, q, -1, syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int renameat(int x, const char *a, int y, const char *b) {
    char p[PATH_MAX], q[PATH_MAX];
    WRAP(path_in(y, b, q) && absolute(x, a, p), "rename", p, q, -1, syscall(SYS_renameat2, x, a, y, b, 0));
}
int renameat2(int x, const char *a, int y, const char *b, unsigned flags) {
    char p[PATH_MAX], q[PATH_MAX];
    WRAP(path_in(y, b, q) && absolute(x, a, p), flags ? "other" : "rename", p, q, -1, syscall(SYS_renameat2, x, a, y, b, flags));
}
int link(const char *a, const char *b) {
    char p[PATH_MAX], q[PATH_MAX];
    WRAP(path_in(AT_FDCWD, b, q) && absolute(AT_FDCWD, a, p), "link", p, q, -1, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int linkat(int x, const char *a, int y, const char *b, int flags) {
    char p[PATH_MAX], q[PATH_MAX];
    WRAP(path_in(y, b, q) && absolute(x, a, p), "link", p, q, -1, syscall(SYS_linkat, x, a, y, b, flags));
}
int symlink(const char *a, const char *b) { char q[PATH_MAX]; WRAP(path_in(AT_FDCWD, b, q), "other", a, q, -1, syscall(SYS_symlinkat, a, AT_FDCWD, b)); }
ssize_t copy_file_range(int x, off64_t *xo, int y, off64_t *yo, size_t n, unsigned flags) {
    char p[PATH_MAX];
    WRAP(fd_in(y, p), "write", p, NULL, y, syscall(SYS_copy_file_range, x, xo, y, yo, n, flags));
}
ssize_t sendfile(int y, int x, off_t *o, size_t n) {
    char p[PATH_MAX];
    WRAP(fd_in(y, p), "write", p, NULL, y, syscall(SYS_sendfile, y, x, o, n));
}
ssize_t sendfile64(int y, int x, off64_t *o, size_t n) { return sendfile(y, x, o, n); }
char *realpath(const char *path, char *out) {
    char p[PATH_MAX];
    REAL(realpath);
    if (path_in(AT_FDCWD, path, p)) {
        int k, f = before(&k);
        note(f == 1 ? "stat!" : "stat", p, NULL, -1, 0);
        if (f == 1) {
            errno = fault_errno;
            return NULL;
        }
    }
    return real(path, out);
}
int statx(int at, const char *path, int flags, unsigned mask, struct statx *st) {
    char p[PATH_MAX];
    /* NULL when checking for availability */
    const char *volatile given = path;
    if (given && *given) WRAP(path_in(at, path, p), "stat", p, NULL, -1, syscall(SYS_statx, at, path, flags, mask, st));
    return syscall(SYS_statx, at, path, flags, mask, st);
}
