/* File system seam: reports every operation on files below one directory to a controller and does what it says.
 *
 * Off until fs_arm() is called (through ctypes, in a forked child). Each operation sends a request on one pipe and
 * blocks for a reply; afterwards it reports what it returned. All decisions are the controller's.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_READ, OP_FSYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_LINK, OP_MKDIR, OP_OTHER,
       OP_DONE = 100 };
enum { ACT_GO = 0, ACT_ERRNO, ACT_SHORT, ACT_CRASH, ACT_SHORT_CRASH, ACT_SIGINT, ACT_CRASH_AFTER };

#define MAXFD 4096
static int armed = 0, rfd = -1, wfd = -1;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[MAXFD];
static uint64_t rng_state;
static int rng_on = 0;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static void raw_write(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = syscall(SYS_write, wfd, c, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(99); }
        c += k; n -= k;
    }
}

static void raw_read(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t k = syscall(SYS_read, rfd, c, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(99); }
        if (k == 0) _exit(99);
        c += k; n -= k;
    }
}

struct msg { int32_t op, fd, arg, n1, n2; int32_t nd; int64_t off; };
struct reply { int32_t act, val; };

static struct reply ask(int op, int fd, int arg, int64_t off, const char *p1, const char *p2, const void *data, size_t nd) {
    struct msg m = { op, fd, arg, p1 ? (int)strlen(p1) : 0, p2 ? (int)strlen(p2) : 0, (int)nd, off };
    struct reply r;
    pthread_mutex_lock(&lock);
    raw_write(&m, sizeof m);
    if (m.n1) raw_write(p1, m.n1);
    if (m.n2) raw_write(p2, m.n2);
    if (nd) raw_write(data, nd);
    raw_read(&r, sizeof r);
    pthread_mutex_unlock(&lock);
    if (r.act == ACT_CRASH) _exit(137);
    if (r.act == ACT_SIGINT) { raise(SIGINT); r.act = ACT_GO; }
    return r;
}

static void done(long ret, int err) {
    struct msg m = { OP_DONE, (int)ret, err, 0, 0, 0, ret };
    int save = errno;
    pthread_mutex_lock(&lock);
    raw_write(&m, sizeof m);
    pthread_mutex_unlock(&lock);
    errno = save;
}

static void after(struct reply r, long ret, int err) {
    done(ret, err);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_SHORT_CRASH) _exit(137);
}

/* absolute path of `path`; returns 1 if it lies below the watched directory */
static int inside(int dirfd, const char *path, char *out) {
    if (!armed || !path) return 0;
    if (path[0] == '/') {
        snprintf(out, PATH_MAX, "%s", path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return 0;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        if (strlen(base) + strlen(path) + 2 > PATH_MAX) return 0;
        snprintf(out, PATH_MAX, "%s/%s", base, path);
    }
    return strncmp(out, prefix, prefix_len) == 0 && (out[prefix_len] == '/' || out[prefix_len] == 0);
}

void fs_arm(const char *dir, int r, int w, uint64_t seed) {
    snprintf(prefix, sizeof prefix, "%s", dir);
    prefix_len = strlen(prefix);
    rfd = r; wfd = w;
    memset(tracked, 0, sizeof tracked);
    rng_state = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    rng_on = 1;
    armed = 1;
}

void fs_disarm(void) { armed = 0; rng_on = 0; }

#define REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, name)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char full[PATH_MAX];
    if (!inside(dirfd, path, full))
        return syscall(SYS_openat, dirfd, path, flags, mode);
    struct reply r = ask(OP_OPEN, -1, flags, 0, full, NULL, NULL, 0);
    if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    after(r, fd, fd < 0 ? e : 0);
    errno = e;
    return fd;
}

#define MODE(flags, last) mode_t mode = 0; if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags, flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags, flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags, flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags, flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int is(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off) {
    /* off < 0: at the file position */
    int64_t at = off;
    if (off < 0) {
        int fl = fcntl(fd, F_GETFL);
        struct stat st;
        if (fl >= 0 && (fl & O_APPEND) && fstat(fd, &st) == 0) at = st.st_size;
        else at = lseek(fd, 0, SEEK_CUR);
    }
    struct reply r = ask(OP_WRITE, fd, (int)n, at, NULL, NULL, buf, n);
    if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
    size_t m = n;
    if ((r.act == ACT_SHORT || r.act == ACT_SHORT_CRASH) && (size_t)r.val < n) m = r.val;
    ssize_t k = 0;
    int e = 0;
    if (m || !n) {
        k = off < 0 ? syscall(SYS_write, fd, buf, m) : syscall(SYS_pwrite64, fd, buf, m, off);
        e = errno;
    }
    after(r, k, k < 0 ? e : 0);
    errno = e;
    return k;
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (!is(fd)) return syscall(SYS_write, fd, buf, n);
    return do_write(fd, buf, n, -1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
    if (!is(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
    return do_write(fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
    if (!is(fd)) return syscall(SYS_writev, fd, iov, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t k = do_write(fd, iov[i].iov_base, iov[i].iov_len, -1);
        if (k < 0) return tot ? tot : -1;
        tot += k;
        if ((size_t)k < iov[i].iov_len) break;
    }
    return tot;
}
/* copies inside the kernel are refused, so that callers fall back to read and write */
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    if (is(o) || is(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) {
    if (is(o) || is(i)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (!is(fd)) return syscall(SYS_read, fd, buf, n);
    struct reply r = ask(OP_READ, fd, (int)n, 0, NULL, NULL, NULL, 0);
    if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
    size_t m = n;
    if (r.act == ACT_SHORT && (size_t)r.val < n && r.val > 0) m = r.val;
    ssize_t k = syscall(SYS_read, fd, buf, m);
    int e = errno;
    after(r, k, k < 0 ? e : 0);
    errno = e;
    return k;
}

static int simple_fd(int op, int fd, long nr) {
    struct reply r = ask(op, fd, 0, 0, NULL, NULL, NULL, 0);
    if (r.act == ACT_ERRNO) {
        if (op == OP_CLOSE) { tracked[fd] = 0; syscall(SYS_close, fd); }     /* a failing close still closes */
        done(-1, r.val); errno = r.val; return -1;
    }
    if (op == OP_CLOSE) tracked[fd] = 0;
    int k = syscall(nr, fd);
    int e = errno;
    after(r, k, k < 0 ? e : 0);
    errno = e;
    return k;
}
int fsync(int fd) { return is(fd) ? simple_fd(OP_FSYNC, fd, SYS_fsync) : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return is(fd) ? simple_fd(OP_FSYNC, fd, SYS_fdatasync) : syscall(SYS_fdatasync, fd); }
int close(int fd) { return is(fd) ? simple_fd(OP_CLOSE, fd, SYS_close) : syscall(SYS_close, fd); }

int ftruncate64(int fd, off_t len) {
    if (!is(fd)) return syscall(SYS_ftruncate, fd, len);
    struct reply r = ask(OP_TRUNC, fd, 0, len, NULL, NULL, NULL, 0);
    if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
    int k = syscall(SYS_ftruncate, fd, len);
    int e = errno;
    after(r, k, k < 0 ? e : 0);
    errno = e;
    return k;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

static int two(int op, int d1, const char *a, int d2, const char *b, unsigned flags) {
    char f1[PATH_MAX], f2[PATH_MAX];
    int i1 = inside(d1, a, f1), i2 = inside(d2, b, f2);
    if (i1 || i2) {
        struct reply r = ask(op, -1, flags, 0, f1, f2, NULL, 0);
        if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
        int k = op == OP_RENAME ? syscall(SYS_renameat2, d1, a, d2, b, flags) : syscall(SYS_linkat, d1, a, d2, b, flags);
        int e = errno;
        after(r, k, k < 0 ? e : 0);
        errno = e;
        return k;
    }
    return op == OP_RENAME ? syscall(SYS_renameat2, d1, a, d2, b, flags) : syscall(SYS_linkat, d1, a, d2, b, flags);
}
int rename(const char *a, const char *b) { return two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two(OP_RENAME, d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return two(OP_RENAME, d1, a, d2, b, f); }
int link(const char *a, const char *b) { return two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return two(OP_LINK, d1, a, d2, b, f); }

int unlinkat(int d, const char *p, int flags) {
    char full[PATH_MAX];
    if (!inside(d, p, full)) return syscall(SYS_unlinkat, d, p, flags);
    struct reply r = ask(OP_UNLINK, -1, flags, 0, full, NULL, NULL, 0);
    if (r.act == ACT_ERRNO) { done(-1, r.val); errno = r.val; return -1; }
    int k = syscall(SYS_unlinkat, d, p, flags);
    int e = errno;
    after(r, k, k < 0 ? e : 0);
    errno = e;
    return k;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int remove(const char *p) {
    int k = unlinkat(AT_FDCWD, p, 0);
    return k < 0 && errno == EISDIR ? unlinkat(AT_FDCWD, p, AT_REMOVEDIR) : k;
}
int truncate64(const char *p, off_t len) {
    int fd = do_open(AT_FDCWD, p, O_WRONLY, 0);
    if (fd < 0) return -1;
    int k = ftruncate64(fd, len), e = errno;
    close(fd);
    errno = e;
    return k;
}
int truncate(const char *p, off_t len) { return truncate64(p, len); }

/* randomness (names of temporary files) comes from the plan's seed */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!rng_on) return syscall(SYS_getrandom, buf, n, flags);
    unsigned char *c = buf;
    for (size_t i = 0; i < n; i++) {
        rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull;
        c[i] = rng_state >> 33;
    }
    return n;
}
