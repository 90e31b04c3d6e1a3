/* Monitor of file-system calls, preloaded into a server under observation.
 *
 *   FSMON_CTL   control file, mapped shared (made by the harness)
 *   FSMON_ROOT  the directory the server serves
 *
 * It counts and records the calls which concern files, and, when told so
 * through the control file, delays them, lets them fail, cuts them short, or
 * ends the process at one of them.  Calls that would change something outside
 * the root are never carried out when the guard is on.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAGIC 0x314e4f4d5346ULL
#define NLOG 4096
#define PATHLEN 2032

enum { OFF = 0, CRASH = 1, FAIL_ONCE = 2, FAIL_ON = 3, SHORT = 4 };
enum { MUTATE = 1, READ = 2 };

struct entry {
    uint32_t op;
    int32_t err;
    uint64_t k;
    char path[PATHLEN];
};

struct ctl {
    uint64_t magic;            /* 0 */
    volatile uint32_t mode;    /* 8 */
    volatile uint32_t err;     /* 12 */
    volatile uint64_t target;  /* 16: the call it happens at, from 1 */
    volatile uint64_t count;   /* 24: calls counted since the last reset */
    volatile uint32_t classes; /* 32: which calls are counted */
    volatile uint32_t fired;   /* 36 */
    volatile uint32_t partial; /* 40: a write is carried out by half first */
    volatile uint32_t guard;   /* 44 */
    volatile uint64_t guarded; /* 48 */
    volatile uint32_t prob;    /* 56: of a delay, in 1/1000 */
    volatile uint32_t delay;   /* 60: microseconds at most */
    volatile uint64_t seed;    /* 64 */
    volatile uint64_t nlog;    /* 72 */
    volatile uint32_t logging; /* 80 */
    volatile uint32_t fired_op;/* 84 */
    volatile uint64_t total;   /* 88: calls seen at all */
    volatile uint64_t delayed; /* 96 */
    volatile uint32_t ops;     /* 104: if not 0, only these operations are counted */
    volatile uint32_t ready;   /* 108 */
    volatile int64_t live;     /* 112: bytes allocated since the start */
    volatile int64_t peak;     /* 120: most of them at a time */
    volatile int64_t allocs;   /* 128 */
    volatile int64_t clock;    /* 136: milliseconds the program's clock is ahead */
    char pad[4096 - 144];
    struct entry log[NLOG];
};

enum {
    K_OPEN = 1, K_OPENW, K_READ, K_WRITE, K_SEEK, K_STAT, K_OPENDIR, K_READDIR, K_MKDIR, K_RMDIR, K_UNLINK, K_RENAME, K_TRUNC, K_SYNC, K_LINK, K_CHMOD, K_COPY
};

static struct ctl *C;
static char root[PATH_MAX];
static size_t rootlen;

/* memory the process has allocated */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern size_t malloc_usable_size(void *);
static void tally(int64_t n) {
    struct ctl *c = C;
    if (!c || !n) return;
    int64_t l = __sync_add_and_fetch(&c->live, n);
    if (n < 0) return;
    __sync_fetch_and_add(&c->allocs, 1);
    int64_t p = c->peak;
    while (l > p && !__sync_bool_compare_and_swap(&c->peak, p, l)) p = c->peak;
}
static void *taken(void *p) {
    if (p) tally((int64_t)malloc_usable_size(p));
    return p;
}
void *malloc(size_t n) { return taken(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return taken(__libc_calloc(n, m)); }
void *memalign(size_t a, size_t n) { return taken(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return taken(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) {
    void *p = taken(__libc_memalign(a, n));
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *realloc(void *old, size_t n) {
    int64_t was = old ? (int64_t)malloc_usable_size(old) : 0;
    void *p = __libc_realloc(old, n);
    if (p) tally((int64_t)malloc_usable_size(p) - was);
    else if (old && !n) tally(-was);
    return p;
}
void free(void *p) {
    if (p) tally(-(int64_t)malloc_usable_size(p));
    __libc_free(p);
}

/* what a descriptor refers to: 0 unknown, 1 in the root, 2 elsewhere */
#define NFD 65536
static unsigned char kind[NFD];

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    const char *c = getenv("FSMON_CTL"), *r = getenv("FSMON_ROOT");
    if (!c || !r) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (p == MAP_FAILED) return;
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    struct ctl *t = p;
    if (t->magic != MAGIC) return;
    C = t;
    C->ready = 1;
}

/* the time of day, as the program sees it */
int clock_gettime(clockid_t id, struct timespec *t) {
    int rc = (int)syscall(SYS_clock_gettime, id, t);
    struct ctl *c = C;
    if (rc == 0 && c && c->clock && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t ms = c->clock;
        t->tv_sec += ms / 1000;
        t->tv_nsec += ms % 1000 * 1000000;
        if (t->tv_nsec >= 1000000000) t->tv_nsec -= 1000000000, t->tv_sec++;
        if (t->tv_nsec < 0) t->tv_nsec += 1000000000, t->tv_sec--;
    }
    return rc;
}

/* absolute path without . and .., by its text alone */
static int normal(int dirfd, const char *path, char *out) {
    char buf[2 * PATH_MAX + 2];
    size_t n = 0;
    if (!path) return 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, buf, PATH_MAX) < 0) return 0;
            n = strlen(buf);
        } else {
            char link[64] = "/proc/self/fd/";
            char digits[16];
            int i = 0, v = dirfd, l = 14;
            if (v < 0) return 0;
            do { digits[i++] = (char)('0' + v % 10); v /= 10; } while (v);
            while (i) link[l++] = digits[--i];
            link[l] = 0;
            long k = syscall(SYS_readlinkat, AT_FDCWD, link, buf, PATH_MAX);
            if (k < 0) return 0;
            n = (size_t)k;
        }
        buf[n++] = '/';
    }
    size_t m = strlen(path);
    if (m >= PATH_MAX) return 0;
    memcpy(buf + n, path, m + 1);
    size_t o = 0;
    for (char *s = buf; *s;) {
        while (*s == '/') s++;
        char *e = s;
        while (*e && *e != '/') e++;
        size_t l = (size_t)(e - s);
        if (l == 0) break;
        if (l == 1 && s[0] == '.') {
        } else if (l == 2 && s[0] == '.' && s[1] == '.') {
            while (o && out[--o] != '/') {}
        } else {
            if (o + l + 2 >= PATH_MAX) return 0;
            out[o++] = '/';
            memcpy(out + o, s, l);
            o += l;
        }
        s = e;
    }
    if (!o) out[o++] = '/';
    out[o] = 0;
    return 1;
}

static int inside(const char *p) {
    return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}

static void mark(int fd, int k) {
    if (fd >= 0 && fd < NFD) kind[fd] = (unsigned char)k;
}
static int known(int fd) {
    return fd >= 0 && fd < NFD ? kind[fd] : 0;
}

static __thread uint64_t rnd;
static void pause_a_while(void) {
    uint32_t p = C->prob;
    if (!p) return;
    if (!rnd) rnd = (C->seed ^ ((uint64_t)syscall(SYS_gettid) * 0x9e3779b97f4a7c15ULL)) | 1;
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    if ((rnd >> 20) % 1000 >= p) return;
    __sync_fetch_and_add(&C->delayed, 1);
    uint32_t d = C->delay;
    struct timespec t = {0, 0};
    t.tv_nsec = (long)((rnd >> 32) % (d ? d : 1)) * 1000;
    syscall(SYS_nanosleep, &t, 0);
}

static void record(int op, int err, uint64_t k, const char *path) {
    if (!C->logging) return;
    uint64_t n = __sync_fetch_and_add(&C->nlog, 1);
    if (n >= NLOG) return;
    struct entry *e = &C->log[n];
    e->err = err;
    e->k = k;
    strncpy(e->path, path, PATHLEN - 1);
    e->op = (uint32_t)op;
}

/* 0: go on; otherwise the errno to fail with; -1: carry out by half, then die;
 * -2: carry out by half; */
static int decide(int op, int cls, const char *path) {
    uint64_t k = 0;
    int verdict = 0;
    __sync_fetch_and_add(&C->total, 1);
    if ((C->classes & (uint32_t)cls) && (!C->ops || (C->ops >> op & 1))) {
        k = __sync_add_and_fetch(&C->count, 1);
        uint32_t mode = C->mode;
        uint64_t t = C->target;
        int rw = op == K_WRITE || op == K_READ;
        switch (mode) {
        case CRASH:
            if (k == t) {
                C->fired_op = (uint32_t)op;
                __sync_fetch_and_add(&C->fired, 1);
                if (op == K_WRITE && C->partial) { verdict = -1; break; }
                record(op, 0, k, path);
                syscall(SYS_exit_group, 137);
            }
            break;
        case FAIL_ONCE:
        case FAIL_ON:
            if (k == t || (mode == FAIL_ON && k > t)) {
                if (k == t) C->fired_op = (uint32_t)op;
                uint32_t n = __sync_fetch_and_add(&C->fired, 1);
                verdict = (int)C->err;
                if (op == K_WRITE && C->partial && n == 0) verdict = -2;
            }
            break;
        case SHORT:
            if (rw && (t == 0 || k == t)) {
                C->fired_op = (uint32_t)op;
                __sync_fetch_and_add(&C->fired, 1);
                verdict = -2;
            }
            break;
        }
    }
    record(op, verdict > 0 ? verdict : 0, k, path);
    pause_a_while();
    return verdict;
}

/* for a path: as decide; paths outside are recorded, and changes there refused */
static int on_path(int op, int cls, int dirfd, const char *path, int *where) {
    char p[PATH_MAX];
    *where = 0;
    if (!C || !normal(dirfd, path, p)) return 0;
    if (inside(p)) {
        *where = 1;
        return decide(op, cls, p);
    }
    *where = 2;
    if (strncmp(p, "/proc/", 6) && strncmp(p, "/sys/", 5) && strncmp(p, "/dev/", 5)) record(op | 0x100, 0, 0, p);
    if (C->guard && cls == MUTATE && strncmp(p, "/dev/", 5)) {
        __sync_fetch_and_add(&C->guarded, 1);
        return EACCES;
    }
    return 0;
}
static int on_fd(int op, int cls, int fd) {
    if (!C || known(fd) != 1) return 0;
    return decide(op, cls, "");
}
static int refuse(int e) {
    errno = e;
    return -1;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }
#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & (O_CREAT | O_TRUNC)))

static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
    int where, w = WRITES(flags);
    int v = on_path(w ? K_OPENW : K_OPEN, w ? MUTATE : READ, dirfd, path, &where);
    if (v > 0) return refuse(v);
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    mark(fd, where);
    return fd;
}
int open(const char *path, int flags, ...) { MODE(flags) return open_common(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return open_common(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return open_common(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return open_common(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    REAL(close);
    mark(fd, 0);
    return real(fd);
}

static size_t half(size_t n) { return n > 1 ? n / 2 : n; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    int v = on_fd(K_WRITE, MUTATE, fd);
    if (v > 0) return refuse(v);
    if (v < 0) {
        ssize_t r = real(fd, b, half(n));
        if (v == -1) syscall(SYS_exit_group, 137);
        return r;
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    int v = on_fd(K_WRITE, MUTATE, fd);
    if (v > 0) return refuse(v);
    if (v < 0) {
        ssize_t r = real(fd, b, half(n), o);
        if (v == -1) syscall(SYS_exit_group, 137);
        return r;
    }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *io, int n) {
    REAL(writev);
    int v = on_fd(K_WRITE, MUTATE, fd);
    if (v > 0) return refuse(v);
    if (v < 0 && n > 0) {
        REAL(write);
        ssize_t r = real(fd, io[0].iov_base, half(io[0].iov_len));
        if (v == -1) syscall(SYS_exit_group, 137);
        return r;
    }
    return real(fd, io, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    int v = on_fd(K_READ, READ, fd);
    if (v > 0) return refuse(v);
    return real(fd, b, v < 0 ? half(n > 64 ? 64 : n) : n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    int v = on_fd(K_READ, READ, fd);
    if (v > 0) return refuse(v);
    return real(fd, b, v < 0 ? half(n > 64 ? 64 : n) : n, o);
}
ssize_t readv(int fd, const struct iovec *io, int n) {
    REAL(readv);
    int v = on_fd(K_READ, READ, fd);
    if (v > 0) return refuse(v);
    return real(fd, io, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(lseek64);
    int v = on_fd(K_SEEK, READ, fd);
    if (v > 0) return refuse(v);
    return real(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

#define ON_FD(ret, name, op, cls, decl, ...) \
    ret name decl { \
        REAL(name); \
        int v = on_fd(op, cls, fd); \
        if (v > 0) return refuse(v); \
        return real(__VA_ARGS__); \
    }
ON_FD(int, ftruncate, K_TRUNC, MUTATE, (int fd, off_t n), fd, n)
ON_FD(int, ftruncate64, K_TRUNC, MUTATE, (int fd, off64_t n), fd, n)
ON_FD(int, fsync, K_SYNC, MUTATE, (int fd), fd)
ON_FD(int, fdatasync, K_SYNC, MUTATE, (int fd), fd)
ON_FD(int, fstat, K_STAT, READ, (int fd, struct stat *s), fd, s)
ON_FD(int, fstat64, K_STAT, READ, (int fd, struct stat64 *s), fd, s)
ON_FD(int, fchmod, K_CHMOD, MUTATE, (int fd, mode_t m), fd, m)
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL(copy_file_range);
    int v = on_fd(K_COPY, MUTATE, b);
    if (v > 0) return refuse(v);
    return real(a, ao, b, bo, v < 0 ? half(n) : n, f);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(sendfile64);
    int v = known(out) == 1 ? on_fd(K_COPY, MUTATE, out) : on_fd(K_READ, READ, in);
    if (v > 0) return refuse(v);
    return real(out, in, o, v < 0 ? half(n) : n);
}

#define ON_PATH(ret, name, op, cls, decl, dir, path, ...) \
    ret name decl { \
        REAL(name); \
        int where; \
        int v = on_path(op, cls, dir, path, &where); \
        if (v > 0) return refuse(v); \
        return real(__VA_ARGS__); \
    }
ON_PATH(int, mkdir, K_MKDIR, MUTATE, (const char *p, mode_t m), AT_FDCWD, p, p, m)
ON_PATH(int, mkdirat, K_MKDIR, MUTATE, (int d, const char *p, mode_t m), d, p, d, p, m)
ON_PATH(int, rmdir, K_RMDIR, MUTATE, (const char *p), AT_FDCWD, p, p)
ON_PATH(int, unlink, K_UNLINK, MUTATE, (const char *p), AT_FDCWD, p, p)
ON_PATH(int, unlinkat, K_UNLINK, MUTATE, (int d, const char *p, int f), d, p, d, p, f)
ON_PATH(int, truncate64, K_TRUNC, MUTATE, (const char *p, off64_t n), AT_FDCWD, p, p, n)
ON_PATH(int, chmod, K_CHMOD, MUTATE, (const char *p, mode_t m), AT_FDCWD, p, p, m)
ON_PATH(int, stat, K_STAT, READ, (const char *p, struct stat *s), AT_FDCWD, p, p, s)
ON_PATH(int, stat64, K_STAT, READ, (const char *p, struct stat64 *s), AT_FDCWD, p, p, s)
ON_PATH(int, lstat, K_STAT, READ, (const char *p, struct stat *s), AT_FDCWD, p, p, s)
ON_PATH(int, lstat64, K_STAT, READ, (const char *p, struct stat64 *s), AT_FDCWD, p, p, s)
ON_PATH(int, fstatat64, K_STAT, READ, (int d, const char *p, struct stat64 *s, int f), d, p, d, p, s, f)
ON_PATH(int, access, K_STAT, READ, (const char *p, int m), AT_FDCWD, p, p, m)

int statx(int d, const char *__restrict p, int f, unsigned m, struct statx *__restrict s) {
    REAL(statx);
    int where;
    int v = (f & AT_EMPTY_PATH) && p && !*p ? on_fd(K_STAT, READ, d) : p ? on_path(K_STAT, READ, d, p, &where) : 0;
    if (v > 0) return refuse(v);
    return real(d, p, f, m, s);
}

/* both ends count as one call; the destination is recorded as well */
static int two(int op, int d1, const char *a, int d2, const char *b) {
    char p[PATH_MAX];
    int where;
    if (C && normal(d2, b, p)) {
        if (!inside(p)) {
            record(op | 0x100, 0, 0, p);
            if (C->guard) {
                __sync_fetch_and_add(&C->guarded, 1);
                return EACCES;
            }
        } else {
            record(op | 0x200, 0, 0, p);
        }
    }
    return on_path(op, MUTATE, d1, a, &where);
}
#define ON_TWO(name, op, decl, d1, a, d2, b, ...) \
    int name decl { \
        REAL(name); \
        int v = two(op, d1, a, d2, b); \
        if (v > 0) return refuse(v); \
        return real(__VA_ARGS__); \
    }
ON_TWO(rename, K_RENAME, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, a, b)
ON_TWO(renameat, K_RENAME, (int d1, const char *a, int d2, const char *b), d1, a, d2, b, d1, a, d2, b)
ON_TWO(renameat2, K_RENAME, (int d1, const char *a, int d2, const char *b, unsigned f), d1, a, d2, b, d1, a, d2, b, f)
ON_TWO(link, K_LINK, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, a, b)
ON_TWO(linkat, K_LINK, (int d1, const char *a, int d2, const char *b, int f), d1, a, d2, b, d1, a, d2, b, f)
int symlink(const char *a, const char *b) {
    REAL(symlink);
    int where;
    int v = on_path(K_LINK, MUTATE, AT_FDCWD, b, &where);
    if (v > 0) return refuse(v);
    return real(a, b);
}

DIR *opendir(const char *p) {
    REAL(opendir);
    int where;
    int v = on_path(K_OPENDIR, READ, AT_FDCWD, p, &where);
    if (v > 0) {
        errno = v;
        return 0;
    }
    DIR *d = real(p);
    if (d) mark(dirfd(d), where);
    return d;
}
int closedir(DIR *d) {
    REAL(closedir);
    if (d) mark(dirfd(d), 0);
    return real(d);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    int v = d ? on_fd(K_READDIR, READ, dirfd(d)) : 0;
    if (v > 0) {
        errno = v;
        return 0;
    }
    return real(d);
}
