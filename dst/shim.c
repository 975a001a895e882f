/* libdst: libc seam of the deterministic simulator (LD_PRELOAD).
 *
 * Inert until dst_arm() is called in a forked simulated process ("node").  From then on every file operation on a
 * path under the scratch root (and every mutating one anywhere else) is announced to the scheduler over a
 * SEQPACKET socket and waits for its answer; clocks, sleep, random bytes, file times and directory order come from
 * the scheduler too.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#undef open
#undef open64
#undef openat
#undef openat64
#undef stat64
#undef lstat64
#undef fstat64
#undef fstatat64

#define EXPORT __attribute__((visibility("default")))
#define MAXFD 4096
#define PMAX 4096

/* ---- shared page written by the scheduler ------------------------------------------------------------------- */
struct slot { uint64_t ino; int64_t mtime, ctime; };
struct page {
    int64_t real_ns, mono_ns, default_ns, nslots;
    struct slot slots[];
};

enum { A_GO = 0, A_FAIL = 1, A_LIMIT = 2, A_DIE = 3, A_DIE_AFTER = 4, A_INT_BEFORE = 5, A_INT_AFTER = 6 };
struct reply { int32_t action, err; int64_t n, seed; };

static int armed = 0, chan = -1, paused = 0;
static char root[PMAX], quiet[256];
static size_t rootlen = 0;
static struct page *pg = NULL;
static uint64_t rng = 1;
static char *fdpath[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long prev_ret = 0; static int prev_err = 0;
static __thread int inside = 0;

static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)
#define ON (armed && !paused && !inside)

static long raw_close(int fd) { return syscall(SYS_close, fd); }

static void lost(void) { _exit(99); }   /* scheduler went away */

static void die(void) { raw_close(chan); _exit(137); }

/* lexical normalisation of an absolute path, in place */
static void norm(char *p) {
    char *out = p, *in = p;
    while (*in) {
        while (*in == '/') in++;
        if (!*in) break;
        char *e = in; while (*e && *e != '/') e++;
        size_t n = e - in;
        if (n == 1 && in[0] == '.') { }
        else if (n == 2 && in[0] == '.' && in[1] == '.') { while (out > p && *--out != '/'); }
        else { *out++ = '/'; memmove(out, in, n); out += n; }
        in = e;
    }
    if (out == p) *out++ = '/';
    *out = 0;
}

static int resolve(int dirfd, const char *path, char *buf) {
    if (!path) { buf[0] = 0; return -1; }
    if (path[0] == '/') { if (strlen(path) >= PMAX) return -1; strcpy(buf, path); }
    else if (dirfd == AT_FDCWD) {
        long n = syscall(SYS_getcwd, buf, PMAX);
        if (n <= 0 || n + strlen(path) + 2 >= PMAX) return -1;
        strcat(buf, "/"); strcat(buf, path);
    } else {
        if (dirfd < 0 || dirfd >= MAXFD || !fdpath[dirfd]) { buf[0] = 0; return -1; }
        if (strlen(fdpath[dirfd]) + strlen(path) + 2 >= PMAX) return -1;
        snprintf(buf, PMAX, "%s/%s", fdpath[dirfd], path);
    }
    norm(buf);
    return 0;
}
static int under(const char *p) {
    return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
/* is this path followed by the scheduler? */
static int tracked(const char *p) {
    if (!under(p)) return 0;
    if (quiet[0] && strstr(p + rootlen, quiet)) return 0;
    return 1;
}
static int special(const char *p) { return !strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm", 8); }
static int mtracked(const char *p) {       /* mutating operation */
    if (under(p)) return tracked(p);
    return !special(p) && strncmp(p, "/proc/", 6);
}

static void xfer(const char *msg, size_t len, void *rep, size_t cap, ssize_t *got) {
    ssize_t r;
    do r = syscall(SYS_sendto, chan, msg, len, MSG_NOSIGNAL, 0, 0); while (r < 0 && errno == EINTR);
    if (r < 0) lost();
    do r = syscall(SYS_recvfrom, chan, rep, cap, 0, 0, 0); while (r < 0 && errno == EINTR);
    if (r <= 0) lost();
    if (got) *got = r;
}

static struct reply ask(const char *op, const char *p1, const char *p2, long flags, long size) {
    struct reply rep; char msg[2 * PMAX + 200]; int e = errno; ssize_t got;
    pthread_mutex_lock(&mu);
    int n = snprintf(msg, sizeof msg, "%ld\037%d\037%s\037%ld\037%ld\037%s\037%s", prev_ret, prev_err, op, flags, size, p1, p2);
    if (n >= (int)sizeof msg) n = sizeof msg - 1;
    prev_ret = 0; prev_err = 0;
    xfer(msg, n, &rep, sizeof rep, &got);
    pthread_mutex_unlock(&mu);
    errno = e;
    if (rep.action == A_DIE) die();
    if (rep.action == A_INT_BEFORE) raise(SIGINT);
    return rep;
}
static long done(struct reply *rep, long ret) {
    int e = errno;
    prev_ret = ret; prev_err = ret < 0 ? e : 0;
    if (rep->action == A_DIE_AFTER) {
        /* tell the scheduler that the operation took effect, then die */
        char msg[100]; int n = snprintf(msg, sizeof msg, "%ld\037%d\037%s\0370\0370\037\037", prev_ret, prev_err, "@die");
        struct reply r2; ssize_t got; xfer(msg, n, &r2, sizeof r2, &got);
        die();
    }
    if (rep->action == A_INT_AFTER) raise(SIGINT);
    errno = e;
    return ret;
}

/* ---- control interface --------------------------------------------------------------------------------------- */
EXPORT int dst_present(void) { return 1; }
EXPORT int dst_connect(const char *name) {
    struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
    size_t n = strlen(name); memcpy(a.sun_path + 1, name, n);
    int s = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (s < 0) return -1;
    if (connect(s, (struct sockaddr *)&a, offsetof(struct sockaddr_un, sun_path) + 1 + n)) return -1;
    /* keep it away from the low descriptors so that descriptor numbers stay the same */
    int t = fcntl(s, F_DUPFD_CLOEXEC, 900);
    raw_close(s);
    return t;
}
EXPORT void dst_arm(int fd, const char *r, const char *q, void *page, uint64_t seed) {
    chan = fd; strncpy(root, r, PMAX - 1); rootlen = strlen(root); strncpy(quiet, q, sizeof quiet - 1);
    pg = page; rng = seed; armed = 1; paused = 0;
}
EXPORT void dst_child(int fd, uint64_t seed) { if (chan >= 0) raw_close(chan); chan = fd; rng = seed; prev_ret = prev_err = 0; }
EXPORT void dst_pause(int on) { paused = on; }
EXPORT int dst_armed(void) { return armed && !paused; }
EXPORT void dst_disarm(void) { armed = 0; if (chan >= 0) raw_close(chan); chan = -1; }
/* custom request: reply is copied to rep (cap bytes); returns its length. action handling as for operations */
EXPORT long dst_call(const char *op, const char *arg, char *rep, long cap) {
    static char msg[1 << 16]; static char buf[(1 << 16)];
    ssize_t got;
    pthread_mutex_lock(&mu);
    int n = snprintf(msg, sizeof msg, "%ld\037%d\037%s\0370\0370\037%s\037", prev_ret, prev_err, op, arg);
    if (n >= (int)sizeof msg) n = sizeof msg - 1;
    prev_ret = prev_err = 0;
    xfer(msg, n, buf, sizeof buf, &got);
    pthread_mutex_unlock(&mu);
    struct reply *r = (struct reply *)buf;
    if (r->action == A_DIE || r->action == A_DIE_AFTER) die();
    long len = got - (long)sizeof *r; if (len > cap) len = cap;
    memcpy(rep, buf + sizeof *r, len);
    if (r->action == A_INT_BEFORE || r->action == A_INT_AFTER) raise(SIGINT);
    return len;
}

/* ---- descriptors ---------------------------------------------------------------------------------------------- */
static void setfd(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL;
}
static const char *getfd(int fd) { return (fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL; }
static int fdtracked(int fd) { const char *p = getfd(fd); return p && mtracked(p); }
static int fdinroot(int fd) { const char *p = getfd(fd); return p && tracked(p); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PMAX];
    if (!ON || resolve(dirfd, path, p)) return syscall(SYS_openat, dirfd, path, flags, mode);
    int mut = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if ((flags & O_TMPFILE) == O_TMPFILE) mut = 1;
    int fd;
    if (tracked(p) || (mut && mtracked(p))) {
        struct reply r = ask("open", p, "", flags, 0);
        if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
        fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0) setfd(fd, p);
        return done(&r, fd);
    }
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) setfd(fd, under(p) ? p : NULL);
    return fd;
}
#define OPENARGS(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *path, int flags, ...) { OPENARGS(flags) return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int open64(const char *path, int flags, ...) { OPENARGS(flags) return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int openat(int d, const char *path, int flags, ...) { OPENARGS(flags) return do_open(d, path, flags, mode); }
EXPORT int openat64(int d, const char *path, int flags, ...) { OPENARGS(flags) return do_open(d, path, flags, mode); }
EXPORT int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int close(int fd) {
    if (armed && fd == chan) { errno = EBADF; return -1; }
    if (armed && fd >= 0 && fd < MAXFD && fdpath[fd]) setfd(fd, NULL);
    return syscall(SYS_close, fd);
}
EXPORT int dup(int fd) { int n = syscall(SYS_dup, fd); if (armed && n >= 0) setfd(n, getfd(fd)); return n; }
EXPORT int dup2(int a, int b) { int n = (a == b) ? syscall(SYS_fcntl, a, F_GETFD) < 0 ? -1 : b : syscall(SYS_dup3, a, b, 0); if (armed && n >= 0 && a != b) setfd(n, getfd(a)); return n; }
EXPORT int dup3(int a, int b, int f) { int n = syscall(SYS_dup3, a, b, f); if (armed && n >= 0) setfd(n, getfd(a)); return n; }
static int do_fcntl(int fd, int cmd, long arg) {
    int n = syscall(SYS_fcntl, fd, cmd, arg);
    if (armed && n >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) setfd(n, getfd(fd));
    return n;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

static ssize_t do_read(int fd, void *b, size_t n) {
    if (!ON || !fdinroot(fd)) return syscall(SYS_read, fd, b, n);
    struct reply r = ask("read", getfd(fd), "", 0, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    if (r.action == A_LIMIT && (size_t)r.n < n && r.n > 0) n = r.n;
    return done(&r, syscall(SYS_read, fd, b, n));
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!ON || !fdinroot(fd)) return syscall(SYS_pread64, fd, b, n, o);
    struct reply r = ask("read", getfd(fd), "", 0, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    if (r.action == A_LIMIT && (size_t)r.n < n && r.n > 0) n = r.n;
    return done(&r, syscall(SYS_pread64, fd, b, n, o));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
static ssize_t do_write(int fd, const void *b, size_t n, int at, off64_t o) {
    struct reply r = ask("write", getfd(fd), "", 0, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    if ((r.action == A_LIMIT && r.n > 0 && (size_t)r.n < n) || (r.action == A_DIE_AFTER && r.n >= 0 && (size_t)r.n < n)) n = r.n;
    if (n == 0 && r.action == A_DIE_AFTER) return done(&r, 0);
    return done(&r, at ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_write, fd, b, n);
    return do_write(fd, b, n, 0, 0);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    return do_write(fd, b, n, 1, o);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
EXPORT ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    if (!ON || !(fdtracked(out) || fdinroot(in))) return syscall(SYS_sendfile, out, in, off, n);
    const char *p = fdtracked(out) ? getfd(out) : getfd(in);
    struct reply r = ask(fdtracked(out) ? "write" : "read", p, fdinroot(in) ? getfd(in) : "", 1, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    if ((r.action == A_LIMIT || r.action == A_DIE_AFTER) && r.n > 0 && (size_t)r.n < n) n = r.n;
    return done(&r, syscall(SYS_sendfile, out, in, off, n));
}
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
EXPORT ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    if (!ON || !(fdtracked(out) || fdinroot(in))) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    const char *p = fdtracked(out) ? getfd(out) : getfd(in);
    struct reply r = ask(fdtracked(out) ? "write" : "read", p, fdinroot(in) ? getfd(in) : "", 1, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    if ((r.action == A_LIMIT || r.action == A_DIE_AFTER) && r.n > 0 && (size_t)r.n < n) n = r.n;
    return done(&r, syscall(SYS_copy_file_range, in, oi, out, oo, n, fl));
}
static int do_fsync(int fd, long nr) {
    if (!ON || !fdtracked(fd)) return syscall(nr, fd);
    struct reply r = ask("fsync", getfd(fd), "", 0, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, 0);
}
EXPORT int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
EXPORT void sync(void) { if (ON) { struct reply r = ask("sync", "", "", 0, 0); done(&r, 0); } }
EXPORT int ftruncate64(int fd, off64_t n) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_ftruncate, fd, n);
    struct reply r = ask("truncate", getfd(fd), "", 0, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *path, off64_t n) {
    char p[PMAX];
    if (!ON || resolve(AT_FDCWD, path, p) || !mtracked(p)) return syscall(SYS_truncate, path, n);
    struct reply r = ask("truncate", p, "", 0, n);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_truncate, path, n));
}
EXPORT int truncate(const char *path, off_t n) { return truncate64(path, n); }
static int do_flock(int fd, int op) { return syscall(SYS_flock, fd, op); }
EXPORT int flock(int fd, int op) {
    if (!ON || !fdinroot(fd)) return do_flock(fd, op);
    for (;;) {       /* a blocked lock is a parked node: poll through the scheduler */
        struct reply r = ask("flock", getfd(fd), "", op, 0);
        if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
        int x = do_flock(fd, op | 4 /*LOCK_NB*/);
        if (x == 0 || errno != EWOULDBLOCK || (op & 4)) return done(&r, x);
        done(&r, 0);
    }
}

/* ---- stat family: real call, simulated times ------------------------------------------------------------------- */
static int times(uint64_t ino, int64_t *m, int64_t *c) {
    if (!pg) return 0;
    uint64_t n = pg->nslots, h = (ino * 0x9E3779B97F4A7C15ull) % n;
    for (uint64_t i = 0; i < n; i++) {
        struct slot *s = &pg->slots[(h + i) % n];
        if (s->ino == ino) { *m = s->mtime; *c = s->ctime; return 1; }
        if (!s->ino) return 0;
    }
    return 0;
}
static int64_t fdiv(int64_t n) { int64_t q = n / 1000000000; return n % 1000000000 < 0 ? q - 1 : q; }      /* before 1970 too */
static void fake(struct stat *st) {
    int64_t m, c;
    if (!times(st->st_ino, &m, &c)) m = c = pg ? pg->default_ns : 0;
    st->st_mtim.tv_sec = fdiv(m); st->st_mtim.tv_nsec = m - fdiv(m) * 1000000000;
    st->st_ctim.tv_sec = fdiv(c); st->st_ctim.tv_nsec = c - fdiv(c) * 1000000000;
    st->st_atim = st->st_mtim;
}
static int do_stat(int d, const char *path, struct stat *st, int flags) {
    char p[PMAX];
    if (!ON) return syscall(SYS_newfstatat, d, path, st, flags);
    if ((flags & AT_EMPTY_PATH) && path && !*path) {
        int x = syscall(SYS_newfstatat, d, path, st, flags);
        if (!x && getfd(d) && under(getfd(d))) fake(st);
        return x;
    }
    if (resolve(d, path, p) || !under(p)) return syscall(SYS_newfstatat, d, path, st, flags);
    if (!tracked(p)) { int x = syscall(SYS_newfstatat, d, path, st, flags); if (!x) fake(st); return x; }
    struct reply r = ask((flags & AT_SYMLINK_NOFOLLOW) ? "lstat" : "stat", p, "", flags, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    int x = syscall(SYS_newfstatat, d, path, st, flags);
    if (!x) fake(st);
    return done(&r, x);
}
EXPORT int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
EXPORT int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) { return do_stat(d, p, st, f); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_stat(d, p, (struct stat *)st, f); }
EXPORT int fstat64(int fd, struct stat64 *st) {
    int x = syscall(SYS_fstat, fd, st);
    if (!x && ON && getfd(fd) && under(getfd(fd))) fake((struct stat *)st);
    return x;
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int statx(int d, const char *path, int flags, unsigned mask, struct statx *sx) {
    char p[PMAX];
    int x = syscall(SYS_statx, d, path, flags, mask, sx);
    if (x || !ON) return x;
    if ((flags & AT_EMPTY_PATH) && path && !*path) { if (!getfd(d) || !under(getfd(d))) return x; }
    else if (resolve(d, path, p) || !under(p)) return x;
    int64_t m, c;
    if (!times(sx->stx_ino, &m, &c)) m = c = pg ? pg->default_ns : 0;
    sx->stx_mtime.tv_sec = fdiv(m); sx->stx_mtime.tv_nsec = m - fdiv(m) * 1000000000;
    sx->stx_ctime.tv_sec = fdiv(c); sx->stx_ctime.tv_nsec = c - fdiv(c) * 1000000000;
    sx->stx_btime = sx->stx_ctime; sx->stx_atime = sx->stx_mtime;
    return x;
}
static int do_access(int d, const char *path, int mode, int flags) {
    char p[PMAX];
    if (!ON || resolve(d, path, p) || !tracked(p)) return flags ? syscall(SYS_faccessat2, d, path, mode, flags) : syscall(SYS_faccessat, d, path, mode);
    struct reply r = ask("access", p, "", mode, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, flags ? syscall(SYS_faccessat2, d, path, mode, flags) : syscall(SYS_faccessat, d, path, mode));
}
EXPORT int access(const char *p, int mode) { return do_access(AT_FDCWD, p, mode, 0); }
EXPORT int faccessat(int d, const char *p, int mode, int fl) { return do_access(d, p, mode, fl); }
EXPORT ssize_t readlink(const char *path, char *b, size_t n) {
    char p[PMAX];
    if (!ON || resolve(AT_FDCWD, path, p) || !tracked(p)) return syscall(SYS_readlink, path, b, n);
    struct reply r = ask("readlink", p, "", 0, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_readlink, path, b, n));
}
EXPORT ssize_t readlinkat(int d, const char *path, char *b, size_t n) {
    char p[PMAX];
    if (!ON || resolve(d, path, p) || !tracked(p)) return syscall(SYS_readlinkat, d, path, b, n);
    struct reply r = ask("readlink", p, "", 0, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_readlinkat, d, path, b, n));
}

/* ---- name space operations --------------------------------------------------------------------------------------- */
#define ONEPATH(opname, d, path, fl, call) \
    char p[PMAX]; \
    if (!ON || resolve(d, path, p) || !mtracked(p)) return call; \
    struct reply r = ask(opname, p, "", fl, 0); \
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); } \
    return done(&r, call);
#define TWOPATH(opname, d1, p1, d2, p2, fl, call) \
    char a[PMAX], b[PMAX]; \
    if (!ON || resolve(d1, p1, a) || resolve(d2, p2, b) || !(mtracked(a) || mtracked(b))) return call; \
    struct reply r = ask(opname, a, b, fl, 0); \
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); } \
    return done(&r, call);
EXPORT int mkdir(const char *path, mode_t m) { ONEPATH("mkdir", AT_FDCWD, path, m, syscall(SYS_mkdir, path, m)) }
EXPORT int mkdirat(int d, const char *path, mode_t m) { ONEPATH("mkdir", d, path, m, syscall(SYS_mkdirat, d, path, m)) }
EXPORT int rmdir(const char *path) { ONEPATH("rmdir", AT_FDCWD, path, 0, syscall(SYS_rmdir, path)) }
EXPORT int unlink(const char *path) { ONEPATH("unlink", AT_FDCWD, path, 0, syscall(SYS_unlink, path)) }
EXPORT int unlinkat(int d, const char *path, int f) { ONEPATH((f & AT_REMOVEDIR) ? "rmdir" : "unlink", d, path, f, syscall(SYS_unlinkat, d, path, f)) }
EXPORT int remove(const char *path) { struct stat st; if (!syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) && S_ISDIR(st.st_mode)) return rmdir(path); return unlink(path); }
EXPORT int rename(const char *x, const char *y) { TWOPATH("rename", AT_FDCWD, x, AT_FDCWD, y, 0, syscall(SYS_rename, x, y)) }
EXPORT int renameat(int d1, const char *x, int d2, const char *y) { TWOPATH("rename", d1, x, d2, y, 0, syscall(SYS_renameat, d1, x, d2, y)) }
EXPORT int renameat2(int d1, const char *x, int d2, const char *y, unsigned f) { TWOPATH("rename", d1, x, d2, y, f, syscall(SYS_renameat2, d1, x, d2, y, f)) }
EXPORT int link(const char *x, const char *y) { TWOPATH("link", AT_FDCWD, x, AT_FDCWD, y, 0, syscall(SYS_link, x, y)) }
EXPORT int linkat(int d1, const char *x, int d2, const char *y, int f) { TWOPATH("link", d1, x, d2, y, f, syscall(SYS_linkat, d1, x, d2, y, f)) }
EXPORT int symlink(const char *t, const char *path) { ONEPATH("symlink", AT_FDCWD, path, 0, syscall(SYS_symlink, t, path)) }
EXPORT int symlinkat(const char *t, int d, const char *path) { ONEPATH("symlink", d, path, 0, syscall(SYS_symlinkat, t, d, path)) }
EXPORT int chmod(const char *path, mode_t m) { ONEPATH("chmod", AT_FDCWD, path, m, syscall(SYS_chmod, path, m)) }
EXPORT int fchmodat(int d, const char *path, mode_t m, int f) { (void)f; ONEPATH("chmod", d, path, m, syscall(SYS_fchmodat, d, path, m)) }
EXPORT int fchmod(int fd, mode_t m) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_fchmod, fd, m);
    struct reply r = ask("chmod", getfd(fd), "", m, 0);
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_fchmod, fd, m));
}
static long ts(const struct timespec *t) { /* LONG_MIN: now, LONG_MIN+1: omit */
    if (!t || t->tv_nsec == UTIME_NOW) return INT64_MIN;
    if (t->tv_nsec == UTIME_OMIT) return INT64_MIN + 1;
    return t->tv_sec * 1000000000L + t->tv_nsec;
}
EXPORT int utimensat(int d, const char *path, const struct timespec t[2], int f) {
    char p[PMAX];
    if (!ON || resolve(d, path, p) || !mtracked(p)) return syscall(SYS_utimensat, d, path, t, f);
    struct reply r = ask("utime", p, "", f, ts(t ? t + 1 : NULL));
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_utimensat, d, path, t, f));
}
EXPORT int futimens(int fd, const struct timespec t[2]) {
    if (!ON || !fdtracked(fd)) return syscall(SYS_utimensat, fd, NULL, t, 0);
    struct reply r = ask("utime", getfd(fd), "", 0, ts(t ? t + 1 : NULL));
    if (r.action == A_FAIL) { errno = r.err; return done(&r, -1); }
    return done(&r, syscall(SYS_utimensat, fd, NULL, t, 0));
}

/* ---- directories: sorted, then shuffled by the scheduler's seed --------------------------------------------------- */
struct dirsim { DIR *d; struct dirent64 **e; int n, i; uint64_t seed; int loaded; struct dirsim *next; };
static struct dirsim *dirs = NULL;
static int cmpent(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static void track_dir(DIR *d, uint64_t seed) {
    struct dirsim *s = calloc(1, sizeof *s); s->d = d; s->seed = seed; s->next = dirs; dirs = s;
}
EXPORT DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *); char p[PMAX];
    if (!ON || resolve(AT_FDCWD, path, p) || !tracked(p)) {
        DIR *d = real_opendir(path);
        if (d && armed && !resolve(AT_FDCWD, path, p) && under(p)) setfd(dirfd(d), p);
        return d;
    }
    struct reply r = ask("listdir", p, "", 0, 0);
    if (r.action == A_FAIL) { errno = r.err; done(&r, -1); return NULL; }
    inside++; DIR *d = real_opendir(path); inside--;
    if (d) { setfd(dirfd(d), p); track_dir(d, r.seed); }
    done(&r, d ? 0 : -1);
    return d;
}
EXPORT DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int);
    if (!ON || !fdinroot(fd)) return real_fdopendir(fd);
    struct reply r = ask("listdir", getfd(fd), "", 0, 0);
    if (r.action == A_FAIL) { errno = r.err; done(&r, -1); return NULL; }
    DIR *d = real_fdopendir(fd);
    if (d) track_dir(d, r.seed);
    done(&r, d ? 0 : -1);
    return d;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    struct dirsim *s = NULL;
    if (armed) for (s = dirs; s && s->d != d; s = s->next);
    if (!s) return real_readdir64(d);
    if (!s->loaded) {
        struct dirent64 *e; int cap = 0, err = errno;
        while ((e = real_readdir64(d))) {
            if (s->n == cap) { cap = cap ? cap * 2 : 16; s->e = realloc(s->e, cap * sizeof *s->e); }
            s->e[s->n] = malloc(e->d_reclen); memcpy(s->e[s->n++], e, e->d_reclen);
        }
        qsort(s->e, s->n, sizeof *s->e, cmpent);
        uint64_t st = s->seed;
        for (int i = s->n - 1; i > 0 && s->seed; i--) {
            int j = splitmix(&st) % (i + 1); struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
        }
        s->loaded = 1; errno = err;
    }
    return s->i < s->n ? s->e[s->i++] : NULL;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT void rewinddir(DIR *d) {
    REAL(void, rewinddir, DIR *);
    for (struct dirsim *s = dirs; s; s = s->next) if (s->d == d) s->i = 0;
    real_rewinddir(d);
}
EXPORT int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    for (struct dirsim **pp = &dirs; *pp; pp = &(*pp)->next) if ((*pp)->d == d) {
        struct dirsim *s = *pp; *pp = s->next;
        for (int i = 0; i < s->n; i++) free(s->e[i]);
        free(s->e); free(s); break;
    }
    if (armed) setfd(dirfd(d), NULL);
    return real_closedir(d);
}

/* ---- stdio on tracked files goes through the descriptors above ---------------------------------------------------- */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int)(long)c); }
static FILE *do_fopen(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
    char p[PMAX];
    if (!ON || resolve(AT_FDCWD, path, p) || !tracked(p)) return real(path, mode);
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = do_open(AT_FDCWD, path, fl, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie((void *)(long)fd, mode, io);
}
EXPORT FILE *fopen(const char *path, const char *mode) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(path, mode, real_fopen); }
EXPORT FILE *fopen64(const char *path, const char *mode) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(path, mode, real_fopen64); }

/* ---- clocks, sleep, randomness -------------------------------------------------------------------------------------- */
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
    if (armed && pg && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME
        || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)) {
        int64_t n = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? pg->real_ns : pg->mono_ns;
        t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
    }
    return syscall(SYS_clock_gettime, id, t);
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int do_sleep(int64_t ns) { struct reply r = ask("sleep", "", "", 0, ns); return done(&r, 0); }
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    if (ON) {
        int64_t n = t->tv_sec * 1000000000L + t->tv_nsec;
        if (flags & TIMER_ABSTIME) n -= (id == CLOCK_REALTIME) ? pg->real_ns : pg->mono_ns;
        return do_sleep(n < 0 ? 0 : n);
    }
    return syscall(SYS_clock_nanosleep, id, flags, t, rem) < 0 ? errno : 0;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (ON) return do_sleep(t->tv_sec * 1000000000L + t->tv_nsec);
    return syscall(SYS_nanosleep, t, rem);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!armed) return syscall(SYS_getrandom, b, n, f);
    unsigned char *c = b; uint64_t w = 0;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) w = splitmix(&rng); c[i] = w >> (8 * (i % 8)); }
    return n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
static int simpid = 0;
EXPORT void dst_setpid(int p) { simpid = p; }
EXPORT pid_t getpid(void) { return simpid ? simpid : (pid_t)syscall(SYS_getpid); }
