/* System-call layer under simulation (LD_PRELOAD).
 *
 * Calls on paths below a watched root, and on descriptors opened there, are numbered; a plan says
 * which of them fail, are cut short, or end the process. Everything is logged with its data, in
 * memory shared with the parent, so that the log survives the death of the process.
 * Calls elsewhere pass through untouched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, FSYNC, RENAME, UNLINK, TRUNC, MKDIR, RMDIR, LINK, SYMLINK, CHMOD, CHDIR };
/* faults: fail with errno; transfer only a part; part then nothing any more; end before, after, in the middle */
enum { F_ERRNO = 1, F_SHORT, F_STICKY, F_EXIT_BEFORE, F_EXIT_AFTER, F_EXIT_MID };

#define NPLAN 16
#define NFD 1024
#define ARENA (48u << 20)

struct fault { int64_t at; int32_t kind, arg; int32_t fired, op; };
struct ctl {
    char root[1024];
    int32_t active, sticky, overflow, nplan;
    int64_t count;      /* watched calls so far */
    int64_t used;       /* bytes of log */
    struct fault plan[NPLAN];
    char arena[ARENA];
};
struct rec { int32_t op, fd; int64_t a, b, res; int32_t err, who; uint32_t np, nq, nd, pad; };

int dst_shim_present = 1;
static struct ctl *C;
static char fdpath[NFD][PATH_MAX];
static int fdopen_[NFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
/* actors: a thread with a gate announces each watched call and waits for leave to make it */
static __thread int actor, gate_in = -1, gate_out = -1;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void *dst_alloc(void) {
    C = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (C == MAP_FAILED) C = NULL;
    return C;
}
int dst_arena_offset(void) { return (int)offsetof(struct ctl, arena); }

/* forget the log and the plan; watch paths below root (empty: nothing) */
void dst_reset(const char *root) {
    if (!C) return;
    C->active = 0;
    strncpy(C->root, root, sizeof C->root - 1);
    C->count = C->used = C->sticky = C->overflow = C->nplan = 0;
    memset(C->plan, 0, sizeof C->plan);
    C->active = root[0] != 0;
}
void dst_plan(long at, int kind, int arg) {
    if (!C || C->nplan >= NPLAN) return;
    struct fault *f = &C->plan[C->nplan++];
    f->at = at; f->kind = kind; f->arg = arg; f->fired = 0;
}
void dst_actor(int who, int in, int out) { actor = who; gate_in = in; gate_out = out; }
void dst_stop(void) { if (C) C->active = 0; }

static void gate(void) {
    if (gate_out < 0) return;
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, read, int, void *, size_t);
    char c = 'g';
    if (real_write(gate_out, &c, 1) != 1 || real_read(gate_in, &c, 1) != 1) _exit(78);
}

static int absolute(int dirfd, const char *p, char *out) {
    if (!p) return -1;
    if (p[0] == '/') { if (strlen(p) >= PATH_MAX) return -1; strcpy(out, p); }
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return -1; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            if (n < 0) return -1;
            base[n] = 0;
        }
        if (strlen(base) + strlen(p) + 2 >= PATH_MAX) return -1;
        sprintf(out, "%s/%s", base, p);
    }
    /* drop "." and ".." */
    char res[PATH_MAX]; size_t n = 0;
    char *s = out;
    while (*s) {
        while (*s == '/') s++;
        char *e = s; while (*e && *e != '/') e++;
        size_t k = e - s;
        if (k == 0) break;
        if (k == 1 && s[0] == '.') ;
        else if (k == 2 && s[0] == '.' && s[1] == '.') { while (n && res[n - 1] != '/') n--; if (n) n--; }
        else { res[n++] = '/'; memcpy(res + n, s, k); n += k; }
        s = e;
    }
    if (!n) res[n++] = '/';
    res[n] = 0;
    strcpy(out, res);
    return 0;
}
static int below(const char *p) {
    if (!C || !C->active) return 0;
    size_t n = strlen(C->root);
    return n && !strncmp(p, C->root, n) && (p[n] == '/' || p[n] == 0);
}
static int watched(int fd) { return C && C->active && fd >= 0 && fd < NFD && fdopen_[fd] && below(fdpath[fd]); }

static void put(int op, int fd, int64_t a, int64_t b, int64_t res, int err, const char *p, const char *q, const void *d, size_t nd) {
    struct rec r = {op, fd, a, b, res, err, actor, p ? strlen(p) : 0, q ? strlen(q) : 0, nd, 0};
    size_t need = sizeof r + r.np + r.nq + nd;
    if (C->used + need > ARENA) { C->overflow = 1; return; }
    char *w = C->arena + C->used;
    memcpy(w, &r, sizeof r); w += sizeof r;
    if (r.np) { memcpy(w, p, r.np); w += r.np; }
    if (r.nq) { memcpy(w, q, r.nq); w += r.nq; }
    if (nd) memcpy(w, d, nd);
    C->used += need;
}

/* next call: the fault planned for it, if any. Calls that only read do not meet a full disk. */
static struct fault *enter(int op, int spends) {
    static struct fault full;
    int64_t k = ++C->count;
    for (int i = 0; i < C->nplan; i++)
        if (C->plan[i].at == k && !C->plan[i].fired) {
            C->plan[i].fired = 1;
            C->plan[i].op = op;
            if (C->plan[i].kind == F_EXIT_BEFORE) { put(op, -1, 0, 0, 0, 0, NULL, NULL, NULL, 0); _exit(77); }
            return &C->plan[i];
        }
    if (C->sticky && spends) { full.kind = F_ERRNO; full.arg = C->sticky; full.at = k; return &full; }
    return NULL;
}
static void leave(struct fault *f) { if (f && f->kind >= F_EXIT_AFTER) _exit(77); }

/* ------------------------------------------------------------------ open, close */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(dirfd, path, p) || !below(p)) {
        int fd = real_openat64(dirfd, path, flags, mode);
        if (fd >= 0 && fd < NFD) fdopen_[fd] = 0;
        return fd;
    }
    gate(); pthread_mutex_lock(&mu);
    struct fault *f = enter(OPEN, (flags & O_CREAT) != 0);
    int fd, err = 0;
    if (f && f->kind == F_ERRNO) { fd = -1; err = f->arg; }
    else { fd = real_openat64(dirfd, path, flags, mode); err = fd < 0 ? errno : 0; }
    if (fd >= 0 && fd < NFD) { fdopen_[fd] = 1; strcpy(fdpath[fd], p); }
    put(OPEN, fd, flags, mode, fd, err, p, NULL, NULL, 0);
    leave(f);
    pthread_mutex_unlock(&mu);
    errno = err;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

int close(int fd) {
    REAL(int, close, int);
    if (!watched(fd)) { if (fd >= 0 && fd < NFD) fdopen_[fd] = 0; return real_close(fd); }
    gate(); pthread_mutex_lock(&mu);
    struct fault *f = enter(CLOSE, 0);
    int r = real_close(fd), err = r ? errno : 0;
    if (f && f->kind == F_ERRNO) { r = -1; err = f->arg; }
    fdopen_[fd] = 0;
    put(CLOSE, fd, 0, 0, r, err, fdpath[fd], NULL, NULL, 0);
    leave(f);
    pthread_mutex_unlock(&mu);
    errno = err;
    return r;
}
static void dupfd(int a, int b) {
    if (b >= 0 && b < NFD) {
        if (a >= 0 && a < NFD && fdopen_[a]) { fdopen_[b] = 1; if (a != b) strcpy(fdpath[b], fdpath[a]); }
        else fdopen_[b] = 0;
    }
}
int dup(int a) { REAL(int, dup, int); int b = real_dup(a); dupfd(a, b); return b; }
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = real_dup2(a, b); if (r >= 0 && a != b) dupfd(a, r); return r; }
int dup3(int a, int b, int fl) { REAL(int, dup3, int, int, int); int r = real_dup3(a, b, fl); if (r >= 0) dupfd(a, r); return r; }

/* ------------------------------------------------------------------ transfers */
static size_t part(struct fault *f, size_t n) {
    size_t k = n * (size_t)f->arg / 1000;
    return k < 1 ? (n ? 1 : 0) : k > n ? n : k;
}
static ssize_t out(int fd, const void *buf, size_t n, off64_t off) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!watched(fd)) return off < 0 ? real_write(fd, buf, n) : real_pwrite64(fd, buf, n, off);
    gate(); pthread_mutex_lock(&mu);
    struct fault *f = enter(WRITE, 1);
    int fl = fcntl(fd, F_GETFL);
    off64_t at = off >= 0 ? off : (fl & O_APPEND) ? lseek64(fd, 0, SEEK_END) : lseek64(fd, 0, SEEK_CUR);
    ssize_t r; int err = 0;
    if (f && f->kind == F_ERRNO) { r = -1; err = f->arg; }
    else {
        size_t m = n;
        if (f && (f->kind == F_SHORT || f->kind == F_STICKY || f->kind == F_EXIT_MID)) m = part(f, n);
        if (f && f->kind == F_STICKY) C->sticky = ENOSPC;
        r = off < 0 ? real_write(fd, buf, m) : real_pwrite64(fd, buf, m, off);
        err = r < 0 ? errno : 0;
    }
    put(WRITE, fd, at, n, r, err, fdpath[fd], NULL, buf, r > 0 ? r : 0);
    leave(f);
    pthread_mutex_unlock(&mu);
    errno = err;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return out(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return out(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return out(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!watched(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = out(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
static ssize_t in(int fd, void *buf, size_t n, off64_t off) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (!watched(fd)) return off < 0 ? real_read(fd, buf, n) : real_pread64(fd, buf, n, off);
    gate(); pthread_mutex_lock(&mu);
    struct fault *f = enter(READ, 0);
    ssize_t r; int err = 0;
    if (f && f->kind == F_ERRNO) { r = -1; err = f->arg; }
    else {
        size_t m = f && (f->kind == F_SHORT || f->kind == F_STICKY) ? part(f, n) : n;
        r = off < 0 ? real_read(fd, buf, m) : real_pread64(fd, buf, m, off);
        err = r < 0 ? errno : 0;
    }
    put(READ, fd, off, n, r, err, fdpath[fd], NULL, NULL, 0);
    leave(f);
    pthread_mutex_unlock(&mu);
    errno = err;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return in(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return in(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return in(fd, b, n, o); }
/* copies inside the kernel are refused: callers fall back on read and write */
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (watched(o) || watched(i)) { errno = EINVAL; return -1; }
    return real_sendfile(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (watched(o) || watched(i)) { errno = EOPNOTSUPP; return -1; }
    return real_copy_file_range(i, io, o, oo, n, fl);
}

/* ------------------------------------------------------------------ calls with a descriptor and a status */
#define FDCALL(name, OP, ARGS, CALL, A) \
int name ARGS { \
    REAL(int, name, SIG_##name); \
    if (!watched(fd)) return real_##name CALL; \
    gate(); pthread_mutex_lock(&mu); \
    struct fault *f = enter(OP, OP == TRUNC); \
    int r, err; \
    if (f && f->kind == F_ERRNO) { r = -1; err = f->arg; } \
    else { r = real_##name CALL; err = r ? errno : 0; } \
    put(OP, fd, A, 0, r, err, fdpath[fd], NULL, NULL, 0); \
    leave(f); \
    pthread_mutex_unlock(&mu); \
    errno = err; \
    return r; \
}
#define SIG_fsync int
#define SIG_fdatasync int
#define SIG_ftruncate int, off_t
#define SIG_ftruncate64 int, off64_t
#define SIG_fchmod int, mode_t
FDCALL(fsync, FSYNC, (int fd), (fd), 0)
FDCALL(fdatasync, FSYNC, (int fd), (fd), 1)
FDCALL(ftruncate, TRUNC, (int fd, off_t n), (fd, n), n)
FDCALL(ftruncate64, TRUNC, (int fd, off64_t n), (fd, n), n)
FDCALL(fchmod, CHMOD, (int fd, mode_t m), (fd, m), m)

/* ------------------------------------------------------------------ calls with one or two paths */
#define PATHBODY(OP, SPENDS, CALL, Q, A) \
    gate(); pthread_mutex_lock(&mu); \
    struct fault *f = enter(OP, SPENDS); \
    int r, err; \
    if (f && f->kind == F_ERRNO) { r = -1; err = f->arg; } \
    else { r = CALL; err = r ? errno : 0; } \
    put(OP, -1, A, 0, r, err, p, Q, NULL, 0); \
    leave(f); \
    pthread_mutex_unlock(&mu); \
    errno = err; \
    return r;

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    REAL(int, renameat2, int, const char *, int, const char *, unsigned);
    char p[PATH_MAX], q[PATH_MAX];
    if (!C || !C->active || absolute(d1, a, p) || absolute(d2, b, q) || !(below(p) || below(q))) return real_renameat2(d1, a, d2, b, fl);
    PATHBODY(RENAME, 1, real_renameat2(d1, a, d2, b, fl), q, fl)
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

static int do_unlink(int d, const char *a, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(d, a, p) || !below(p)) return real_unlinkat(d, a, fl);
    PATHBODY(((fl & AT_REMOVEDIR) ? RMDIR : UNLINK), 0, real_unlinkat(d, a, fl), NULL, 0)
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { return do_unlink(d, a, fl); }
int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a) { int r = do_unlink(AT_FDCWD, a, 0); return r && errno == EISDIR ? do_unlink(AT_FDCWD, a, AT_REMOVEDIR) : r; }

static int do_mkdir(int d, const char *a, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(d, a, p) || !below(p)) return real_mkdirat(d, a, m);
    PATHBODY(MKDIR, 1, real_mkdirat(d, a, m), NULL, m)
}
int mkdir(const char *a, mode_t m) { return do_mkdir(AT_FDCWD, a, m); }
int mkdirat(int d, const char *a, mode_t m) { return do_mkdir(d, a, m); }

static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    REAL(int, linkat, int, const char *, int, const char *, int);
    char p[PATH_MAX], q[PATH_MAX];
    if (!C || !C->active || absolute(d1, a, p) || absolute(d2, b, q) || !(below(p) || below(q))) return real_linkat(d1, a, d2, b, fl);
    PATHBODY(LINK, 1, real_linkat(d1, a, d2, b, fl), q, 0)
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }

static int do_symlink(const char *a, int d, const char *b) {
    REAL(int, symlinkat, const char *, int, const char *);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(d, b, p) || !below(p)) return real_symlinkat(a, d, b);
    PATHBODY(SYMLINK, 1, real_symlinkat(a, d, b), a, 0)
}
int symlink(const char *a, const char *b) { return do_symlink(a, AT_FDCWD, b); }
int symlinkat(const char *a, int d, const char *b) { return do_symlink(a, d, b); }

static int do_chmod(int d, const char *a, mode_t m, int fl) {
    REAL(int, fchmodat, int, const char *, mode_t, int);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(d, a, p) || !below(p)) return real_fchmodat(d, a, m, fl);
    PATHBODY(CHMOD, 0, real_fchmodat(d, a, m, fl), NULL, m)
}
int chmod(const char *a, mode_t m) { return do_chmod(AT_FDCWD, a, m, 0); }
int fchmodat(int d, const char *a, mode_t m, int fl) { return do_chmod(d, a, m, fl); }

int truncate64(const char *a, off64_t n) {
    REAL(int, truncate64, const char *, off64_t);
    char p[PATH_MAX];
    if (!C || !C->active || absolute(AT_FDCWD, a, p) || !below(p)) return real_truncate64(a, n);
    PATHBODY(TRUNC, 1, real_truncate64(a, n), NULL, n)
}
int truncate(const char *a, off_t n) { return truncate64(a, n); }
