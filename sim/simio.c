/* simio: the simulator's seam at the C library for file I/O, directory order and clocks.
 *
 * Loaded with LD_PRELOAD. Unarmed, every call passes straight through. Armed, every file operation on a path under the
 * simulated root gets an ordinal number in the order it happens; the fault plan names ordinals. All that happened is
 * logged to a shared memory region that outlives the process, so that a crash loses no history.
 *
 * A crash is _exit(CRASH_RC) at an operation: everything the process had handed to the kernel survives, everything it
 * had only in memory is lost - what a batch system's kill or an out-of-memory kill leaves behind. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define CRASH_RC 137
#define MAXLOG 16384
#define MAXFAULT 64
#define NAMELEN 88
#define MAXFD 4096
#define MAXDIR 64

enum { OP_OPEN_R = 1, OP_OPEN_W, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_CLOSE,
       OP_OPENDIR, OP_LINK, OP_RMDIR };
enum { F_ERR = 1, F_SHORT, F_TORN_ERR, F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_TORN, F_FULL, F_EINTR };

typedef struct { int32_t kind, res, err, fault; int64_t off, len; char name[NAMELEN]; } entry_t;
typedef struct { int64_t at; int32_t act, err; int64_t arg; int32_t fired, _p; } fault_t;
typedef struct {
    volatile int32_t armed, nfaults, full, clock_on;
    volatile int64_t nops, nlog, nclock, nsleep;
    uint64_t dirseed;
    int64_t clock_ns, clock_step, mono_ns;
    int64_t jump_at[8], jump_by[8];
    int32_t njumps, watchfd;
    int64_t vslept_ns;
    uint64_t entropy;
    char root[512];
    char input[512];
    int64_t input_writes;
    fault_t faults[MAXFAULT];
    entry_t log[MAXLOG];
} shm_t;

static shm_t *S;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char fdname[MAXFD][NAMELEN];
static unsigned char fdin[MAXFD];  /* descriptor of a tracked file */
static int pathmax_guard;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

/* ---------------------------------------------------------------- set-up */
static void attach(const char *path, int create) {
    REAL(int, "open", const char *, int, ...);
    int fd = real(path, O_RDWR | (create ? O_CREAT : 0), 0666);
    if (fd < 0) return;
    static int (*rft)(int, off_t);
    if (!rft) rft = dlsym(RTLD_NEXT, "ftruncate");
    if (create && rft(fd, sizeof(shm_t))) {}
    void *p = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    static int (*rcl)(int);
    if (!rcl) rcl = dlsym(RTLD_NEXT, "close");
    rcl(fd);
    if (p != MAP_FAILED) S = p;
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("SIMIO_SHM");
    (void)pathmax_guard;
    if (p && *p) attach(p, 0);
}

/* From Python through ctypes: (re)create the region, fill it, arm it. */
int simio_attach(const char *path) { attach(path, 1); return S ? 0 : -1; }
shm_t *simio_state(void) { return S; }
size_t simio_size(void) { return sizeof(shm_t); }
void simio_reset(void) {
    if (!S) return;
    S->armed = 0;
    memset((void *)S, 0, offsetof(shm_t, log));
    memset(fdin, 0, sizeof fdin);
}
void simio_arm(const char *root, const char *input, uint64_t dirseed) {
    if (!S) return;
    snprintf(S->root, sizeof S->root, "%s", root);
    snprintf(S->input, sizeof S->input, "%s", input ? input : "");
    S->dirseed = dirseed;
    S->armed = 1;
}
void simio_fault(int64_t at, int act, int err, int64_t arg) {
    if (!S || S->nfaults >= MAXFAULT) return;
    fault_t *f = &S->faults[S->nfaults];
    f->at = at; f->act = act; f->err = err; f->arg = arg; f->fired = 0;
    S->nfaults++;
}
void simio_clock(int64_t start_ns, int64_t step_ns) { if (S) { S->clock_ns = start_ns; S->clock_step = step_ns; S->mono_ns = 1000000000; S->clock_on = 1; } }
void simio_jump(int64_t at, int64_t by) { if (S && S->njumps < 8) { S->jump_at[S->njumps] = at; S->jump_by[S->njumps] = by; S->njumps++; } }
void simio_disarm(void) { if (S) { S->armed = 0; S->full = 0; S->clock_on = 0; } }
int64_t simio_nops(void) { return S ? S->nops : 0; }

/* ---------------------------------------------------------------- bookkeeping */
static int under(const char *root, const char *path) {
    size_t n = strlen(root);
    return n && !strncmp(path, root, n) && (path[n] == '/' || path[n] == 0);
}
static const char *absol(const char *path, char *buf) {
    if (path[0] == '/') return path;
    if (!getcwd(buf, PATH_MAX)) return path;
    size_t n = strlen(buf);
    while (path[0] == '.' && path[1] == '/') path += 2;
    snprintf(buf + n, PATH_MAX - n, "/%s", path);
    return buf;
}
static int tracked(const char *path) {
    if (!S || !S->armed || !path) return 0;
    char b[PATH_MAX + 2];
    return under(S->root, absol(path, b));
}
static void rel(const char *path, char *out) {
    char b[PATH_MAX + 2];
    const char *p = absol(path, b);
    size_t n = strlen(S->root);
    p = under(S->root, p) ? p + n + (p[n] == '/') : p;
    size_t l = strlen(p);
    if (l >= NAMELEN) p += l - NAMELEN + 1;
    snprintf(out, NAMELEN, "%s", p);
}
static void crash(void) { _exit(CRASH_RC); }

/* Take a number for an operation and find what the plan says about it. */
typedef struct { int64_t n; fault_t *f; entry_t *e; } tk;
static int write_like(int kind) {
    return kind == OP_OPEN_W || kind == OP_WRITE || kind == OP_TRUNC || kind == OP_RENAME || kind == OP_MKDIR ||
           kind == OP_LINK || kind == OP_SYNC;
}
static tk begin(int kind, const char *name, int64_t off, int64_t len) {
    tk t = {0, NULL, NULL};
    pthread_mutex_lock(&mu);
    t.n = S->nops++;
    if (S->nlog < MAXLOG) {
        t.e = &S->log[S->nlog++];
        memset(t.e, 0, sizeof *t.e);
        t.e->kind = kind; t.e->off = off; t.e->len = len;
        snprintf(t.e->name, NAMELEN, "%s", name);
    }
    if (S->input[0]) {
        size_t n = strlen(S->input);
        if ((kind == OP_OPEN_W || kind == OP_WRITE || kind == OP_TRUNC || kind == OP_RENAME || kind == OP_UNLINK ||
             kind == OP_MKDIR || kind == OP_LINK || kind == OP_RMDIR) && !strncmp(name, S->input, n) &&
            (name[n] == '/' || name[n] == 0))
            S->input_writes++;
    }
    for (int i = 0; i < S->nfaults; i++)
        if (S->faults[i].at == t.n && !S->faults[i].fired) { t.f = &S->faults[i]; break; }
    pthread_mutex_unlock(&mu);
    if (t.f) {
        int a = t.f->act;
        int rw = kind == OP_READ || kind == OP_WRITE;
        /* An action that makes no sense for this kind of operation becomes the nearest that does. */
        if (a == F_SHORT && (!rw || len < 2)) a = 0;
        if (a == F_EINTR && !rw) a = 0;
        if (a == F_TORN_ERR && kind != OP_WRITE) a = F_ERR;
        if (a == F_CRASH_TORN && kind != OP_WRITE) a = F_CRASH_BEFORE;
        if (a == F_ERR && kind == OP_CLOSE) a = F_ERR;
        if (a == F_FULL) { if (write_like(kind)) {} }
        t.f->act = a ? a : t.f->act;
        if (!a) { t.f->fired = 2; t.f = NULL; }
        else {
            t.f->fired = 1;
            if (t.e) t.e->fault = a;
            if (a == F_FULL) { S->full = 1; t.f = NULL; }
            else if (a == F_CRASH_BEFORE) crash();
        }
    }
    return t;
}
static void end(tk t, int64_t res, int err) {
    if (t.e) { t.e->res = res > INT_MAX ? INT_MAX : (int32_t)res; t.e->err = err; }
    if (t.f && t.f->act == F_CRASH_AFTER) crash();
}
/* An error to return instead of doing the operation, or 0. */
static int fails(tk t, int kind) {
    if (t.f && t.f->act == F_ERR) return t.f->err ? t.f->err : EIO;
    if (t.f && t.f->act == F_EINTR) return EINTR;
    if (S->full && write_like(kind) && kind != OP_RENAME && kind != OP_SYNC) return ENOSPC;
    return 0;
}
static int tfd(int fd) { return S && S->armed && fd >= 0 && fd < MAXFD && fdin[fd]; }

/* ---------------------------------------------------------------- open and close */
static int open_common(const char *path, int flags, mode_t mode, int which, int dirfd) {
    static int (*ro)(const char *, int, ...), (*ro64)(const char *, int, ...), (*roa)(int, const char *, int, ...), (*roa64)(int, const char *, int, ...);
    if (!ro) { ro = dlsym(RTLD_NEXT, "open"); ro64 = dlsym(RTLD_NEXT, "open64"); roa = dlsym(RTLD_NEXT, "openat"); roa64 = dlsym(RTLD_NEXT, "openat64"); }
#define DO_OPEN() (which == 0 ? ro(path, flags, mode) : which == 1 ? ro64(path, flags, mode) : which == 2 ? roa(dirfd, path, flags, mode) : roa64(dirfd, path, flags, mode))
    if (!tracked(path) || (flags & O_DIRECTORY)) {
        int fd = DO_OPEN();
        if (fd >= 0 && fd < MAXFD) fdin[fd] = 0;
        return fd;
    }
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    char nm[NAMELEN];
    rel(path, nm);
    tk t = begin(wr ? OP_OPEN_W : OP_OPEN_R, nm, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND), 0);
    int e = fails(t, wr && (flags & O_CREAT) ? OP_OPEN_W : OP_OPEN_R);
    if (e) { end(t, -1, e); errno = e; return -1; }
    int fd = DO_OPEN();
    int er = errno;
    if (fd >= 0 && fd < MAXFD) { fdin[fd] = 1; memcpy(fdname[fd], nm, NAMELEN); }
    end(t, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : er);
    errno = er;
    return fd;
}
#define VA_MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { VA_MODE(); return open_common(path, flags, mode, 0, 0); }
int open64(const char *path, int flags, ...) { VA_MODE(); return open_common(path, flags, mode, 1, 0); }
int openat(int d, const char *path, int flags, ...) {
    VA_MODE();
    if (path[0] != '/' && d != AT_FDCWD) { static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "openat"); return r(d, path, flags, mode); }
    return open_common(path, flags, mode, 2, d);
}
int openat64(int d, const char *path, int flags, ...) {
    VA_MODE();
    if (path[0] != '/' && d != AT_FDCWD) { static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "openat64"); return r(d, path, flags, mode); }
    return open_common(path, flags, mode, 3, d);
}
int creat(const char *path, mode_t mode) { return open_common(path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0, 0); }
int creat64(const char *path, mode_t mode) { return open_common(path, O_CREAT | O_WRONLY | O_TRUNC, mode, 1, 0); }
/* glibc's fortified variants */
int __open_2(const char *path, int flags) { return open_common(path, flags, 0, 0, 0); }
int __open64_2(const char *path, int flags) { return open_common(path, flags, 0, 1, 0); }

int close(int fd) {
    REAL(int, "close", int);
    if (!tfd(fd)) { if (fd >= 0 && fd < MAXFD) fdin[fd] = 0; return real(fd); }
    tk t = begin(OP_CLOSE, fdname[fd], 0, 0);
    int e = (t.f && t.f->act == F_ERR) ? (t.f->err ? t.f->err : EIO) : 0;
    fdin[fd] = 0;
    int r = real(fd);  /* as on Linux, the descriptor is gone whatever close says */
    if (e) { end(t, -1, e); errno = e; return -1; }
    end(t, r, r ? errno : 0);
    return r;
}
int dup(int fd) { REAL(int, "dup", int); int r = real(fd); if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) { fdin[r] = fdin[fd]; memcpy(fdname[r], fdname[fd], NAMELEN); } return r; }
int dup2(int fd, int to) { REAL(int, "dup2", int, int); int r = real(fd, to); if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) { fdin[r] = fdin[fd]; memcpy(fdname[r], fdname[fd], NAMELEN); } return r; }

/* ---------------------------------------------------------------- read and write */
#define RW(KIND, FD, OFF, LEN, CALL_FULL, CALL_PART) \
    tk t = begin(KIND, fdname[FD], OFF, LEN); \
    int e = fails(t, KIND); \
    if (e) { end(t, -1, e); errno = e; return -1; } \
    size_t part = 0; \
    if (t.f && (t.f->act == F_SHORT || t.f->act == F_TORN_ERR || t.f->act == F_CRASH_TORN)) { \
        part = (size_t)((double)(LEN) * ((double)(t.f->arg % 1000) / 1000.0)); \
        if (part < 1) part = 1; \
        if (part >= (size_t)(LEN)) part = (LEN) > 1 ? (LEN) - 1 : (LEN); \
        ssize_t r = CALL_PART; \
        if (t.f->act == F_CRASH_TORN) { if (t.e) t.e->res = r; crash(); } \
        if (t.f->act == F_TORN_ERR) { int te = t.f->err ? t.f->err : ENOSPC; end(t, -1, te); errno = te; return -1; } \
        end(t, r, 0); \
        return r; \
    } \
    ssize_t r = CALL_FULL; \
    int er = errno; \
    end(t, r, r < 0 ? er : 0); \
    errno = er; \
    return r;

ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); if (!tfd(fd)) return real(fd, b, n); RW(OP_READ, fd, -1, n, real(fd, b, n), real(fd, b, part)) }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread", int, void *, size_t, off_t); if (!tfd(fd)) return real(fd, b, n, o); RW(OP_READ, fd, o, n, real(fd, b, n, o), real(fd, b, part, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); if (!tfd(fd)) return real(fd, b, n, o); RW(OP_READ, fd, o, n, real(fd, b, n, o), real(fd, b, part, o)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); if (!tfd(fd)) return real(fd, b, n); RW(OP_WRITE, fd, -1, n, real(fd, b, n), real(fd, b, part)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); if (!tfd(fd)) return real(fd, b, n, o); RW(OP_WRITE, fd, o, n, real(fd, b, n, o), real(fd, b, part, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); if (!tfd(fd)) return real(fd, b, n, o); RW(OP_WRITE, fd, o, n, real(fd, b, n, o), real(fd, b, part, o)) }
static size_t iovlen(const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
static ssize_t iovpart(int fd, const struct iovec *v, int c, size_t part) {
    REAL(ssize_t, "write", int, const void *, size_t);
    ssize_t done = 0;
    for (int i = 0; i < c && part; i++) {
        size_t n = v[i].iov_len < part ? v[i].iov_len : part;
        ssize_t r = n ? real(fd, v[i].iov_base, n) : 0;
        if (r < 0) return done ? done : r;
        done += r; part -= n;
    }
    return done;
}
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec *, int); if (!tfd(fd)) return real(fd, v, c); RW(OP_WRITE, fd, -1, iovlen(v, c), real(fd, v, c), iovpart(fd, v, c, part)) }
ssize_t readv(int fd, const struct iovec *v, int c) { REAL(ssize_t, "readv", int, const struct iovec *, int); if (!tfd(fd)) return real(fd, v, c); RW(OP_READ, fd, -1, iovlen(v, c), real(fd, v, c), real(fd, v, c)) }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(ssize_t, "sendfile", int, int, off_t *, size_t); if (!tfd(o)) return real(o, i, off, n); RW(OP_WRITE, o, -1, n, real(o, i, off, n), real(o, i, off, part)) }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); if (!tfd(o)) return real(o, i, off, n); RW(OP_WRITE, o, -1, n, real(o, i, off, n), real(o, i, off, part)) }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); if (!tfd(o)) return real(i, oi, o, oo, n, f); RW(OP_WRITE, o, -1, n, real(i, oi, o, oo, n, f), real(i, oi, o, oo, part, f)) }

#define SIMPLE(KIND, NAME, OFF, LEN, CALL) \
    tk t = begin(KIND, NAME, OFF, LEN); \
    int e = fails(t, KIND); \
    if (e) { end(t, -1, e); errno = e; return -1; } \
    int r = CALL; \
    int er = errno; \
    end(t, r, r ? er : 0); \
    errno = er; \
    return r;

int ftruncate(int fd, off_t l) { REAL(int, "ftruncate", int, off_t); if (!tfd(fd)) return real(fd, l); SIMPLE(OP_TRUNC, fdname[fd], 0, l, real(fd, l)) }
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t); if (!tfd(fd)) return real(fd, l); SIMPLE(OP_TRUNC, fdname[fd], 0, l, real(fd, l)) }
int fsync(int fd) { REAL(int, "fsync", int); if (!tfd(fd)) return real(fd); SIMPLE(OP_SYNC, fdname[fd], 0, 0, real(fd)) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); if (!tfd(fd)) return real(fd); SIMPLE(OP_SYNC, fdname[fd], 0, 0, real(fd)) }
#define PATHOP(KIND, P, CALL) if (!tracked(P)) return CALL; char nm[NAMELEN]; rel(P, nm); SIMPLE(KIND, nm, 0, 0, CALL)
int truncate(const char *p, off_t l) { REAL(int, "truncate", const char *, off_t); PATHOP(OP_TRUNC, p, real(p, l)) }
int truncate64(const char *p, off64_t l) { REAL(int, "truncate64", const char *, off64_t); PATHOP(OP_TRUNC, p, real(p, l)) }
int unlink(const char *p) { REAL(int, "unlink", const char *); PATHOP(OP_UNLINK, p, real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (p[0] != '/') return real(d, p, f); PATHOP(OP_UNLINK, p, real(d, p, f)) }
int remove(const char *p) { REAL(int, "remove", const char *); PATHOP(OP_UNLINK, p, real(p)) }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); PATHOP(OP_RMDIR, p, real(p)) }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATHOP(OP_MKDIR, p, real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (p[0] != '/' && d != AT_FDCWD) return real(d, p, m); PATHOP(OP_MKDIR, p, real(d, p, m)) }
/* A rename counts under both names: under the input prefix either side is an alteration. */
static int ren(const char *a, const char *b, char *nm) {
    char na[NAMELEN], nb[NAMELEN];
    rel(a, na); rel(b, nb);
    size_t n = strlen(S->input);
    if (n && !strncmp(nb, S->input, n) && (nb[n] == '/' || !nb[n])) memcpy(nm, nb, NAMELEN); else memcpy(nm, na, NAMELEN);
    return 0;
}
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if (!tracked(a) && !tracked(b)) return real(a, b); char nm[NAMELEN]; ren(a, b, nm); SIMPLE(OP_RENAME, nm, 0, 0, real(a, b)) }
int renameat(int da, const char *a, int db, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if ((a[0] != '/' && da != AT_FDCWD) || (!tracked(a) && !tracked(b))) return real(da, a, db, b); char nm[NAMELEN]; ren(a, b, nm); SIMPLE(OP_RENAME, nm, 0, 0, real(da, a, db, b)) }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); PATHOP(OP_LINK, b, real(a, b)) }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); PATHOP(OP_LINK, b, real(a, b)) }

/* ---------------------------------------------------------------- stdio */
static FILE *fopen_common(const char *path, const char *mode, int w64) {
    static FILE *(*rf)(const char *, const char *), *(*rf64)(const char *, const char *);
    if (!rf) { rf = dlsym(RTLD_NEXT, "fopen"); rf64 = dlsym(RTLD_NEXT, "fopen64"); }
    if (!tracked(path)) return w64 ? rf64(path, mode) : rf(path, mode);
    int wr = mode[0] != 'r' || strchr(mode, '+');
    char nm[NAMELEN];
    rel(path, nm);
    tk t = begin(wr ? OP_OPEN_W : OP_OPEN_R, nm, wr ? O_RDWR : 0, 0);
    int e = fails(t, wr && mode[0] != 'r' ? OP_OPEN_W : OP_OPEN_R);
    if (e) { end(t, -1, e); errno = e; return NULL; }
    FILE *f = w64 ? rf64(path, mode) : rf(path, mode);
    int er = errno;
    if (f) { int fd = fileno(f); if (fd >= 0 && fd < MAXFD) { fdin[fd] = 1; memcpy(fdname[fd], nm, NAMELEN); } }
    end(t, f ? 0 : -1, f ? 0 : er);
    errno = er;
    return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(p, m, 0); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m, 1); }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fread", void *, size_t, size_t, FILE *);
    int fd = f ? fileno(f) : -1;
    if (!tfd(fd)) return real(b, s, n, f);
    tk t = begin(OP_READ, fdname[fd], -1, s * n);
    int e = fails(t, OP_READ);
    if (e) { end(t, -1, e); errno = e; return 0; }
    size_t r = real(b, s, n, f);
    end(t, r, 0);
    return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    int fd = f ? fileno(f) : -1;
    if (!tfd(fd)) return real(b, s, n, f);
    tk t = begin(OP_WRITE, fdname[fd], -1, s * n);
    int e = fails(t, OP_WRITE);
    if (e) { end(t, -1, e); errno = e; return 0; }
    size_t r = real(b, s, n, f);
    end(t, r, 0);
    return r;
}
int fclose(FILE *f) {
    REAL(int, "fclose", FILE *);
    int fd = f ? fileno(f) : -1;
    if (!tfd(fd)) return real(f);
    tk t = begin(OP_CLOSE, fdname[fd], 0, 0);
    int e = (t.f && t.f->act == F_ERR) ? (t.f->err ? t.f->err : EIO) : 0;
    fdin[fd] = 0;
    int r = real(f);
    if (e) { end(t, -1, e); errno = e; return EOF; }
    end(t, r, r ? errno : 0);
    return r;
}

/* ---------------------------------------------------------------- directories: the simulator owns the listing order */
typedef struct { DIR *d; struct dirent *e; int n, i; } dir_t;
static dir_t dirs[MAXDIR];
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static int cmpent(const void *a, const void *b) { return strcmp(((const struct dirent *)a)->d_name, ((const struct dirent *)b)->d_name); }
static struct dirent *(*real_readdir)(DIR *);
static void slurp(DIR *d, const char *name) {
    if (!real_readdir) real_readdir = dlsym(RTLD_NEXT, "readdir64");
    for (int k = 0; k < MAXDIR; k++) {
        if (dirs[k].d) continue;
        int cap = 64, n = 0;
        struct dirent *v = malloc(cap * sizeof *v), *x;
        while ((x = real_readdir(d))) { if (n == cap) { cap *= 2; v = realloc(v, cap * sizeof *v); } v[n++] = *x; }
        qsort(v, n, sizeof *v, cmpent);  /* so that the order depends on the seed alone */
        uint64_t s = S->dirseed;
        for (const char *c = name; *c; c++) s = mix(s ^ (unsigned char)*c);
        if (S->dirseed)
            for (int i = n - 1; i > 0; i--) { s = mix(s); int j = (int)(s % (uint64_t)(i + 1)); struct dirent tmp = v[i]; v[i] = v[j]; v[j] = tmp; }
        dirs[k].d = d; dirs[k].e = v; dirs[k].n = n; dirs[k].i = 0;
        return;
    }
}
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *);
    if (!tracked(p)) return real(p);
    char nm[NAMELEN];
    rel(p, nm);
    tk t = begin(OP_OPENDIR, nm, 0, 0);
    int e = fails(t, OP_OPENDIR);
    if (e) { end(t, -1, e); errno = e; return NULL; }
    DIR *d = real(p);
    int er = errno;
    if (d) slurp(d, nm);
    end(t, d ? 0 : -1, d ? 0 : er);
    errno = er;
    return d;
}
static struct dirent *next(DIR *d) {
    for (int k = 0; k < MAXDIR; k++)
        if (dirs[k].d == d) return dirs[k].i < dirs[k].n ? &dirs[k].e[dirs[k].i++] : NULL;
    if (!real_readdir) real_readdir = dlsym(RTLD_NEXT, "readdir64");
    return real_readdir(d);
}
struct dirent *readdir(DIR *d) { return next(d); }
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)next(d); }
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    for (int k = 0; k < MAXDIR; k++) if (dirs[k].d == d) { free(dirs[k].e); dirs[k].d = NULL; dirs[k].e = NULL; break; }
    return real(d);
}

/* ---------------------------------------------------------------- clocks */
static int64_t vnow(int mono) {
    int64_t k = S->nclock++;
    for (int i = 0; i < S->njumps; i++) if (S->jump_at[i] == k) S->clock_ns += S->jump_by[i];
    S->clock_ns += S->clock_step;
    S->mono_ns += S->clock_step > 0 ? S->clock_step : 1;
    return mono ? S->mono_ns : S->clock_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    if (!S || !S->clock_on || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE)) return real(c, ts);
    int64_t n = vnow(c == CLOCK_MONOTONIC);
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, "gettimeofday", struct timeval *, void *);
    if (!S || !S->clock_on) return real(tv, tz);
    int64_t n = vnow(0);
    if (tv) { tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; }
    return 0;
}
time_t time(time_t *t) {
    REAL(time_t, "time", time_t *);
    if (!S || !S->clock_on) return real(t);
    time_t n = vnow(0) / 1000000000;
    if (t) *t = n;
    return n;
}
/* The kernel's randomness, when the simulator owns the clock: a seeded stream. */
ssize_t getrandom(void *b, size_t n, unsigned f) {
    REAL(ssize_t, "getrandom", void *, size_t, unsigned);
    if (!S || !S->clock_on) return real(b, n, f);
    for (size_t i = 0; i < n; i++) { S->entropy = mix(S->entropy); ((unsigned char *)b)[i] = (unsigned char)S->entropy; }
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
static int vsleep(int64_t ns) { S->clock_ns += ns; S->mono_ns += ns; S->vslept_ns += ns; S->nsleep++; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { REAL(int, "nanosleep", const struct timespec *, struct timespec *); if (!S || !S->clock_on) return real(a, b); return vsleep(a->tv_sec * 1000000000ll + a->tv_nsec); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { REAL(int, "clock_nanosleep", clockid_t, int, const struct timespec *, struct timespec *); if (!S || !S->clock_on) return real(c, f, a, b); int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec; if (f) { n -= S->mono_ns; if (n < 0) n = 0; } return vsleep(n); }
int usleep(useconds_t u) { REAL(int, "usleep", useconds_t); if (!S || !S->clock_on) return real(u); return vsleep(u * 1000ll); }
unsigned sleep(unsigned s) { REAL(unsigned, "sleep", unsigned); if (!S || !S->clock_on) return real(s); vsleep(s * 1000000000ll); return 0; }
