/* simfs: the simulated operating system seen by the code under test.
 *
 * LD_PRELOADed into the simulation process.  Between sim_begin() and sim_end()
 * every file operation on a path below the simulation root passes through here:
 * it is numbered, logged, and may be failed, shortened, interrupted, torn,
 * parked or turned into a process crash according to a fault plan that was
 * handed over beforehand.  Nothing in here draws random numbers except the
 * directory-order permutation, whose seed is part of the plan.  Clocks read
 * the simulated time.  Outside sim_begin/sim_end every call passes through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

enum { C_OPEN, C_READ, C_WRITE, C_META, C_DIR, C_STAT, C_N };
enum { A_ERR = 1, A_SHORT, A_EINTR, A_CRASH, A_PARK };

struct fault { int cls; long idx; int act; long arg; int sticky; long fired; };

#define MAXF 64
#define MAXFD 4096
#define MAXPATHS 4096
static int active = 0;
static char root[PATH_MAX]; static size_t rootlen;
static struct fault plan[MAXF]; static int nplan;
static long count[C_N];
static long long cap_bytes = -1, written_total; static long cap_fired;
static int fd_id[MAXFD];               /* 0 = untracked, else path id + 1 */
static long fd_opens, fd_live;
static char *paths[MAXPATHS]; static int npaths;
static uint64_t dir_seed; static int dir_mode;
static long dir_permuted;
static int readonly; static long ro_fired;
static int park_out = -1, park_in = -1; static long parked;
static double sim_now, sim_step, sim_jump_at, sim_jump_by; static long clock_reads; static long clock_jumps;
static char *logbuf; static size_t loglen, logcap;
static uint64_t digest;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void mix(uint64_t v) { digest ^= v; digest *= 1099511628211ULL; digest ^= digest >> 29; }

static void logop(const char *op, int id, long long a, long long b, long long ret)
{
    char line[256];
    int n = snprintf(line, sizeof line, "%s %d %lld %lld %lld\n", op, id, a, b, ret);
    for (int i = 0; i < n; i++) mix((unsigned char) line[i]);
    if (loglen + n + 1 > logcap) {
        if (logcap > (1u << 22)) return;
        size_t nc = logcap ? logcap * 2 : 65536;
        char *nb = realloc(logbuf, nc);
        if (!nb) return;
        logbuf = nb; logcap = nc;
    }
    memcpy(logbuf + loglen, line, n); loglen += n; logbuf[loglen] = 0;
}

static int inside(const char *path, char *out)
{
    if (!active || !path) return 0;
    if (path[0] == '/') { if (strlen(path) >= PATH_MAX) return 0; strcpy(out, path); }
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        if (strlen(cwd) + strlen(path) + 2 >= PATH_MAX) return 0;
        while (path[0] == '.' && path[1] == '/') path += 2;
        if (!strcmp(path, ".")) strcpy(out, cwd);
        else sprintf(out, "%s/%s", cwd, path);
    }
    return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}

static int path_id(const char *p)
{
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    if (npaths >= MAXPATHS) return MAXPATHS - 1;
    paths[npaths] = strdup(p);
    return npaths++;
}

static struct fault *hit(int cls)
{
    long i = count[cls]++;
    for (int k = 0; k < nplan; k++)
        if (plan[k].cls == cls && (plan[k].idx == i || (plan[k].sticky && i >= plan[k].idx))) {
            plan[k].fired++;
            return &plan[k];
        }
    return NULL;
}

static void park(void)
{
    char c = 'p';
    parked++;
    if (park_out < 0) return;
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, read, int, void *, size_t);
    real_write(park_out, &c, 1);
    while (real_read(park_in, &c, 1) < 0 && errno == EINTR) ;
}

/* ---- control interface (ctypes) ---------------------------------------- */
void sim_reset(void)
{
    active = 0; nplan = 0; memset(count, 0, sizeof count);
    cap_bytes = -1; written_total = 0; cap_fired = 0;
    memset(fd_id, 0, sizeof fd_id); fd_opens = fd_live = 0;
    for (int i = 0; i < npaths; i++) free(paths[i]);
    npaths = 0; dir_seed = 0; dir_mode = 0; dir_permuted = 0; parked = 0;
    park_out = park_in = -1; loglen = 0; readonly = 0; ro_fired = 0; if (logbuf) logbuf[0] = 0;
    digest = 1469598103934665603ULL; clock_reads = clock_jumps = 0;
    sim_now = 1.7e9; sim_step = 1e-3; sim_jump_at = -1; sim_jump_by = 0;
}
void sim_begin(const char *r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); active = 1; }
void sim_end(void) { active = 0; }
void sim_fault(int cls, long idx, int act, long arg, int sticky)
{ if (nplan < MAXF) plan[nplan++] = (struct fault){cls, idx, act, arg, sticky, 0}; }
void sim_clear_faults(void)
{ for (int k = 0; k < nplan; k++) { plan[k].idx = -2; plan[k].sticky = 0; } cap_bytes = -1; }
void sim_capacity(long long b) { cap_bytes = b; }
void sim_readonly(int on) { readonly = on; }
long sim_ro_fired(void) { return ro_fired; }
void sim_dir(uint64_t seed, int mode) { dir_seed = seed; dir_mode = mode; }
void sim_clock(double now, double step, double jump_at, double jump_by)
{ sim_now = now; sim_step = step; sim_jump_at = jump_at; sim_jump_by = jump_by; }
void sim_park(int out, int in) { park_out = out; park_in = in; }
long sim_count(int cls) { return count[cls]; }
long sim_fired(int k) { return k < nplan ? plan[k].fired : 0; }
long sim_cap_fired(void) { return cap_fired; }
long sim_live_fds(void) { return fd_live; }
long sim_dir_permuted(void) { return dir_permuted; }
long sim_parked(void) { return parked; }
long sim_clock_reads(void) { return clock_reads; }
long sim_clock_jumps(void) { return clock_jumps; }
double sim_time(void) { return sim_now; }
long long sim_written(void) { return written_total; }
uint64_t sim_digest(void) { return digest; }
const char *sim_log(void) { return logbuf ? logbuf : ""; }
const char *sim_path(int i) { return i >= 0 && i < npaths ? paths[i] : ""; }

/* ---- open / close ------------------------------------------------------- */
static int do_open(const char *path, int flags, mode_t mode, int dirfd, int at)
{
    REAL(int, access, const char *, int);
    REAL(int, open, const char *, int, ...);
    REAL(int, openat, int, const char *, int, ...);
    char full[PATH_MAX];
    int tracked = (!at || dirfd == AT_FDCWD || path[0] == '/') && inside(path, full);
    if (!tracked) return at ? real_openat(dirfd, path, flags, mode) : real_open(path, flags, mode);
    if (flags & O_DIRECTORY) return at ? real_openat(dirfd, path, flags, mode) : real_open(path, flags, mode);
    int id = path_id(full);
    struct fault *f = hit(C_OPEN);
    if (f) {
        if (f->act == A_ERR) { logop("open!", id, flags & O_ACCMODE, f->arg, -1); errno = f->arg; return -1; }
        if (f->act == A_EINTR) { logop("open~", id, 0, 0, -1); errno = EINTR; return -1; }
        if (f->act == A_CRASH && f->arg < 0) { _exit(137); }
        if (f->act == A_PARK) park();
    }
    if (readonly && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_TMPFILE) & ~O_DIRECTORY) ||
                     ((flags & O_CREAT) && real_access(full, F_OK) != 0))) {
        ro_fired++; logop("open^", id, flags & O_ACCMODE, 0, -1); errno = EROFS; return -1;
    }
    int fd = at ? real_openat(dirfd, path, flags, mode) : real_open(path, flags, mode);
    int err = errno;
    logop("open", id, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND), 0, fd < 0 ? -err : 0);
    if (fd >= 0 && fd < MAXFD) { if (!fd_id[fd]) fd_live++; fd_id[fd] = id + 1; fd_opens++; }
    if (f && f->act == A_CRASH) _exit(137);
    errno = err;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(path, flags, mode, 0, 0); }
int open64(const char *path, int flags, ...) { MODE return do_open(path, flags | O_LARGEFILE, mode, 0, 0); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(path, flags, mode, d, 1); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(path, flags | O_LARGEFILE, mode, d, 1); }
int creat(const char *path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m, 0, 0); }
int creat64(const char *path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, m, 0, 0); }

/* stdio: numpy and HDF5 do not use it on data files, but other code may. */
FILE *fopen(const char *path, const char *m)
{
    REAL(FILE *, fopen, const char *, const char *);
    char full[PATH_MAX];
    if (inside(path, full)) {
        struct fault *f = hit(C_OPEN);
        if (f && f->act == A_ERR) { logop("fopen!", path_id(full), 0, f->arg, -1); errno = f->arg; return NULL; }
        if (f && f->act == A_CRASH) _exit(137);
        if (readonly && (m[0] != 'r' || strchr(m, '+'))) { ro_fired++; logop("fopen^", path_id(full), 0, 0, -1); errno = EROFS; return NULL; }
    }
    return real_fopen(path, m);
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }

int close(int fd)
{
    REAL(int, close, int);
    if (active && fd >= 0 && fd < MAXFD && fd_id[fd]) {
        logop("close", fd_id[fd] - 1, 0, 0, 0);
        fd_id[fd] = 0; fd_live--;
    }
    return real_close(fd);
}

/* ---- read / write -------------------------------------------------------- */
static int tracked(int fd) { return active && fd >= 0 && fd < MAXFD && fd_id[fd]; }

static ssize_t raw_write(int fd, const void *b, size_t n, long long off, int p)
{
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    return p ? real_pwrite(fd, b, n, off) : real_write(fd, b, n);
}

static ssize_t do_write(int fd, const void *b, size_t n, long long off, int p)
{
    if (!tracked(fd)) return raw_write(fd, b, n, off, p);
    int id = fd_id[fd] - 1;
    struct fault *f = hit(C_WRITE);
    size_t want = n;
    if (f) switch (f->act) {
    case A_ERR: logop("write!", id, off, f->arg, -1); errno = f->arg; return -1;
    case A_EINTR: logop("write~", id, off, n, -1); errno = EINTR; return -1;
    case A_SHORT: if (n > 1) { want = 1 + (size_t) f->arg % (n - 1); } break;
    case A_PARK: park(); break;
    case A_CRASH: {
        if (f->arg >= 0) {               /* torn: a leading part reaches the file */
            size_t part = n ? (size_t) f->arg % (n + 1) : 0;
            if (part) raw_write(fd, b, part, off, p);
        }
        _exit(137); }
    }
    if (cap_bytes >= 0 && written_total + (long long) want > cap_bytes) {
        long long room = cap_bytes - written_total;
        cap_fired++;
        if (room <= 0) { logop("full", id, off, n, -1); errno = ENOSPC; return -1; }
        want = room;
    }
    ssize_t r = raw_write(fd, b, want, off, p);
    if (r > 0) written_total += r;
    uint64_t h = 1469598103934665603ULL;
    for (ssize_t i = 0; i < r; i++) { h ^= ((const unsigned char *) b)[i]; h *= 1099511628211ULL; }
    mix(h);
    logop(want == n ? "write" : "write<", id, off, n, r);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!tracked(fd)) return real_writev(fd, v, c);
    if (c <= 0) return real_writev(fd, v, c);
    return do_write(fd, v[0].iov_base, v[0].iov_len, -1, 0);   /* legal short result */
}

static ssize_t do_read(int fd, void *b, size_t n, long long off, int p)
{
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread, int, void *, size_t, off_t);
    if (!tracked(fd)) return p ? real_pread(fd, b, n, off) : real_read(fd, b, n);
    int id = fd_id[fd] - 1;
    struct fault *f = hit(C_READ);
    size_t want = n;
    if (f) switch (f->act) {
    case A_ERR: logop("read!", id, off, f->arg, -1); errno = f->arg; return -1;
    case A_EINTR: logop("read~", id, off, n, -1); errno = EINTR; return -1;
    case A_SHORT: if (n > 1) want = 1 + (size_t) f->arg % (n - 1); break;
    case A_PARK: park(); break;
    case A_CRASH: _exit(137);
    }
    ssize_t r = p ? real_pread(fd, b, want, off) : real_read(fd, b, want);
    logop(want == n ? "read" : "read<", id, off, n, r);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void) l; return do_read(fd, b, n, -1, 0); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void) l; return do_read(fd, b, n, o, 1); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t l) { (void) l; return do_read(fd, b, n, o, 1); }

/* ---- metadata ------------------------------------------------------------ */
static int meta(const char *op, const char *full, int *ret)
{
    struct fault *f = hit(C_META);
    int id = path_id(full);
    if (f) {
        if (f->act == A_ERR) { char o[32]; snprintf(o, sizeof o, "%s!", op); logop(o, id, f->arg, 0, -1); errno = f->arg; *ret = -1; return 1; }
        if (f->act == A_CRASH) { if (f->arg < 0) _exit(137); *ret = 1; }   /* crash after */
        if (f->act == A_PARK) park();
    }
    if (readonly) { char o[32]; snprintf(o, sizeof o, "%s^", op); logop(o, id, 0, 0, -1); ro_fired++; errno = EROFS; *ret = -1; return 1; }
    return 0;
}
#define AFTER if (crash) _exit(137);
int ftruncate(int fd, off_t len)
{
    REAL(int, ftruncate, int, off_t);
    if (!tracked(fd)) return real_ftruncate(fd, len);
    int crash = 0;
    if (meta("trunc", paths[fd_id[fd] - 1], &crash)) return -1;
    int r = real_ftruncate(fd, len);
    logop("trunc", fd_id[fd] - 1, len, 0, r);
    AFTER return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    char full[PATH_MAX];
    if (!inside(b, full)) return real_rename(a, b);
    int crash = 0;
    if (meta("rename", full, &crash)) return -1;
    int r = real_rename(a, b); int e = errno;
    logop("rename", path_id(full), 0, 0, r);
    AFTER errno = e; return r;
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    char full[PATH_MAX];
    if (!inside(b, full)) return real_renameat(da, a, db, b);
    int crash = 0;
    if (meta("rename", full, &crash)) return -1;
    int r = real_renameat(da, a, db, b); int e = errno;
    logop("rename", path_id(full), 0, 0, r);
    AFTER errno = e; return r;
}
int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    char full[PATH_MAX];
    if (!inside(a, full)) return real_unlink(a);
    int crash = 0;
    if (meta("unlink", full, &crash)) return -1;
    int r = real_unlink(a); int e = errno;
    logop("unlink", path_id(full), 0, 0, r);
    AFTER errno = e; return r;
}
int mkdir(const char *a, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t);
    char full[PATH_MAX];
    if (!inside(a, full)) return real_mkdir(a, m);
    int crash = 0;
    if (meta("mkdir", full, &crash)) return -1;
    int r = real_mkdir(a, m); int e = errno;
    logop("mkdir", path_id(full), 0, 0, r);
    AFTER errno = e; return r;
}

/* ---- questions about files (counted apart: reads ask, too) ---------------- */
static int ask(const char *full)
{
    struct fault *f = hit(C_STAT);
    if (!f) return 0;
    int id = path_id(full);
    if (f->act == A_ERR) { logop("stat!", id, f->arg, 0, -1); errno = f->arg; return 1; }
    if (f->act == A_CRASH) _exit(137);
    if (f->act == A_PARK) park();
    return 0;
}
int stat64(const char *p, struct stat64 *b)
{
    REAL(int, stat64, const char *, struct stat64 *);
    char full[PATH_MAX];
    if (inside(p, full) && ask(full)) return -1;
    return real_stat64(p, b);
}
int stat(const char *p, struct stat *b) { return stat64(p, (struct stat64 *) b); }
int lstat64(const char *p, struct stat64 *b)
{
    REAL(int, lstat64, const char *, struct stat64 *);
    char full[PATH_MAX];
    if (inside(p, full) && ask(full)) return -1;
    return real_lstat64(p, b);
}
int lstat(const char *p, struct stat *b) { return lstat64(p, (struct stat64 *) b); }
int fstat64(int fd, struct stat64 *b)
{
    REAL(int, fstat64, int, struct stat64 *);
    if (tracked(fd) && ask(paths[fd_id[fd] - 1])) return -1;
    return real_fstat64(fd, b);
}
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *) b); }
int fstatat64(int d, const char *p, struct stat64 *b, int flags)
{
    REAL(int, fstatat64, int, const char *, struct stat64 *, int);
    char full[PATH_MAX];
    if ((d == AT_FDCWD || (p && p[0] == '/')) && inside(p, full) && ask(full)) return -1;
    return real_fstatat64(d, p, b, flags);
}
int fstatat(int d, const char *p, struct stat *b, int flags) { return fstatat64(d, p, (struct stat64 *) b, flags); }
int access(const char *p, int mode)
{
    REAL(int, access, const char *, int);
    char full[PATH_MAX];
    if (inside(p, full) && ask(full)) return -1;
    return real_access(p, mode);
}

/* ---- directory enumeration ------------------------------------------------ */
struct simdir { DIR *d; struct dirent64 **ents; int n, pos, cap; struct simdir *next; };
static struct simdir *dirs;
static uint64_t xs(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }
static int cmpname(const void *a, const void *b)
{ return strcmp((*(struct dirent64 **) a)->d_name, (*(struct dirent64 **) b)->d_name); }

static struct dirent64 *raw_readdir(DIR *d)
{ REAL(struct dirent64 *, readdir64, DIR *); return real_readdir64(d); }

DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    char full[PATH_MAX];
    if (!inside(p, full)) return real_opendir(p);
    struct fault *f = hit(C_DIR);
    int id = path_id(full);
    if (f && f->act == A_ERR) { logop("opendir!", id, f->arg, 0, -1); errno = f->arg; return NULL; }
    int was = active; active = 0;
    DIR *d = real_opendir(p);
    if (d) {
        struct simdir *s = calloc(1, sizeof *s);
        s->d = d; s->next = dirs; dirs = s;
        struct dirent64 *e;
        while ((e = raw_readdir(d))) {
            if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->ents = realloc(s->ents, s->cap * sizeof *s->ents); }
            struct dirent64 *c = malloc(sizeof *c);
            memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
            s->ents[s->n++] = c;
        }
        qsort(s->ents, s->n, sizeof *s->ents, cmpname);
        if (dir_mode == 1) {
            for (int i = 0; i < s->n / 2; i++) { struct dirent64 *t = s->ents[i]; s->ents[i] = s->ents[s->n - 1 - i]; s->ents[s->n - 1 - i] = t; }
            dir_permuted++;
        } else if (dir_mode == 2) {
            uint64_t st = dir_seed * 2654435769ULL + 88172645463325252ULL;
            for (int i = s->n - 1; i > 0; i--) { int j = xs(&st) % (i + 1); struct dirent64 *t = s->ents[i]; s->ents[i] = s->ents[j]; s->ents[j] = t; }
            dir_permuted++;
        }
    }
    active = was;
    logop("opendir", id, d ? 0 : errno, 0, 0);
    return d;
}
struct dirent64 *readdir64(DIR *d)
{
    for (struct simdir *s = dirs; s; s = s->next)
        if (s->d == d) return s->pos < s->n ? s->ents[s->pos++] : NULL;
    return raw_readdir(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *) readdir64(d); }
int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    for (struct simdir **p = &dirs; *p; p = &(*p)->next)
        if ((*p)->d == d) {
            struct simdir *s = *p; *p = s->next;
            for (int i = 0; i < s->n; i++) free(s->ents[i]);
            free(s->ents); free(s);
            break;
        }
    return real_closedir(d);
}

/* ---- clocks ---------------------------------------------------------------- */
static double tick(void)
{
    clock_reads++;
    sim_now += sim_step;
    if (sim_jump_at >= 0 && clock_reads > sim_jump_at) { sim_now += sim_jump_by; sim_jump_at = -1; clock_jumps++; }
    return sim_now;
}
time_t time(time_t *t)
{
    REAL(time_t, time, time_t *);
    if (!active) return real_time(t);
    time_t v = (time_t) tick();
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    REAL(int, gettimeofday, struct timeval *, void *);
    if (!active) return real_gettimeofday(tv, tz);
    double v = tick();
    tv->tv_sec = (time_t) v; tv->tv_usec = (suseconds_t) ((v - (time_t) v) * 1e6);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!active) return real_clock_gettime(c, ts);
    double v = tick();
    ts->tv_sec = (time_t) v; ts->tv_nsec = (long) ((v - (time_t) v) * 1e9);
    return 0;
}
