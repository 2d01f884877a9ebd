/* libc-level seams: wall clock, entropy and storage (open, stat, read, write on chosen paths or descriptors).  Preloaded into every simulation worker.
 * All control lives in one shared anonymous mapping, so forked processes draw from the
 * same entropy stream and see the same clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

#define NRULES 8
#define NFLIP 8
#define NFD 4096
/* one storage fault; the layout is mirrored in boot.py */
typedef struct {
    char sub[256];                      /* applies to paths that contain this text */
    int stat_errno, stat_lo, stat_hi;   /* the lo-th to hi-th stat of such a path fails */
    int open_errno, open_lo, open_hi;   /* the lo-th to hi-th open fails, or its reads / writes are faulty */
    int read_errno, read_times;         /* reading past read_at fails, that many times */
    int64_t read_at;
    int64_t eof_at;                     /* the file ends here (-1: no) */
    int short_max;                      /* reads return at most this much (0: no) */
    int eintr;                          /* every eintr-th read is interrupted */
    int nflip;
    int64_t flip_at[NFLIP];
    int flip_x[NFLIP];
    int64_t zero_at, zero_len;          /* a lost block reads as zeros */
    int write_errno, write_times;       /* writing fails once write_at bytes were accepted */
    int64_t write_at;
    int write_short;                    /* writes accept at most this much */
    int64_t wbytes;                     /* counters */
    int nstat, nopen, nread, nwrite;
    int f_stat, f_open, f_read, f_eof, f_short, f_eintr, f_flip, f_write, f_wshort;
} rule_t;

typedef struct {
    volatile int clock_mode;      /* 0 real, 1 simulated */
    volatile int64_t now_ns;      /* simulated wall clock */
    volatile int64_t step_ns;     /* advance per reading (may be 0 or negative) */
    volatile uint64_t clock_reads;
    volatile int ent_mode;        /* 0 real, 1 simulated */
    volatile uint64_t ent_seed;
    volatile uint64_t ent_ctr;
    volatile uint64_t ent_reads;
    volatile int nrules;
    rule_t rules[NRULES];
} ctl_t;

static ctl_t *C;

__attribute__((constructor)) static void init(void) {
    C = mmap(0, sizeof(ctl_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (C == MAP_FAILED) { static ctl_t z; C = &z; }
}
/* a process may detach from its parent's controls (each simulated run gets its own) */
void sim_private(void) {
    ctl_t *n = mmap(0, sizeof(ctl_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (n != MAP_FAILED) { memcpy(n, C, sizeof *n); C = n; }
}
void sim_clock(int mode, int64_t now_ns, int64_t step_ns) {
    C->now_ns = now_ns; C->step_ns = step_ns; C->clock_mode = mode;
}
int64_t sim_clock_now(void) { return C->now_ns; }
uint64_t sim_clock_reads(void) { return C->clock_reads; }
void sim_clock_add(int64_t d) { C->now_ns += d; }
void sim_entropy(int mode, uint64_t seed) { C->ent_seed = seed; C->ent_ctr = 0; C->ent_mode = mode; }
uint64_t sim_entropy_reads(void) { return C->ent_reads; }

static int64_t tick(void) {
    __sync_fetch_and_add(&C->clock_reads, 1);
    return __sync_add_and_fetch(&C->now_ns, C->step_ns);
}
static int real_gettime(clockid_t c, struct timespec *t) { return (int)syscall(SYS_clock_gettime, c, t); }

int clock_gettime(clockid_t c, struct timespec *t) {
    if (C && C->clock_mode && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int64_t n = tick();
        int64_t s = n / 1000000000LL, r = n % 1000000000LL;
        if (r < 0) { r += 1000000000LL; s--; }
        t->tv_sec = s; t->tv_nsec = r;
        return 0;
    }
    static int (*f)(clockid_t, struct timespec *);
    if (!f) f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return f ? f(c, t) : real_gettime(c, t);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *p) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (C && C->ent_mode) {
        unsigned char *b = buf; size_t i = 0;
        __sync_fetch_and_add(&C->ent_reads, 1);
        while (i < n) {
            uint64_t z = C->ent_seed + 0x9E3779B97F4A7C15ULL * __sync_add_and_fetch(&C->ent_ctr, 1);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            z ^= z >> 31;
            size_t k = n - i < 8 ? n - i : 8;
            memcpy(b + i, &z, k); i += k;
        }
        return (ssize_t)n;
    }
    return syscall(SYS_getrandom, buf, n, fl);
}

/* ---------------------------------------------------------------- storage */
static unsigned char fdr[NFD];           /* descriptor -> rule + 1 */

rule_t *sim_rules(void) { return C->rules; }
int sim_rule_size(void) { return (int)sizeof(rule_t); }
void sim_nrules(int n) { C->nrules = n; if (!n) memset(fdr, 0, sizeof fdr); }
void sim_fd_rule(int fd, int r) { if (fd >= 0 && fd < NFD) fdr[fd] = (unsigned char)(r + 1); }

static rule_t *rule_of_path(const char *p) {
    if (!C || !C->nrules || !p) return 0;
    for (int i = 0; i < C->nrules && i < NRULES; i++)
        if (C->rules[i].sub[0] && strstr(p, C->rules[i].sub)) return &C->rules[i];
    return 0;
}
static rule_t *rule_of_fd(int fd) {
    if (!C || !C->nrules || fd < 0 || fd >= NFD || !fdr[fd]) return 0;
    return &C->rules[fdr[fd] - 1];
}
static int do_open(int dir, const char *p, int fl, mode_t m) {
    rule_t *r = rule_of_path(p);
    int bad = 0;
    if (r) {
        r->nopen++;
        bad = r->nopen >= r->open_lo && r->nopen <= r->open_hi;
        if (bad && r->open_errno) { r->f_open++; errno = r->open_errno; return -1; }
    }
    int fd = (int)syscall(SYS_openat, dir, p, fl, m);
    if (fd >= 0 && fd < NFD) fdr[fd] = (r && bad) ? (unsigned char)(r - C->rules + 1) : 0;
    return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int close(int fd) {
    if (fd >= 0 && fd < NFD) fdr[fd] = 0;
    return (int)syscall(SYS_close, fd);
}
static int bad_stat(const char *p) {
    rule_t *r = rule_of_path(p);
    if (!r) return 0;
    r->nstat++;
    if (r->stat_errno && r->nstat >= r->stat_lo && r->nstat <= r->stat_hi) { r->f_stat++; errno = r->stat_errno; return 1; }
    return 0;
}
int stat(const char *p, struct stat *b) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int stat64(const char *p, struct stat64 *b) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int lstat(const char *p, struct stat *b) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *b) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *b, int f) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, d, p, b, f); }
int fstatat64(int d, const char *p, struct stat64 *b, int f) { return bad_stat(p) ? -1 : (int)syscall(SYS_newfstatat, d, p, b, f); }
int access(const char *p, int m) { return bad_stat(p) ? -1 : (int)syscall(SYS_faccessat, AT_FDCWD, p, m, 0); }

static ssize_t do_read(rule_t *r, int fd, void *buf, size_t n, int64_t pos, int at) {
    r->nread++;
    if (r->eintr && r->nread % r->eintr == 0) { r->f_eintr++; errno = EINTR; return -1; }
    if (r->eof_at >= 0) {
        if (pos >= r->eof_at) { r->f_eof++; return 0; }
        if (pos + (int64_t)n > r->eof_at) n = (size_t)(r->eof_at - pos);
    }
    if (r->read_errno && r->read_times > 0 && pos + (int64_t)n > r->read_at) {
        if (pos >= r->read_at) { r->read_times--; r->f_read++; errno = r->read_errno; return -1; }
        n = (size_t)(r->read_at - pos);
    }
    if (r->short_max && n > (size_t)r->short_max) { n = (size_t)r->short_max; r->f_short++; }
    ssize_t k = at ? syscall(SYS_pread64, fd, buf, n, pos) : syscall(SYS_read, fd, buf, n);
    for (int i = 0; i < r->nflip && k > 0; i++)
        if (r->flip_at[i] >= pos && r->flip_at[i] < pos + k) { ((unsigned char *)buf)[r->flip_at[i] - pos] ^= (unsigned char)r->flip_x[i]; r->f_flip++; }
    if (r->zero_len > 0 && k > 0) {
        int64_t a = r->zero_at > pos ? r->zero_at : pos, b = r->zero_at + r->zero_len < pos + k ? r->zero_at + r->zero_len : pos + k;
        if (a < b) { memset((char *)buf + (a - pos), 0, (size_t)(b - a)); r->f_flip++; }
    }
    return k;
}
ssize_t read(int fd, void *buf, size_t n) {
    rule_t *r = rule_of_fd(fd);
    if (!r) return syscall(SYS_read, fd, buf, n);
    int64_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    return do_read(r, fd, buf, n, pos < 0 ? 0 : pos, 0);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) {
    rule_t *r = rule_of_fd(fd);
    return r ? do_read(r, fd, buf, n, o, 1) : syscall(SYS_pread64, fd, buf, n, o);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return pread(fd, buf, n, o); }

ssize_t write(int fd, const void *buf, size_t n) {
    rule_t *r = rule_of_fd(fd);
    if (!r) return syscall(SYS_write, fd, buf, n);
    r->nwrite++;
    if (r->write_errno && r->write_times > 0 && r->wbytes + (int64_t)n > r->write_at) {
        int64_t room = r->write_at - r->wbytes;
        if (room <= 0) { r->write_times--; r->f_write++; errno = r->write_errno; return -1; }
        n = (size_t)room;
    }
    if (r->write_short && n > (size_t)r->write_short) { n = (size_t)r->write_short; r->f_wshort++; }
    ssize_t k = syscall(SYS_write, fd, buf, n);
    if (k > 0) r->wbytes += k;
    return k;
}
