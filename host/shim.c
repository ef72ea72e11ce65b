/* The simulated operating system of the compiler: preloaded into the compiler process.  File operations on paths below
   VF_ROOT are numbered in program order; a plan decides the outcome of each, the clock, the process id, the random
   numbers (hash seeds) and the order of directory entries.
   plan: space separated
     seed=N        random numbers, directory order          pid=N clock=SECONDS rate=MILLI   (0 = real)
     at=K:errno    operation K fails with errno             short=K:n   operation K transfers at most n bytes
     all=N         every transfer is at most N bytes        room=N     the disk has room for N bytes, then ENOSPC
     kill=K:n      the process dies in operation K after n bytes of it */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

static char root[1024]; static size_t rootlen;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { MAXF = 16, MAXOPS = 20000, MAXFD = 4096 };
struct F { char kind; long k, v; };
static struct F faults[MAXF]; static int nf;
static long ops, fired, seed, pid_, clk, rate, all_, room, used; static int on;
static char ofd[MAXFD]; static char kinds[MAXOPS + 1]; static long sizes[MAXOPS + 1];
static int firedk[MAXF];
static uint64_t rs;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r_)(__VA_ARGS__); if (!r_) r_ = (ret (*)(__VA_ARGS__))real(#name)

void vf_plan(const char *p) {
    pthread_mutex_lock(&mu);
    nf = 0; ops = fired = used = 0; all_ = 0; room = -1; seed = 0; pid_ = 0; clk = 0; rate = 0; memset(firedk, 0, sizeof firedk);
    char b[1024]; snprintf(b, sizeof b, "%s", p ? p : ""); char *sv = 0;
    for (char *t = strtok_r(b, " ", &sv); t; t = strtok_r(0, " ", &sv)) {
        char *e = strchr(t, '='); if (!e) continue; *e++ = 0; long a = atol(e), v = strchr(e, ':') ? atol(strchr(e, ':') + 1) : 0;
        if (!strcmp(t, "seed")) seed = a; else if (!strcmp(t, "pid")) pid_ = a; else if (!strcmp(t, "clock")) clk = a; else if (!strcmp(t, "rate")) rate = a;
        else if (!strcmp(t, "all")) all_ = a; else if (!strcmp(t, "room")) room = a;
        else if (nf < MAXF) { faults[nf].kind = t[0]; faults[nf].k = a; faults[nf++].v = v; }
    }
    rs = (uint64_t)seed; on = 1;
    pthread_mutex_unlock(&mu);
}
/* summary of the last plan: operations, fired faults, kinds and sizes of the operations */
long vf_report(char *out, long n) {
    long o = snprintf(out, (size_t)n, "%ld %ld ", ops, fired);
    for (long i = 0; i < ops && i < MAXOPS && o < n - 24; i++) o += snprintf(out + o, (size_t)(n - o), "%c%ld,", kinds[i], sizes[i]);
    on = 0;
    return o;
}
static void report_file(void);
__attribute__((constructor)) static void init(void) {
    const char *r = getenv("VF_ROOT"); if (r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
    const char *p = getenv("VF_PLAN"); if (p) { vf_plan(p); }
}
__attribute__((destructor)) static void fini(void) { report_file(); }
static void report_file(void) {
    const char *f = getenv("VF_REPORT"); if (!f) return;
    static char b[400000]; vf_report(b, sizeof b);
    int (*o)(const char *, int, ...) = (int (*)(const char *, int, ...))real("open64"); ssize_t (*w)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t))real("write");
    int fd = o(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { w(fd, b, strlen(b)); close(fd); }
}
static int ours(const char *p) {
    if (!on || !rootlen || !p) return 0;
    if (p[0] == '/') return strncmp(p, root, rootlen) == 0;
    char c[2048]; if (!getcwd(c, sizeof c)) return 0;
    return strncmp(c, root, rootlen) == 0;
}
/* next operation; returns errno to fail with, or 0; *n is reduced for short transfers; *die set when the process is to die */
static int next_op(char kind, size_t *n, int *die) {
    int e = 0; *die = 0;
    pthread_mutex_lock(&mu);
    long k = ops++;
    if (k < MAXOPS) { kinds[k] = kind; sizes[k] = n ? (long)*n : 0; }
    if (n && all_ > 0 && *n > (size_t)all_) { *n = (size_t)all_; fired++; }
    for (int i = 0; i < nf; i++) if (faults[i].k == k) {
        if (faults[i].kind == 'a') { e = (int)faults[i].v; fired++; }
        else if (faults[i].kind == 's') { if (n && *n > (size_t)faults[i].v && faults[i].v > 0) { *n = (size_t)faults[i].v; fired++; } }
        else if (faults[i].kind == 'k') { *die = 1; fired++; if (n && *n > (size_t)faults[i].v) *n = (size_t)faults[i].v; }
    }
    if (!e && kind == 'w' && room >= 0 && n) {
        if (used >= room) { e = ENOSPC; fired++; }
        else { if ((long)*n > room - used) { *n = (size_t)(room - used); fired++; } used += (long)*n; }
    }
    if (!e && kind == 'c' && room >= 0 && used >= room) { e = ENOSPC; fired++; }
    pthread_mutex_unlock(&mu);
    return e;
}
static void die_now(void) { report_file(); raise(SIGKILL); }
static int do_open(int (*r)(const char *, int, ...), const char *p, int fl, mode_t m) {
    if (!ours(p)) return r(p, fl, m);
    struct stat st; if ((fl & O_ACCMODE) == O_RDONLY && !(fl & O_CREAT) && stat(p, &st) == 0 && S_ISDIR(st.st_mode)) return r(p, fl, m);
    int die, e = next_op((fl & O_ACCMODE) == O_RDONLY ? 'o' : 'c', 0, &die);
    if (die) die_now();
    if (e) { errno = e; return -1; }
    int fd = r(p, fl, m);
    if (fd >= 0 && fd < MAXFD) ofd[fd] = 1;
    return fd;
}
int open64(const char *p, int fl, ...) { REAL(int, open64, const char *, int, ...); mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(r_, p, fl, m); }
int open(const char *p, int fl, ...) { REAL(int, open, const char *, int, ...); mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(r_, p, fl, m); }
int close(int fd) { REAL(int, close, int); if (fd >= 0 && fd < MAXFD) ofd[fd] = 0; return r_(fd); }
#define MINE(fd) (on && (fd) >= 0 && (fd) < MAXFD && ofd[fd])
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t); if (!MINE(fd)) return r_(fd, b, n);
    int die, e = next_op('r', &n, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t); if (!MINE(fd)) return r_(fd, b, n, o);
    int die, e = next_op('r', &n, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t); if (!MINE(fd)) return r_(fd, b, n);
    int die, e = next_op('w', &n, &die); if (die) { r_(fd, b, n); die_now(); } if (e) { errno = e; return -1; } return r_(fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); if (!MINE(fd)) return r_(fd, b, n, o);
    int die, e = next_op('w', &n, &die); if (die) { r_(fd, b, n, o); die_now(); } if (e) { errno = e; return -1; } return r_(fd, b, n, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) {
    REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t); if (!MINE(fd)) return r_(fd, v, c, o);
    int i = 0; while (i < c - 1 && v[i].iov_len == 0) i++;      /* one part at a time: partial transfers are legal */
    return pwrite64(fd, v[i].iov_base, v[i].iov_len, o); }
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t); if (!MINE(fd)) return r_(fd, n);
    int die, e = next_op('t', 0, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(fd, n); }
int fallocate64(int fd, int m, off64_t o, off64_t n) {
    REAL(int, fallocate64, int, int, off64_t, off64_t); if (!MINE(fd)) return r_(fd, m, o, n);
    size_t sz = 0; int die, e = next_op('f', &sz, &die); if (die) die_now(); if (e) { errno = e; return -1; }
    return r_(fd, m, o, n); }
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t); if (!ours(p)) return r_(p, m);
    int die, e = next_op('m', 0, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(p, m); }
int unlink(const char *p) {
    REAL(int, unlink, const char *); if (!ours(p)) return r_(p);
    int die, e = next_op('u', 0, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(p); }
int rename(const char *p, const char *q) {
    REAL(int, rename, const char *, const char *); if (!ours(q)) return r_(p, q);
    int die, e = next_op('n', 0, &die); if (die) die_now(); if (e) { errno = e; return -1; } return r_(p, q); }

/* clock, process id, randomness */
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *); int x = r_(c, t);
    if (on && clk && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = clk + (rate ? t->tv_sec % 100000 * rate / 1000 : 0); }
    return x; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { REAL(int, gettimeofday, struct timeval *, void *); int x = r_(t, z); if (on && clk) t->tv_sec = clk; return x; }
time_t time(time_t *t) { REAL(time_t, time, time_t *); time_t x = r_(0); if (on && clk) x = clk; if (t) *t = x; return x; }
pid_t getpid(void) { REAL(pid_t, getpid, void); return on && pid_ ? (pid_t)pid_ : r_(); }
void arc4random_buf(void *b, size_t n) { REAL(void, arc4random_buf, void *, size_t); if (!(on && seed)) { r_(b, n); return; } for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(rnd() >> 24); }
/* directory entries in an order of the plan's */
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    enum { ND = 8, NE = 1024 }; static struct { DIR *d; struct dirent64 *e[NE]; int n, i; } tab[ND];
    if (!(on && seed)) return r_(d);
    pthread_mutex_lock(&mu);
    int k; for (k = 0; k < ND; k++) if (tab[k].d == d) break;
    if (k == ND) {
        for (k = 0; k < ND; k++) if (!tab[k].d) break;
        if (k == ND) { pthread_mutex_unlock(&mu); return r_(d); }
        tab[k].d = d; tab[k].n = tab[k].i = 0; struct dirent64 *e;
        while (tab[k].n < NE && (e = r_(d))) { struct dirent64 *c = malloc(e->d_reclen + 256); memcpy(c, e, e->d_reclen); tab[k].e[tab[k].n++] = c; }
        for (int i = tab[k].n - 1; i > 0; i--) { int j = (int)(rnd() % (uint64_t)(i + 1)); struct dirent64 *t = tab[k].e[i]; tab[k].e[i] = tab[k].e[j]; tab[k].e[j] = t; }
    }
    struct dirent64 *r = tab[k].i < tab[k].n ? tab[k].e[tab[k].i++] : 0;
    if (!r) tab[k].d = 0;
    pthread_mutex_unlock(&mu);
    return r;
}
