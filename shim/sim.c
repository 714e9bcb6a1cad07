/* The simulator.  It is preloaded into the program under test and replaces, at the boundary to
 * libc, everything the program's behaviour could depend on besides its input files: which thread
 * runs (one at a time, chosen here), futex waits, sleeps, clocks, random numbers, the number of
 * CPUs, and reads, writes, opens, renames and mkdirs below the scenario's directory.  All of its
 * choices come from the plan file named in SIM_PLAN (a seed and probabilities, or a recorded list
 * of decisions), so one plan is one execution.
 *
 * A plan is lines of words:
 *   root DIR                   files below DIR are simulated, the others are passed through
 *   out FILE                   summary and decision log (a mapped file, so it survives any death)
 *   seed N
 *   mode rr|rand|pct|starve    how threads are chosen (rr: run until blocked)
 *   period N                   rand: mean number of basic-block edges between preemptions
 *   psync N                    rand: chance (in 1/1000) to switch at a synchronisation/IO call
 *   depth N / horizon N        pct: number of priority change points, spread over N events
 *   victim N                   starve: thread N runs only when nobody else can
 *   ncpu N
 *   maxev N                    bound on events (liveness); exceeded: exit 97
 *   real NS / mono NS          start of the clocks
 *   jump NTH NS                at the NTH reading of the wall clock it jumps by NS
 *   slow NS                    every clock reading takes that long (slow machine)
 *   pshort N / peintr N / pwshort N   chance in 1/1000 of short read, EINTR, short write
 *   chunk N                    with a short read or write, at most N bytes
 *   pspur N                    chance in 1/1000 that a futex wait wakes up spuriously
 *   quota BYTES                disk full after so many bytes written below root
 *   fault OP SUBSTR NTH ACT ARG   at the NTH OP whose path contains SUBSTR ('*': any)
 *        OP  open creat read write mkdir unlink rename spawn thread stat
 *        ACT err ERRNO (once) | stick ERRNO (from then on) | trunc N (read: EOF from then on)
 *            | crash N (write: N bytes get through, then the process dies)
 *            | race 0 (open/creat: another process creates the file first)
 *   replay                     use the decisions below instead of the random ones
 *   P EVENT TID / F INDEX TID / I OP VALUE / S WAIT 0   recorded decisions
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256
#define MAXFD 1024
#define MAXFAULT 256
#define MAXDEC 400000

/* raw system calls, so that nothing here meets the interposed functions */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define raw(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)

enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
struct thr {
    volatile int go;
    int state;
    uint32_t *addr;
    uint32_t bits;
    int woken;             /* 1 woken, 2 timeout, 3 spurious */
    uint64_t deadline;     /* 0: none */
    int joining;
    pthread_t handle;
    uint64_t prio;
    void *(*fn)(void *);
    void *arg;
};
static struct thr thr[MAXT];
static int nthr;
static __thread int self_id = -1;
static pthread_key_t key;

struct dec { uint32_t kind; int32_t val; uint64_t idx; };
struct out {
    uint64_t magic;
    uint64_t events, guards, switches, preempts, forced, hash, mono, threads, maxlive;
    uint64_t io_ops, opens, reads, writes, bytes_written, clock_reads, futex_waits, futex_wakes;
    uint64_t n_short, n_eintr, n_wshort, n_spur, n_fault, n_jump, n_enospc, n_race;
    uint64_t crashed, deadlock, stall, ndec, exited, spawns, bytes_read, atomics;
    uint64_t fault_hit[MAXFAULT];
    struct dec dec[MAXDEC];
};
static struct out *O;
static struct out dummy_out;

static int on;              /* simulating */
static uint64_t rng_s[2];   /* schedule */
static uint64_t rng_i[2];   /* io */
static char mode[16] = "rr";
static uint64_t period = 0, psync = 0, depth = 0, horizon = 10000, maxev = 200000000ull;
static uint64_t change[64];
static int nchange;
static int victim = -1;
static int ncpu = 2;
static uint64_t mono = 1000000000ull, slow = 200, real_base = 1600000000ull * 1000000000ull;
static int64_t real_off;
static struct { uint64_t nth; int64_t ns; } jumps[32];
static int njumps;
static uint64_t pshort, peintr, pwshort, chunk = 7, pspur;
static uint64_t quota = UINT64_MAX;
static char root[PATH_MAX];
static size_t rootlen;
static int replay;

static size_t cur_p, cur_f, cur_i, cur_s, n_p, n_f, n_i, n_s;
static struct dec *rp, *rf, *ri, *rs;
static uint64_t forced_idx;
static uint64_t low_prio = 1u << 30;
static volatile int64_t until_preempt = INT64_MAX;

struct fault {
    char op[8], sub[200], act[8];
    uint64_t nth, seen;
    long arg;
    int active;
};
static struct fault F[MAXFAULT];
static int nF;

struct fdinfo { int used; char path[256]; int eof; };
static struct fdinfo fds[MAXFD];

static uint64_t nextr(uint64_t *s) { /* xoroshiro128+ */
    uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
    s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    s[1] = (s1 << 37) | (s1 >> 27);
    return r;
}
static uint64_t splitmix(uint64_t *x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void mix(uint64_t v) { O->hash = (O->hash ^ v) * 0x100000001b3ull; O->hash ^= O->hash >> 29; }
static void record(uint32_t kind, uint64_t idx, int64_t val) {
    if (O->ndec < MAXDEC) {
        O->dec[O->ndec].kind = kind;
        O->dec[O->ndec].idx = idx;
        O->dec[O->ndec].val = (int32_t)val;
        O->ndec++;
    }
}
static void die(int code) { raw(SYS_exit_group, code, 0, 0); __builtin_unreachable(); }

/* ------------------------------------------------------------------ scheduling */
static void wake_go(int t) {
    __atomic_store_n(&thr[t].go, 1, __ATOMIC_SEQ_CST);
    raw6(SYS_futex, (long)&thr[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void wait_go(int t) {
    while (!__atomic_load_n(&thr[t].go, __ATOMIC_SEQ_CST))
        raw6(SYS_futex, (long)&thr[t].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&thr[t].go, 0, __ATOMIC_SEQ_CST);
}
static int runnable(int *list) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == T_RUN) list[n++] = i;
    return n;
}
static void draw_preempt(void) {
    if (replay) {
        until_preempt = INT64_MAX;
        if (cur_p < n_p) {
            uint64_t e = rp[cur_p].idx;
            until_preempt = e > O->events ? (int64_t)(e - O->events) : 1;
        }
    } else if (!strcmp(mode, "rand") && period) {
        until_preempt = 1 + (int64_t)(nextr(rng_s) % (2 * period));
    } else if (!strcmp(mode, "pct")) {
        until_preempt = INT64_MAX;
        for (int i = 0; i < nchange; i++)
            if (change[i] > O->events && (int64_t)(change[i] - O->events) < until_preempt)
                until_preempt = (int64_t)(change[i] - O->events);
    } else
        until_preempt = INT64_MAX;
}
static int prefer(const int *l, int n) { /* pct and starve */
    int best = l[0];
    for (int i = 1; i < n; i++)
        if (thr[l[i]].prio > thr[best].prio) best = l[i];
    return best;
}
/* wakes the earliest timed waiter; 0 if there is none */
static int advance_time(void) {
    int best = -1;
    for (int i = 0; i < nthr; i++)
        if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline)
            if (best < 0 || thr[i].deadline < thr[best].deadline) best = i;
    if (best < 0) return 0;
    if (thr[best].deadline > mono) mono = thr[best].deadline;
    thr[best].woken = 2;
    thr[best].state = T_RUN;
    return 1;
}
static void switch_to(int t) {
    int me = self_id;
    if (t == me) return;
    O->switches++;
    mix(0x1000 + t);
    wake_go(t);
    wait_go(me);
}
/* the current thread can not go on (or hands over): somebody else has to run */
static int choose_forced(void) {
    int l[MAXT], n = runnable(l);
    while (!n) {
        if (!advance_time()) return -1;
        n = runnable(l);
    }
    uint64_t idx = forced_idx++;
    int t = l[0];
    if (replay) {
        while (cur_f < n_f && rf[cur_f].idx < idx) cur_f++;
        if (cur_f < n_f && rf[cur_f].idx == idx) {
            for (int i = 0; i < n; i++)
                if (l[i] == rf[cur_f].val) t = l[i];
            cur_f++;
        }
    } else if (!strcmp(mode, "rand"))
        t = l[nextr(rng_s) % n];
    else if (!strcmp(mode, "pct") || !strcmp(mode, "starve"))
        t = prefer(l, n);
    if (t != l[0]) record(2, idx, t);
    O->forced++;
    return t;
}
static void block_here(void) {
    int me = self_id;
    int t = choose_forced();
    if (t < 0) {
        O->deadlock = 1;
        die(96);
    }
    if (t != me) {
        O->switches++;
        mix(0x2000 + t);
        wake_go(t);
        wait_go(me);
    }
    draw_preempt();
}
static void event(void) {
    O->events++;
    O->mono = mono;
    if (O->events > maxev) {
        O->stall = 1;
        die(97);
    }
}
static void preempt_now(int sync) {
    /* somebody else may run; `sync`: at a call, not at an edge */
    int l[MAXT], n = runnable(l), t = self_id;
    if (replay) {
        if (cur_p < n_p && rp[cur_p].idx <= O->events) {
            if (rp[cur_p].idx == O->events)
                for (int i = 0; i < n; i++)
                    if (l[i] == rp[cur_p].val) t = l[i];
            cur_p++;
        }
    } else if (!strcmp(mode, "rand")) {
        if (!sync || nextr(rng_s) % 1000 < psync) t = l[nextr(rng_s) % n];
    } else if (!strcmp(mode, "pct")) {
        for (int i = 0; i < nchange; i++)
            if (change[i] == O->events) thr[self_id].prio = --low_prio;
        t = prefer(l, n);
    } else if (!strcmp(mode, "starve"))
        t = prefer(l, n);
    if (t != self_id) {
        record(1, O->events, t);
        O->preempts++;
        switch_to(t);
    }
    draw_preempt();
}
static void yield_point(uint64_t what) {
    if (!on || self_id < 0) return;
    event();
    mono += 50;
    if (until_preempt != INT64_MAX) until_preempt--;
    mix(what * 31 + self_id);
    preempt_now(1);
}
/* instrumented edges */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    (void)g;
    if (!on || self_id < 0) return;
    O->guards++;
    event();
    mono += 5;
    if (--until_preempt <= 0) preempt_now(0);
}
/* atomic operations: a preemption point before each, somewhat likelier than at an edge */
static void atomic_point(void) {
    if (!on || self_id < 0) return;
    O->atomics++;
    event();
    mono += 5;
    if (until_preempt == INT64_MAX) return;
    until_preempt -= replay || strcmp(mode, "rand") ? 1 : 16;
    if (until_preempt <= 0) preempt_now(0);
}
#define ATOMICS(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int m) { (void)m; atomic_point(); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int m) { (void)m; atomic_point(); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_nand(a, v, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { \
        (void)m; (void)f; atomic_point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; atomic_point(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
void __tsan_init(void) {}

static int new_thread(void) {
    int t = -1;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == T_FREE) { t = i; break; }
    if (t < 0) {
        if (nthr == MAXT) { fprintf(stderr, "sim: too many threads\n"); die(95); }
        t = nthr++;
    }
    memset((void *)&thr[t], 0, sizeof thr[t]);
    thr[t].state = T_RUN;
    thr[t].prio = (1u << 31) + (nextr(rng_s) % 1000000);
    if (!strcmp(mode, "starve")) thr[t].prio = t == victim ? 0 : (1u << 31) - t;
    O->threads++;
    return t;
}
static void thread_end(void *p) {
    int me = (int)(long)p - 1;
    if (!on) return;
    thr[me].state = T_DONE;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == T_JOIN && thr[i].joining == me) thr[i].state = T_RUN;
    mix(0x3000 + me);
    int t = choose_forced();
    self_id = -1;
    if (t < 0) {
        O->deadlock = 1;
        die(96);
    }
    draw_preempt();
    wake_go(t);
}
static void *thread_start(void *p) {
    int me = (int)(long)p;
    wait_go(me);
    self_id = me;
    pthread_setspecific(key, (void *)(long)(me + 1));
    return thr[me].fn(thr[me].arg);
}

/* ------------------------------------------------------------------ faults */
static struct fault *match(const char *op, const char *path) {
    struct fault *hit = NULL;
    for (int i = 0; i < nF; i++) {
        struct fault *f = &F[i];
        if (strcmp(f->op, op)) continue;
        if (strcmp(f->sub, "*") && !strstr(path, f->sub)) continue;
        f->seen++;
        if (f->active || f->seen == f->nth) {
            if (!strcmp(f->act, "stick") || !strcmp(f->act, "trunc")) f->active = 1;
            O->fault_hit[i]++;
            if (!hit) hit = f;
        }
    }
    if (hit) {
        O->n_fault++;
        mix(0x7000 + (uint64_t)hit->arg);
    }
    return hit;
}
static int is_err(struct fault *f) { return !strcmp(f->act, "err") || !strcmp(f->act, "stick"); }
static void crash(void) {
    O->crashed = 1;
    O->mono = mono;
    die(99);
}
/* benign IO noise: 0 nothing, -1 EINTR, n>0 at most n bytes */
static int noise(int is_read, size_t len) {
    uint64_t op = O->io_ops;
    int v = 0;
    if (replay) {
        while (cur_i < n_i && ri[cur_i].idx < op) cur_i++;
        if (cur_i < n_i && ri[cur_i].idx == op) v = ri[cur_i++].val;
    } else {
        uint64_t ps = is_read ? pshort : pwshort;
        if (peintr && nextr(rng_i) % 1000 < peintr) v = -1;
        else if (ps && len > 1 && nextr(rng_i) % 1000 < ps)
            v = 1 + (int)(nextr(rng_i) % (chunk < len ? chunk : len - 1));
    }
    if (v) record(3, op, v);
    if (v < 0) O->n_eintr++;
    else if (v > 0) {
        if (is_read) O->n_short++;
        else O->n_wshort++;
    }
    return v;
}
static const char *simpath(const char *path, char *buf) {
    if (!on || !path || !rootlen) return NULL;
    if (path[0] == '/') snprintf(buf, PATH_MAX, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return NULL;
        while (path[0] == '.' && path[1] == '/') path += 2;
        snprintf(buf, PATH_MAX + 300, "%s/%s", cwd, path);
    }
    if (strncmp(buf, root, rootlen)) return NULL;
    return buf + rootlen;
}

/* ------------------------------------------------------------------ interposed functions */
#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int do_open(const char *path, int flags, mode_t m, int dirfd) {
    char buf[PATH_MAX * 2];
    const char *sp = dirfd == AT_FDCWD ? simpath(path, buf) : NULL;
    if (!sp || (flags & O_DIRECTORY)) {
        long x = raw6(SYS_openat, dirfd, (long)path, flags, m, 0, 0);
        if (x < 0) { errno = -x; return -1; }
        if (on && x < MAXFD) fds[x].used = 0;
        return x;
    }
    yield_point(11);
    O->opens++;
    O->io_ops++;
    struct fault *f = match((flags & O_CREAT) ? "creat" : "open", sp);
    if (f) {
        if (is_err(f)) { errno = f->arg; return -1; }
        if (!strcmp(f->act, "crash")) crash();
        if (!strcmp(f->act, "race")) {
            long x = raw6(SYS_openat, AT_FDCWD, (long)path, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644, 0, 0);
            if (x >= 0) {
                static const char msg[] = "written by somebody else\n";
                raw(SYS_write, x, msg, sizeof msg - 1);
                raw(SYS_close, x, 0, 0);
                O->n_race++;
            }
        }
    }
    if (noise(1, 0) < 0) { errno = EINTR; return -1; }
    long x = raw6(SYS_openat, AT_FDCWD, (long)path, flags, m, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    if (x < MAXFD) {
        fds[x].used = 1;
        fds[x].eof = 0;
        snprintf(fds[x].path, sizeof fds[x].path, "%s", sp);
    }
    return x;
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags | O_LARGEFILE, m, AT_FDCWD);
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m, AT_FDCWD);
}
int openat64(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags | O_LARGEFILE, m, d);
}
int openat(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m, d);
}
int close(int fd) {
    if (on && fd >= 0 && fd < MAXFD) fds[fd].used = 0;
    long x = raw(SYS_close, fd, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
static ssize_t do_read(int fd, void *p, size_t n, off_t off) {
    long x;
    if (!on || fd < 0 || fd >= MAXFD || !fds[fd].used) {
        x = off < 0 ? raw(SYS_read, fd, p, n) : raw6(SYS_pread64, fd, (long)p, n, off, 0, 0);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    yield_point(12);
    O->reads++;
    O->io_ops++;
    struct fault *f = match("read", fds[fd].path);
    if (f) {
        if (is_err(f)) { errno = f->arg; return -1; }
        if (!strcmp(f->act, "crash")) crash();
        if (!strcmp(f->act, "trunc")) return 0;
    }
    int v = noise(1, n);
    if (v < 0) { errno = EINTR; return -1; }
    if (v > 0 && (size_t)v < n) n = v;
    x = off < 0 ? raw(SYS_read, fd, p, n) : raw6(SYS_pread64, fd, (long)p, n, off, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    O->bytes_read += x;
    return x;
}
ssize_t read(int fd, void *p, size_t n) { return do_read(fd, p, n, -1); }
ssize_t pread64(int fd, void *p, size_t n, off64_t o) { return do_read(fd, p, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on || fd < 0 || fd >= MAXFD || !fds[fd].used) {
        long x = raw(SYS_readv, fd, v, c);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t write(int fd, const void *p, size_t n) {
    long x;
    if (!on || fd < 0 || fd >= MAXFD || !fds[fd].used) {
        x = raw(SYS_write, fd, p, n);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    yield_point(13);
    O->writes++;
    O->io_ops++;
    struct fault *f = match("write", fds[fd].path);
    if (f) {
        if (is_err(f)) { errno = f->arg; return -1; }
        if (!strcmp(f->act, "crash")) {
            size_t k = (size_t)f->arg < n ? (size_t)f->arg : n;
            if (k) raw(SYS_write, fd, p, k);
            crash();
        }
    }
    int v = noise(0, n);
    if (v < 0) { errno = EINTR; return -1; }
    if (v > 0 && (size_t)v < n) n = v;
    if (O->bytes_written >= quota && n) { O->n_enospc++; errno = ENOSPC; return -1; }
    if (n > quota - O->bytes_written) n = quota - O->bytes_written;
    x = raw(SYS_write, fd, p, n);
    if (x < 0) { errno = -x; return -1; }
    O->bytes_written += x;
    return x;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on || fd < 0 || fd >= MAXFD || !fds[fd].used) {
        long x = raw(SYS_writev, fd, v, c);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* copies go through read and write, so that they meet the same faults */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (!on) {
        long x = raw6(SYS_copy_file_range, a, (long)b, c, (long)d, e, f);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    if (!on) {
        long x = raw6(SYS_sendfile, a, b, (long)c, d, 0, 0);
        if (x < 0) { errno = -x; return -1; }
        return x;
    }
    errno = ENOSYS;
    return -1;
}
static int path_op(const char *op, const char *path) {
    char buf[PATH_MAX * 2];
    const char *sp = simpath(path, buf);
    if (!sp) return 0;
    yield_point(14);
    O->io_ops++;
    struct fault *f = match(op, sp);
    if (f) {
        if (is_err(f)) { errno = f->arg; return -1; }
        if (!strcmp(f->act, "crash")) crash();
    }
    return 0;
}
int mkdir(const char *path, mode_t m) {
    if (path_op("mkdir", path)) return -1;
    long x = raw(SYS_mkdir, path, m, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
int rename(const char *a, const char *b) {
    if (path_op("rename", b)) return -1;
    long x = raw(SYS_rename, a, b, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
int unlink(const char *a) {
    if (path_op("unlink", a)) return -1;
    long x = raw(SYS_unlink, a, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
int fsync(int fd) { if (on) { yield_point(15); return 0; } long x = raw(SYS_fsync, fd, 0, 0); if (x < 0) { errno = -x; return -1; } return 0; }

/* threads */
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    REAL(pthread_create);
    if (!on || self_id < 0) return r(h, a, fn, arg);
    struct fault *f = match("thread", "thread");
    if (f && is_err(f)) return (int)f->arg;
    int t = new_thread();
    thr[t].fn = fn;
    thr[t].arg = arg;
    int e = r(h, a, thread_start, (void *)(long)t);
    if (e) { thr[t].state = T_FREE; return e; }
    thr[t].handle = *h;
    mix(0x4000 + t);
    int live = 0;
    for (int i = 0; i < nthr; i++) live += thr[i].state != T_FREE && thr[i].state != T_DONE;
    if ((uint64_t)live > O->maxlive) O->maxlive = live;
    yield_point(21);
    return 0;
}
int pthread_join(pthread_t h, void **res) {
    REAL(pthread_join);
    if (!on || self_id < 0) return r(h, res);
    yield_point(22);
    int t = -1;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state != T_FREE && i && pthread_equal(thr[i].handle, h)) t = i;
    if (t >= 0) {
        while (thr[t].state != T_DONE) {
            thr[self_id].state = T_JOIN;
            thr[self_id].joining = t;
            block_here();
        }
    }
    int e = r(h, res);
    if (t >= 0) { memset(&thr[t].handle, 0, sizeof thr[t].handle); }
    return e;
}
int sched_yield(void) {
    if (!on || self_id < 0) { raw(SYS_sched_yield, 0, 0, 0); return 0; }
    event();
    mono += 50;
    /* a spinning thread asks for the others to run */
    thr[self_id].prio = --low_prio;
    int l[MAXT], n = runnable(l);
    if (n > 1) {
        thr[self_id].state = T_SLEEP;
        int t = choose_forced();
        thr[self_id].state = T_RUN;
        if (t >= 0) switch_to(t);
    } else if (n == 1) {
        /* alone: let time pass for the sleepers */
        mono += 1000;
        for (int i = 0; i < nthr; i++)
            if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline && thr[i].deadline <= mono) {
                thr[i].state = T_RUN;
                thr[i].woken = 2;
            }
    }
    draw_preempt();
    return 0;
}
static void sim_sleep(uint64_t ns) {
    event();
    thr[self_id].state = T_SLEEP;
    thr[self_id].deadline = mono + ns + 1;
    block_here();
    thr[self_id].deadline = 0;
    thr[self_id].state = T_RUN;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!on || self_id < 0) { long x = raw(SYS_nanosleep, a, b, 0); if (x < 0) { errno = -x; return -1; } return 0; }
    sim_sleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!on || self_id < 0) return -(int)raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
    uint64_t ns = (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
    if (fl & TIMER_ABSTIME) {
        uint64_t now = c == CLOCK_REALTIME ? real_base + mono + real_off : mono;
        ns = ns > now ? ns - now : 0;
    }
    sim_sleep(ns);
    return 0;
}
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        yield_point(31);
        O->futex_waits++;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        int spur = 0;
        if (replay) {
            while (cur_s < n_s && rs[cur_s].idx < O->futex_waits) cur_s++;
            if (cur_s < n_s && rs[cur_s].idx == O->futex_waits) { spur = 1; cur_s++; }
        } else if (pspur && nextr(rng_i) % 1000 < pspur)
            spur = 1;
        if (spur) { record(4, O->futex_waits, 0); O->n_spur++; return -EINTR; }
        struct thr *t = &thr[self_id];
        t->state = T_FUTEX;
        t->addr = addr;
        t->bits = cmd == FUTEX_WAIT ? ~0u : bits;
        t->woken = 0;
        t->deadline = 0;
        if (ts) {
            uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            if (cmd == FUTEX_WAIT) ns += mono;
            else if (op & FUTEX_CLOCK_REALTIME) {
                uint64_t now = real_base + mono + real_off;
                ns = mono + (ns > now ? ns - now : 0);
            }
            t->deadline = ns ? ns : 1;
        }
        mix(0x5000 + self_id);
        block_here();
        t->deadline = 0;
        return t->woken == 2 ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t b = cmd == FUTEX_WAKE ? ~0u : bits;
        int n = 0;
        O->futex_wakes++;
        for (int i = 0; i < nthr && n < (int)val; i++)
            if (thr[i].state == T_FUTEX && thr[i].addr == addr && (thr[i].bits & b)) {
                thr[i].state = T_RUN;
                thr[i].woken = 1;
                n++;
            }
        mix(0x6000 + n);
        yield_point(32);
        return n;
    }
    return -ENOSYS;
}
static uint64_t rnd_state = 0x1234;
static long sim_random(void *p, size_t n) {
    unsigned char *c = p;
    for (size_t i = 0; i < n; i++) c[i] = (unsigned char)splitmix(&rnd_state);
    return (long)n;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long x;
    if (on && self_id >= 0 && n == SYS_futex)
        x = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    else if (on && n == SYS_getrandom)
        x = sim_random((void *)a, (size_t)b);
    else if (on && n == SYS_copy_file_range)
        x = -ENOSYS;
    else
        x = raw6(n, a, b, c, d, e, f);
    if (x < 0 && x > -4096) { errno = -x; return -1; }
    return x;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
    if (on) return sim_random(p, n);
    long x = raw(SYS_getrandom, p, n, fl);
    if (x < 0) { errno = -x; return -1; }
    return x;
}

/* time */
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on) {
        long x = raw(SYS_clock_gettime, c, t, 0);
        if (x < 0) { errno = -x; return -1; }
        return 0;
    }
    O->clock_reads++;
    mono += slow;
    uint64_t v = mono;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        for (int i = 0; i < njumps; i++)
            if (jumps[i].nth && --jumps[i].nth == 0) {
                real_off += jumps[i].ns;
                O->n_jump++;
            }
        v = real_base + mono + real_off;
    }
    t->tv_sec = v / 1000000000ull;
    t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict z) {
    (void)z;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}

/* number of CPUs */
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
    if (!on) {
        long x = raw(SYS_sched_getaffinity, pid, sz, set);
        if (x < 0) { errno = -x; return -1; }
        return 0;
    }
    memset(set, 0, sz);
    for (int i = 0; i < ncpu; i++) CPU_SET_S(i, sz, set);
    return 0;
}
long sysconf(int name) {
    REAL(sysconf);
    if (on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu;
    return r(name);
}

/* child processes */
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa,
                 const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
    REAL(posix_spawnp);
    if (!on) return r(pid, file, fa, at, argv, envp);
    O->spawns++;
    yield_point(41);
    struct fault *f = match("spawn", file);
    if (f && is_err(f)) return (int)f->arg;
    if (f && !strcmp(f->act, "crash")) crash();
    return r(pid, file, fa, at, argv, envp);
}

/* ------------------------------------------------------------------ start */
static int cmpdec(const void *a, const void *b) {
    const struct dec *x = a, *y = b;
    return x->idx < y->idx ? -1 : x->idx > y->idx;
}
static void add_rep(struct dec **v, size_t *n, uint64_t idx, int32_t val) {
    if (*n % 4096 == 0) *v = realloc(*v, (*n + 4096) * sizeof **v);
    (*v)[*n].idx = idx;
    (*v)[*n].val = val;
    (*v)[*n].kind = 0;
    (*n)++;
}
__attribute__((constructor)) static void start(void) {
    O = &dummy_out;
    const char *plan = getenv("SIM_PLAN");
    const char *lib0 = getenv("LD_PRELOAD");
    char *lib = lib0 ? strdup(lib0) : NULL;
    unsetenv("LD_PRELOAD");
    if (!plan) return;
    /* addresses must not differ between runs */
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") &&
        personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
        static char cmd[1 << 16];
        char *av[256];
        int fd = open("/proc/self/cmdline", O_RDONLY), n = 0, ac = 0;
        if (fd >= 0) {
            n = read(fd, cmd, sizeof cmd - 1);
            close(fd);
        }
        for (int i = 0; i < n && ac < 255; i += strlen(cmd + i) + 1) av[ac++] = cmd + i;
        av[ac] = NULL;
        setenv("SIM_REEXEC", "1", 1);
        if (lib) setenv("LD_PRELOAD", lib, 1);
        if (ac) execv("/proc/self/exe", av);
        unsetenv("LD_PRELOAD");
    }
    unsetenv("SIM_REEXEC");
    unsetenv("SIM_PAD"); /* has moved the stack */
    uint64_t addr = 0;
    FILE *fp = fopen(plan, "r");
    if (!fp) { fprintf(stderr, "sim: cannot read plan\n"); _exit(95); }
    unsetenv("SIM_PLAN");
    char line[1024], w[64], outp[PATH_MAX] = "";
    uint64_t seed = 1;
    while (fgets(line, sizeof line, fp)) {
        char a[300], b[300], c[64];
        long long x, y;
        if (sscanf(line, "%63s", w) != 1) continue;
        if (!strcmp(w, "root")) sscanf(line, "%*s %4000s", root);
        else if (!strcmp(w, "out")) sscanf(line, "%*s %4000s", outp);
        else if (!strcmp(w, "mode")) sscanf(line, "%*s %15s", mode);
        else if (!strcmp(w, "replay")) replay = 1;
        else if (!strcmp(w, "fault")) {
            struct fault *f = &F[nF];
            unsigned long long nth;
            long arg;
            if (nF < MAXFAULT && sscanf(line, "%*s %299s %299s %llu %63s %ld", a, b, &nth, c, &arg) == 5) {
                snprintf(f->op, sizeof f->op, "%.7s", a);
                snprintf(f->sub, sizeof f->sub, "%.199s", b);
                snprintf(f->act, sizeof f->act, "%.7s", c);
                f->nth = nth;
                f->arg = arg;
                nF++;
            } else { fprintf(stderr, "sim: bad fault: %s", line); _exit(95); }
        } else if (!strcmp(w, "jump")) {
            if (sscanf(line, "%*s %lld %lld", &x, &y) == 2 && njumps < 32) { jumps[njumps].nth = x; jumps[njumps].ns = y; njumps++; }
        } else if (!strcmp(w, "P") || !strcmp(w, "F") || !strcmp(w, "I") || !strcmp(w, "S")) {
            if (sscanf(line, "%*s %lld %lld", &x, &y) != 2) continue;
            if (w[0] == 'P') add_rep(&rp, &n_p, x, y);
            else if (w[0] == 'F') add_rep(&rf, &n_f, x, y);
            else if (w[0] == 'S') add_rep(&rs, &n_s, x, y);
            else add_rep(&ri, &n_i, x, y);
        } else if (sscanf(line, "%*s %lld", &x) == 1) {
            if (!strcmp(w, "seed")) seed = x;
            else if (!strcmp(w, "period")) period = x;
            else if (!strcmp(w, "psync")) psync = x;
            else if (!strcmp(w, "depth")) depth = x;
            else if (!strcmp(w, "horizon")) horizon = x;
            else if (!strcmp(w, "victim")) victim = x;
            else if (!strcmp(w, "ncpu")) ncpu = x;
            else if (!strcmp(w, "maxev")) maxev = x;
            else if (!strcmp(w, "real")) real_base = x;
            else if (!strcmp(w, "mono")) mono = x;
            else if (!strcmp(w, "slow")) slow = x;
            else if (!strcmp(w, "pshort")) pshort = x;
            else if (!strcmp(w, "peintr")) peintr = x;
            else if (!strcmp(w, "pwshort")) pwshort = x;
            else if (!strcmp(w, "chunk")) chunk = x ? x : 1;
            else if (!strcmp(w, "pspur")) pspur = x;
            else if (!strcmp(w, "quota")) quota = x;
            else if (!strcmp(w, "addr")) addr = x;
            else { fprintf(stderr, "sim: bad plan line: %s", line); _exit(95); }
        }
    }
    fclose(fp);
    if (n_p) qsort(rp, n_p, sizeof *rp, cmpdec);
    if (n_f) qsort(rf, n_f, sizeof *rf, cmpdec);
    if (n_i) qsort(ri, n_i, sizeof *ri, cmpdec);
    if (n_s) qsort(rs, n_s, sizeof *rs, cmpdec);
    rootlen = strlen(root);
    if (addr) { /* where memory lies is up to the operating system: heap, mappings and thereby stacks of threads move */
        volatile char *leak = malloc(16 + 16 * (addr % 4093));
        if (leak) leak[0] = 1;
        mmap(NULL, (addr / 4093 % 40009 + 1) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    if (outp[0]) {
        int fd = raw6(SYS_openat, AT_FDCWD, (long)outp, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644, 0, 0);
        if (fd < 0 || raw(SYS_ftruncate, fd, sizeof *O, 0) < 0) { fprintf(stderr, "sim: cannot write %s\n", outp); _exit(95); }
        void *m = mmap(NULL, sizeof *O, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { fprintf(stderr, "sim: mmap\n"); _exit(95); }
        O = m;
        raw(SYS_close, fd, 0, 0);
    }
    O->magic = 0x53494d31;
    O->hash = 0xcbf29ce484222325ull;
    uint64_t s = seed;
    rng_s[0] = splitmix(&s);
    rng_s[1] = splitmix(&s);
    rng_i[0] = splitmix(&s);
    rng_i[1] = splitmix(&s);
    rnd_state = splitmix(&s);
    if (!strcmp(mode, "pct")) {
        nchange = depth < 64 ? (int)depth : 64;
        for (int i = 0; i < nchange; i++) change[i] = 1 + nextr(rng_s) % (horizon ? horizon : 1);
    }
    pthread_key_create(&key, thread_end);
    int t = new_thread();
    thr[t].handle = pthread_self();
    self_id = t;
    O->maxlive = 1;
    draw_preempt();
    on = 1;
}
__attribute__((destructor)) static void finish(void) {
    if (!on) return;
    O->exited = 1;
    O->mono = mono;
}
