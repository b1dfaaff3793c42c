// The simulator's run-time: scheduler, virtual futexes, virtual clock, entropy, and an in-memory file
// system with fault injection. It is loaded in front of libc, so the functions below replace libc's for the
// code under test; it also provides the __tsan_* entry points that instrumented code calls, which are
// the scheduling points. See DESIGN.md.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

#define EXPORT __attribute__((visibility("default")))
#define HOT __attribute__((visibility("default"), noinline))

// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ state
enum tstate { T_FREE = 0, T_RUNNABLE, T_FUTEX, T_JOIN, T_SLEEP, T_GATE, T_DONE };

struct th {
    int st;
    int go;                 // hand-off word (real futex)
    uintptr_t waitaddr;
    uint32_t waitmask;
    uint64_t waitseq;
    int timed;
    uint64_t deadline;
    int reason;             // 0 woken, 1 timed out
    int jointarget;
    pthread_t pt;
    int pt_known;
    uint32_t prio;
    int in_op;
    uint64_t ent, rng;      // per-thread generator states
    void *(*fn)(void *);
    void *arg;
};

static struct shm *S;
static struct th T[MAX_THREADS];
static int nthreads;
static int current = -1;
static int active;                 // simulation in progress
static __thread int self __attribute__((tls_model("initial-exec"))) = -1;
static uint64_t rng_sched, rng_fault;
static uint32_t explicit_i;
static uint64_t since_switch;
static uint64_t waitseq_next;
static uint32_t pct_points[64];
static uint32_t pct_low;
static uint32_t next_prio_salt;
static uintptr_t exe_base;
static pthread_key_t exit_key;
static int exit_key_made;
static uint64_t vnow;              // virtual nanoseconds
static int64_t wall_off;           // how far the wall clock was set off
static uint64_t rng_clock;

static inline uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint32_t rnd16(uint64_t *s) { return (uint32_t)(splitmix(s) >> 48); }
static inline uint32_t rndn(uint64_t *s, uint32_t n) { return (uint32_t)((splitmix(s) >> 33) % n); }
static inline void mix(uint64_t *h, uint64_t v) {
    uint64_t x = *h ^ v;
    x *= 0xff51afd7ed558ccdull; x ^= x >> 32;
    *h = x;
}

static int iter_base(struct dl_phdr_info *i, size_t n, void *d) { (void)n; *(uintptr_t *)d = i->dlpi_addr; return 1; }

EXPORT struct shm *rt_shm(void) { return S; }
EXPORT size_t rt_shm_size(void) { return sizeof(struct shm); }

EXPORT struct shm *rt_shm_create(void) {
    void *p = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return 0;
    S = p;
    return S;
}
EXPORT struct shm *rt_shm_open(const char *path, int create) {
    long fd = RAW(SYS_openat, AT_FDCWD, path, O_RDWR | O_CLOEXEC | (create ? O_CREAT : 0), 0600);
    if (fd < 0) return 0;
    if (create && RAW(SYS_ftruncate, fd, sizeof(struct shm)) < 0) return 0;
    long p = RAW(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0);
    RAW(SYS_close, fd);
    if (p < 0 && p > -4096) return 0;
    S = (struct shm *)p;
    return S;
}

// ------------------------------------------------------------------ hand-off
static void die_status(uint32_t st) {
    S->status = st;
    RAW(SYS_exit_group, 0);
    __builtin_unreachable();
}

static void wait_go(struct th *t) {
    while (!__atomic_exchange_n(&t->go, 0, __ATOMIC_ACQUIRE))
        RAW(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static void give_go(struct th *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    RAW(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static int runnable_list(int *out, int except) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) {
        if ((T[i].st == T_SLEEP || (T[i].st == T_FUTEX && T[i].timed)) && T[i].deadline <= vnow) { T[i].st = T_RUNNABLE; T[i].reason = 1; }
        if (T[i].st == T_RUNNABLE && i != except) out[n++] = i;
    }
    return n;
}

static void record(int next) {
    if (S->n_trace < MAX_TRACE) {
        S->trace[S->n_trace].step = (uint32_t)S->steps;
        S->trace[S->n_trace].tid = (uint32_t)next;
        S->n_trace++;
    }
}

static int best_prio(const int *c, int n) {
    int b = c[0];
    for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
    return b;
}

static uint64_t stall_until[MAX_THREADS];
static int stalled_any; // threads were held back in this run

static int starved(int t) {
    if (stalled_any && S->steps < stall_until[t]) return 1;
    return S->starve_tid1 && (int)S->starve_tid1 - 1 == t && S->steps < S->starve_steps;
}

// Code addresses as offsets in the program; anything outside it (libraries are mapped elsewhere in every process) is one site.
static uint32_t norm_site(uintptr_t site) {
    uintptr_t o = site - exe_base;
    return o < 0x7fffffffu ? (uint32_t)o : 7u;
}

// Pick among candidates when the current thread cannot go on.
static int pick_forced(int *c, int n) {
    if (S->strategy == STRAT_EXPLICIT) {
        while (explicit_i < S->n_explicit && S->explicit_[explicit_i].step < S->steps) explicit_i++;
        if (explicit_i < S->n_explicit && S->explicit_[explicit_i].step == S->steps) {
            int t = (int)S->explicit_[explicit_i].tid;
            for (int i = 0; i < n; i++) if (c[i] == t) { explicit_i++; return t; }
        }
        return c[0];
    }
    if ((S->starve_tid1 || stalled_any) && n > 1) {
        int k = 0, d[MAX_THREADS];
        for (int i = 0; i < n; i++) if (!starved(c[i])) d[k++] = c[i];
        if (k && k < n) { S->fault_fired[FK_STARVE]++; memcpy(c, d, sizeof(int) * (size_t)k); n = k; }
    }
    if (S->strategy == STRAT_PCT) return best_prio(c, n);
    return c[rndn(&rng_sched, (uint32_t)n)];
}

// Voluntary decision at a scheduling point; returns the thread to run next (possibly self).
static int pick_voluntary_(uintptr_t site, int yielding) {
    int c[MAX_THREADS];
    int n = runnable_list(c, self);
    if (n == 0) return self;
    switch (S->strategy) {
    case STRAT_SOLO: return yielding ? c[0] : self;
    case STRAT_EXPLICIT:
        while (explicit_i < S->n_explicit && S->explicit_[explicit_i].step < S->steps) explicit_i++;
        if (explicit_i < S->n_explicit && S->explicit_[explicit_i].step == S->steps) {
            int t = (int)S->explicit_[explicit_i].tid;
            explicit_i++;
            if (t >= 0 && t < nthreads && T[t].st == T_RUNNABLE) return t;
        }
        return self;
    default: break;
    }
    if (stalled_any || (S->starve_tid1 && S->steps < S->starve_steps)) {
        int k = 0;
        for (int i = 0; i < n; i++) if (!starved(c[i])) c[k++] = c[i];
        if (starved(self) && k) { S->fault_fired[FK_STARVE]++; return c[rndn(&rng_sched, (uint32_t)k)]; }
        n = k;
        if (n == 0) return self;
    }
    if (since_switch > 20000) return c[rndn(&rng_sched, (uint32_t)n)];
    if (yielding && (rnd16(&rng_sched) & 3)) {
        if (S->strategy == STRAT_PCT) T[self].prio = pct_low--;
        return c[rndn(&rng_sched, (uint32_t)n)];
    }
    switch (S->strategy) {
    case STRAT_RANDOM:
        if (rnd16(&rng_sched) < S->p_switch) return c[rndn(&rng_sched, (uint32_t)n)];
        return self;
    case STRAT_SITE: {
        uint64_t h = 0;
        mix(&h, (uint64_t)norm_site(site));
        if ((uint32_t)(h >> 20) % S->site_mod == S->site_key && rnd16(&rng_sched) < S->p_switch)
            return c[rndn(&rng_sched, (uint32_t)n)];
        return self;
    }
    case STRAT_PCT: {
        for (uint32_t i = 0; i < S->pct_d && i < 64; i++)
            if (pct_points[i] == S->steps) { T[self].prio = pct_low--; }
        c[n++] = self;
        return best_prio(c, n);
    }
    }
    return self;
}

static int pick_voluntary(uintptr_t site, int yielding) {
    int next = pick_voluntary_(site, yielding);
    // A thread preempted here may stay where it is for a long time, whatever it holds.
    if (next != self && S->p_stall && S->strategy != STRAT_EXPLICIT && S->strategy != STRAT_SOLO && rnd16(&rng_sched) < S->p_stall) {
        stall_until[self] = S->steps + 1 + rndn(&rng_sched, S->stall_len);
        stalled_any = 1;
        S->fault_fired[FK_STARVE]++;
    }
    return next;
}

static uint32_t last_site;
static void note_switch(int next, uint32_t site) {
    S->switches++;
    since_switch = 0;
    record(next);
    uint64_t x = ((uint64_t)(uint32_t)next << 32) | site;
    mix(&S->ilhash, x);
    uint32_t pr = (last_site * 31u + site) * 2654435761u;
    uint8_t *p = &S->sitepair[(pr >> 16) & (SITE_MAP - 1)];
    if (*p < 255) (*p)++;
    last_site = site;
}

static void switch_to(int next, int wait) {
    int me = self;
    current = next;
    give_go(&T[next]);
    if (wait) wait_go(&T[me]);
}

static void jump_clock(void) {
    S->fault_fired[FK_CLOCKJUMP]++;
    uint64_t r = splitmix(&rng_clock);
    static const uint64_t far[] = { 50000000ull, 1000000000ull, 30000000000ull, 3600000000000ull };
    if (r & 4) vnow += (r >> 8) % far[r & 3];
    else wall_off = (int64_t)((r >> 8) % (far[r & 3] * 2000)) - (int64_t)(far[r & 3] * 1000);
}
static void pass_time(void) {
    vnow += S->tick;
    if (S->p_jump && (splitmix(&rng_clock) >> 44) < S->p_jump) jump_clock();
}

static void point(uintptr_t site, int kind, int yielding) {
    if (self < 0 || !active) return;
    S->steps++;
    pass_time();
    since_switch++;
    uint32_t off = norm_site(site);
    mix(&S->loghash, ((uint64_t)self << 40) ^ ((uint64_t)kind << 34) ^ off);
    if (S->steps > S->step_limit) { S->vtime = vnow; die_status(RS_LIVELOCK); }
    if (nthreads < 2) return;
    int next = pick_voluntary(site, yielding);
    if (next != self) {
        if (T[self].in_op) S->preempt_in_op++;
        note_switch(next, off);
        switch_to(next, 1);
    }
}

// The current thread has set its state to a waiting one: run somebody else until it is runnable again.
static void block_here(uintptr_t site, int final) {
    int c[MAX_THREADS];
    S->steps++;
    uint32_t off = norm_site(site);
    mix(&S->loghash, ((uint64_t)self << 40) ^ (7ull << 60) ^ off);
    if (S->steps > S->step_limit) { S->vtime = vnow; die_status(RS_LIVELOCK); }
    for (;;) {
        int n = runnable_list(c, -1);
        if (n > 0) {
            int next = pick_forced(c, n);
            S->forced++;
            if (next == self) return;   // became runnable through the clock below
            note_switch(next, off);
            switch_to(next, !final);
            return;
        }
        // Nobody can run: jump the clock to the next deadline.
        int best = -1;
        for (int i = 0; i < nthreads; i++)
            if ((T[i].st == T_SLEEP || (T[i].st == T_FUTEX && T[i].timed)) &&
                (best < 0 || T[i].deadline < T[best].deadline)) best = i;
        if (best >= 0) {
            if (T[best].deadline > vnow) vnow = T[best].deadline;
            T[best].reason = 1;
            T[best].st = T_RUNNABLE;
            continue;
        }
        int alive = 0;
        for (int i = 0; i < nthreads; i++) if (T[i].st != T_DONE && T[i].st != T_FREE) alive++;
        if (!alive) { current = -1; return; }   // everyone has finished
        S->vtime = vnow;
        die_status(RS_DEADLOCK);
    }
}

// ------------------------------------------------------------------ control interface
static void init_thread(int t) {
    memset(&T[t], 0, sizeof T[t]);
    T[t].st = T_RUNNABLE;
    uint64_t z = S->seed ^ (0xA5A5ull + (uint64_t)t * 0x9E3779B97F4A7C15ull);
    T[t].ent = splitmix(&z);
    T[t].rng = splitmix(&z);
    T[t].prio = 0x40000000u + (uint32_t)(splitmix(&rng_sched) & 0x0fffffffu);
}

static void thread_exit_key(void *v);

EXPORT void rt_begin(void) {
    if (!exe_base) dl_iterate_phdr(iter_base, &exe_base);
    if (!exit_key_made) { pthread_key_create(&exit_key, thread_exit_key); exit_key_made = 1; }
    uint64_t z = S->seed;
    rng_sched = splitmix(&z);
    rng_fault = splitmix(&z);
    uint64_t pc = splitmix(&z);
    for (uint32_t i = 0; i < S->pct_d && i < 64; i++) pct_points[i] = 1 + rndn(&pc, S->pct_len ? S->pct_len : 1);
    pct_low = 0x20000000u;
    next_prio_salt = 0;
    explicit_i = 0; since_switch = 0; stalled_any = 0; memset(stall_until, 0, sizeof stall_until); waitseq_next = 1; last_site = 0;
    vnow = 1000000000ull;
    wall_off = 0;
    rng_clock = S->seed ^ 0xC10C5EEDull;
    if (!S->tick) S->tick = 1000;
    S->steps = S->switches = S->forced = S->preempt_in_op = 0;
    S->loghash = S->ilhash = 0x1234567;
    S->n_trace = 0; S->now_seq = 0; S->spawned = 0;
    S->status = RS_RUNNING;
    nthreads = 1;
    init_thread(0);
    self = 0; current = 0;
    active = 1;
}
EXPORT void rt_end(void) {
    S->vtime = vnow;
    active = 0;
    self = -1;
}
EXPORT uint64_t rt_seq(void) { return ++S->now_seq; }
EXPORT int rt_self(void) { return self; }
EXPORT void rt_op(int in) { if (self >= 0) T[self].in_op = in; }
EXPORT void rt_gate_wait(void) {
    if (self < 0) return;
    T[self].st = T_GATE;
    block_here((uintptr_t)__builtin_return_address(0), 0);
}
EXPORT void rt_gate_open(void) {
    for (int i = 0; i < nthreads; i++) if (T[i].st == T_GATE) T[i].st = T_RUNNABLE;
}
// number of threads parked at the gate
EXPORT int rt_gate_count(void) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) n += T[i].st == T_GATE;
    return n;
}
EXPORT void rt_yield(void) { point((uintptr_t)__builtin_return_address(0), 5, 1); }
EXPORT void rt_fault(int kind) { S->fault_fired[kind]++; }
EXPORT void rt_logmix(uint64_t v) { mix(&S->loghash, v); }

// ------------------------------------------------------------------ threads
static void *(*real_dlsym_fn(const char *n)) (void) { return (void *(*)(void))dlsym(RTLD_NEXT, n); }

static void thread_exit_key(void *v) {
    (void)v;
    if (self < 0) return;
    int me = self;
    T[me].st = T_DONE;
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == T_JOIN && T[i].jointarget == me) T[i].st = T_RUNNABLE;
    block_here((uintptr_t)&thread_exit_key, 1);
    self = -1;
}

static void *thread_main(void *p) {
    struct th *t = p;
    self = (int)(t - T);
    wait_go(t);
    pthread_setspecific(exit_key, (void *)1);
    return t->fn(t->arg);
}

EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = (void *)real_dlsym_fn("pthread_create");
    if (self < 0 || !active) return real(pt, a, fn, arg);
    uintptr_t site = (uintptr_t)__builtin_return_address(0);
    int t = -1;
    if (nthreads < MAX_THREADS) t = nthreads;
    else for (int i = 0; i < MAX_THREADS; i++) if (T[i].st == T_DONE && T[i].pt_known == 2) { t = i; break; }
    if (t < 0) return EAGAIN;
    init_thread(t);
    T[t].fn = fn; T[t].arg = arg;
    int r = real(&T[t].pt, a, thread_main, &T[t]);
    if (r) { T[t].st = T_FREE; return r; }
    T[t].pt_known = 1;
    *pt = T[t].pt;
    if (t == nthreads) nthreads++;
    S->spawned++;
    point(site, 3, 0);
    return 0;
}

EXPORT int pthread_join(pthread_t pt, void **ret) {
    static int (*real)(pthread_t, void **);
    if (!real) real = (void *)real_dlsym_fn("pthread_join");
    if (self >= 0 && active) {
        for (int i = 0; i < nthreads; i++)
            if (T[i].pt_known == 1 && pthread_equal(T[i].pt, pt)) {
                while (T[i].st != T_DONE) {
                    T[self].st = T_JOIN;
                    T[self].jointarget = i;
                    block_here((uintptr_t)__builtin_return_address(0), 0);
                }
                T[i].pt_known = 2;
                break;
            }
    }
    return real(pt, ret);
}

EXPORT int sched_yield(void) {
    if (self >= 0 && active) { point((uintptr_t)__builtin_return_address(0), 5, 1); return 0; }
    return (int)ret_errno(RAW(SYS_sched_yield));
}

static void vsleep(uint64_t until, uintptr_t site) {
    T[self].st = T_SLEEP; T[self].deadline = until;
    block_here(site, 0);
}
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
    if (self >= 0 && active) { vsleep(vnow + ts_ns(a), (uintptr_t)__builtin_return_address(0)); return 0; }
    return (int)ret_errno(RAW(SYS_nanosleep, a, b));
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (self >= 0 && active) {
        vsleep((fl & TIMER_ABSTIME) ? ts_ns(a) : vnow + ts_ns(a), (uintptr_t)__builtin_return_address(0));
        return 0;
    }
    return (int)-RAW(SYS_clock_nanosleep, c, fl, a, b);
}
EXPORT int usleep(useconds_t u) {
    struct timespec t = { u / 1000000, (long)(u % 1000000) * 1000 };
    return nanosleep(&t, 0);
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
    if (self >= 0 && active) {
        pass_time();
        if (S->tick > 1000) S->fault_fired[FK_SLOWCLOCK]++;
        if (S->p_jump && (splitmix(&rng_clock) & 3) == 0) jump_clock();
        int wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
        uint64_t v = vnow + (wall ? 1700000000ull * 1000000000ull + (uint64_t)wall_off : 0);
        t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
        return 0;
    }
    return (int)ret_errno(RAW(SYS_clock_gettime, c, t));
}

EXPORT int gettimeofday(struct timeval *t, void *z) {
    (void)z;
    struct timespec u;
    clock_gettime(CLOCK_REALTIME, &u);
    if (t) { t->tv_sec = u.tv_sec; t->tv_usec = u.tv_nsec / 1000; }
    return 0;
}
EXPORT time_t time(time_t *t) {
    struct timespec u;
    clock_gettime(CLOCK_REALTIME, &u);
    if (t) *t = u.tv_sec;
    return u.tv_sec;
}

// ------------------------------------------------------------------ futex
static long vfutex_wait(uint32_t *addr, uint32_t expect, int has_to, uint64_t deadline, uint32_t mask, uintptr_t site) {
    point(site, 1, 0);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != expect) return -EAGAIN;
    if (S->p_spurious && rnd16(&rng_fault) < S->p_spurious) { S->fault_fired[FK_SPURIOUS]++; return -EINTR; }
    struct th *t = &T[self];
    t->st = T_FUTEX; t->waitaddr = (uintptr_t)addr; t->waitmask = mask; t->reason = 0;
    t->timed = has_to; t->deadline = deadline; t->waitseq = waitseq_next++;
    block_here(site, 0);
    return t->reason == 1 ? -ETIMEDOUT : 0;
}
static long vfutex_wake(uint32_t *addr, int n, uint32_t mask, uintptr_t site) {
    point(site, 2, 0);
    long woken = 0;
    while (woken < n) {
        int c[MAX_THREADS], k = 0;
        for (int i = 0; i < nthreads; i++)
            if (T[i].st == T_FUTEX && T[i].waitaddr == (uintptr_t)addr && (T[i].waitmask & mask)) c[k++] = i;
        if (!k) break;
        int b = 0;
        for (int i = 1; i < k; i++) if (T[c[i]].waitseq < T[c[b]].waitseq) b = i;
        if (k > 1 && n < k && S->p_wakeorder && rnd16(&rng_fault) < S->p_wakeorder) {
            int o = (int)rndn(&rng_fault, (uint32_t)k);
            if (o != b) { S->fault_fired[FK_WAKEORDER]++; b = o; }
        }
        T[c[b]].st = T_RUNNABLE; T[c[b]].reason = 0;
        woken++;
    }
    // threads outside the simulation (none in practice)
    RAW(SYS_futex, addr, FUTEX_WAKE_PRIVATE, n, 0, 0, 0);
    return woken;
}

static void fill_entropy(void *buf, size_t n);

EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (self >= 0 && active) {
        uintptr_t site = (uintptr_t)__builtin_return_address(0);
        if (n == SYS_futex) {
            int op = (int)b & FUTEX_CMD_MASK;
            switch (op) {
            case FUTEX_WAIT: {
                const struct timespec *ts = (const struct timespec *)d;
                return ret_errno(vfutex_wait((uint32_t *)a, (uint32_t)c, ts != 0, ts ? vnow + ts_ns(ts) : 0, ~0u, site));
            }
            case FUTEX_WAIT_BITSET: {
                const struct timespec *ts = (const struct timespec *)d;
                uint64_t dl = ts ? ts_ns(ts) : 0;
                if (ts && (b & FUTEX_CLOCK_REALTIME)) dl -= 1700000000ull * 1000000000ull;
                return ret_errno(vfutex_wait((uint32_t *)a, (uint32_t)c, ts != 0, dl, (uint32_t)f, site));
            }
            case FUTEX_WAKE: return vfutex_wake((uint32_t *)a, (int)c, ~0u, site);
            case FUTEX_WAKE_BITSET: return vfutex_wake((uint32_t *)a, (int)c, (uint32_t)f, site);
            default: break;
            }
        }
        if (n == SYS_getrandom) { fill_entropy((void *)a, (size_t)b); return (long)b; }
        if (n == SYS_sched_yield) { point(site, 5, 1); return 0; }
        if (n == SYS_statx && S->io_enabled) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------------ entropy and the ThreadRng seam
static void fill_entropy(void *buf, size_t n) {
    uint8_t *p = buf;
    S->entropy_bytes += n;
    while (n) {
        uint64_t v = splitmix(&T[self].ent);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k; n -= k;
    }
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (self >= 0 && active) { fill_entropy(buf, n); return (ssize_t)n; }
    return (ssize_t)ret_errno(RAW(SYS_getrandom, buf, n, fl));
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }

// The random source behind rand::thread_rng() (vendor/rand).
EXPORT uint64_t sim_rand_u64(int bits) {
    static uint64_t outside = 42;
    if (self < 0 || !active) return splitmix(&outside);
    S->rng_draws++;
    uint64_t v = splitmix(&T[self].rng);
    if (S->p_rng_extreme && rnd16(&T[self].rng) < S->p_rng_extreme) {
        S->fault_fired[FK_RNG_EXTREME]++;
        static const uint64_t ex[8] = { 0, ~0ull, 0x0000000100000001ull, 0xFFFFFFFEFFFFFFFEull, 0x8000000080000000ull,
                                        0x7FFFFFFF7FFFFFFFull, 0xFFFFFF00FFFFFF00ull, 0x000001FF000001FFull };
        uint32_t m = S->rng_mode;   // 0: any; otherwise mostly one extreme
        v = ex[m && m <= 8 ? m - 1 : (v >> 13) & 7];
    }
    (void)bits;
    return v;
}

// ------------------------------------------------------------------ in-memory file system
#define VFD_BASE 100000
#define MAX_VFD 64
static struct { int used, file, readable, writable, append; uint64_t pos; } V[MAX_VFD];
static int sim_io(void) { return active && self >= 0 && S->io_enabled; }

static void iolog(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (S->iolog_len < IOLOG_CAP - 200) {
        int n = vsnprintf(S->iolog + S->iolog_len, 200, fmt, ap);
        if (n > 0) S->iolog_len += (uint32_t)(n < 199 ? n : 199);
    }
    va_end(ap);
}

static void norm(const char *path, char *out) {
    size_t o = 0;
    if (path[0] != '/') { memcpy(out, "/cwd", 4); o = 4; }
    for (const char *p = path; *p;) {   // piece by piece, without ".", ".." and repeated slashes
        while (*p == '/') p++;
        size_t n = 0;
        while (p[n] && p[n] != '/') n++;
        if (n == 2 && p[0] == '.' && p[1] == '.') { while (o && out[--o] != '/') {} }
        else if (n && !(n == 1 && p[0] == '.')) {
            if (o < NAME_CAP - 1) out[o++] = '/';
            for (size_t k = 0; k < n && o < NAME_CAP - 1; k++) out[o++] = p[k];
        }
        p += n;
    }
    if (!o) out[o++] = '/';
    out[o] = 0;
}
static int find_file(const char *path) {
    char b[NAME_CAP];
    norm(path, b);
    for (int i = 0; i < MAX_FILES; i++) if (S->files[i].used && !strcmp(S->files[i].name, b)) return i;
    return -1;
}
#define IS_DIR (-2)
// A file's number, or that the path is a directory in which files are, or -1.
static int look_up(const char *path) {
    int i = find_file(path);
    if (i >= 0 || !path[0]) return i;
    char b[NAME_CAP];
    norm(path, b);
    size_t n = strlen(b);
    if (!strcmp(b, "/") || !strcmp(b, "/cwd")) return IS_DIR;
    for (int k = 0; k < MAX_FILES; k++) if (S->files[k].used && !strncmp(S->files[k].name, b, n) && S->files[k].name[n] == '/') return IS_DIR;
    return -1;
}
#define file_versions S->pad0
static int new_file(const char *path) {
    char b[NAME_CAP];
    norm(path, b);
    for (int i = 0; i < MAX_FILES; i++) {
        int open = 0;   // removed, but still open somewhere
        for (int k = 0; k < MAX_VFD; k++) if (V[k].used && V[k].file == i) open = 1;
        if (!S->files[i].used && !open) {
            struct simfile *f = &S->files[i];
            f->used = 1; f->is_dir = f->no_access = f->len = f->opened_w = f->read_bytes = f->removed = 0;
            f->n_hard = f->n_ext = f->n_stat = f->fdeliv_len = 0; f->version = ++file_versions;
            f->created = 1;
            strcpy(f->name, b);
            return i;
        }
    }
    return -1;
}
EXPORT int rt_file_put(const char *path, const uint8_t *d, size_t n) {
    int i = find_file(path);
    if (i < 0) i = new_file(path);
    if (i < 0 || n > FILE_CAP) return -1;
    memcpy(S->files[i].data, d, n);
    S->files[i].len = (uint32_t)n;
    S->files[i].created = 0;
    S->files[i].version = ++file_versions;
    return i;
}
EXPORT int rt_file_remove(const char *path) { int i = find_file(path); if (i >= 0) S->files[i].used = 0; return i; }
EXPORT int rt_file_find(const char *path) { return find_file(path); }
// What a new process finds: the files, and nothing else.
EXPORT void rt_fs_reboot(void) {
    for (int i = 0; i < MAX_FILES; i++) { struct simfile *f = &S->files[i]; f->opened_w = f->read_bytes = f->n_hard = f->n_ext = f->n_stat = f->fdeliv_len = 0; }
    memset(V, 0, sizeof V);
    S->io_calls = S->io_reads = S->io_writes = S->io_opens = 0;
    S->deliv_len = S->out_len = S->err_len = S->iolog_len = 0;
    S->crash_io = 0;
}
EXPORT void rt_fs_reset(void) {
    for (int i = 0; i < MAX_FILES; i++) S->files[i].used = 0;
    file_versions = 0;
    rt_fs_reboot();
}

// One simulated I/O call: find a planned fault that applies to it. ops: bit mask of call types.
enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_STAT = 8, OP_SYNC = 16, OP_NAME = 32, OP_OTHER = 64, OP_STD = 128,
       OP_CREAT = 256, OP_OPENW = 512 };
static int kind_applies(int k, int op) {
    switch (k) {
    case FK_EINTR: return op & (OP_OPEN | OP_READ | OP_WRITE | OP_STD);
    case FK_SHORT: return op & (OP_READ | OP_WRITE | OP_STD);
    case FK_EIO: return op & (OP_OPEN | OP_READ | OP_WRITE | OP_SYNC | OP_NAME);
    case FK_ENOSPC: case FK_EDQUOT: return (op & (OP_WRITE | OP_SYNC)) || (op & OP_CREAT);
    case FK_EACCES: case FK_EMFILE: return op & OP_OPEN;
    case FK_ENOENT: return op & OP_OPEN;
    case FK_EISDIR: return op & (OP_READ | OP_OPENW);
    case FK_WRITE0: return op & OP_WRITE;
    case FK_CRASH: return 1;
    case FK_TORNCRASH: return op & OP_WRITE;
    case FK_SIZELIE: case FK_STATFAIL: return op & OP_STAT;
    case FK_EXT_TRUNC: case FK_EXT_APPEND: case FK_EXT_FLIP: return op & OP_READ;
    case FK_EROFS: return op & (OP_CREAT | OP_OPENW);
    case FK_ESTALE: return op & (OP_READ | OP_WRITE);
    case FK_ERRNO: return op & (OP_OPEN | OP_READ | OP_WRITE | OP_SYNC);
    case FK_STDFAIL: return op & OP_STD;
    default: return 0;
    }
}
static struct iofault *io_point(int op, uintptr_t site, const char *name) {
    point(site, 4, 0);
    uint32_t idx = S->io_calls++;
    if (op & OP_OPEN) S->io_opens++;
    if (op & OP_READ) S->io_reads++;
    if (op & OP_WRITE) S->io_writes++;
    iolog("%u:%s", idx, name);
    for (uint32_t i = 0; i < S->n_iofaults; i++)
        if (S->iof[i].idx == idx && kind_applies(S->iof[i].kind, op)) {
            S->fault_fired[S->iof[i].kind]++;
            iolog("!%u(%u) ", S->iof[i].kind, S->iof[i].arg);
            if (S->iof[i].kind == FK_CRASH) { S->crash_io = 1; S->vtime = vnow; S->status = RS_CRASHPOINT; RAW(SYS_exit_group, 137); }
            return &S->iof[i];
        }
    iolog(" ");
    return 0;
}
static int fault_errno(const struct iofault *x) {
    static const int other[] = { EAGAIN, ETIMEDOUT, ENOMEM, EPERM, EINVAL, ENXIO, EBUSY, EPIPE, ECONNRESET, EOVERFLOW, ENFILE, ELOOP, ENODEV, EREMOTEIO, ENOTCONN, EFBIG };
    static const int std[] = { EPIPE, ENOSPC, EIO, EBADF };
    switch (x->kind) {
    case FK_ERRNO: return other[x->arg % (sizeof other / sizeof *other)];
    case FK_STDFAIL: return std[x->arg % 4];
    case FK_EINTR: return EINTR; case FK_EIO: case FK_STATFAIL: return EIO; case FK_ENOSPC: return ENOSPC;
    case FK_EDQUOT: return EDQUOT; case FK_EACCES: return EACCES; case FK_EMFILE: return EMFILE;
    case FK_ENOENT: return ENOENT; case FK_EISDIR: return EISDIR; case FK_EROFS: return EROFS; case FK_ESTALE: return ESTALE;
    default: return 0;
    }
}

static int do_open(const char *path, int fl, uintptr_t site) {
    int f = find_file(path);
    int op = OP_OPEN;
    int w = (fl & O_ACCMODE) != O_RDONLY;
    if (w) op |= OP_OPENW;
    if (f < 0 && (fl & O_CREAT)) op |= OP_CREAT;
    struct iofault *x = io_point(op, site, w ? "openw" : "openr");
    if (x) { int e = fault_errno(x); if (e) { if (f >= 0 && e != EINTR) S->files[f].n_hard++; errno = e; return -1; } }
    f = look_up(path);
    if (f == IS_DIR) { errno = EISDIR; return -1; }
    if (f < 0) {
        if (!path[0] || !(fl & O_CREAT)) { errno = ENOENT; return -1; }
        if (S->disk_free == 0) { S->fault_fired[FK_DISKFULL]++; errno = ENOSPC; return -1; }
        f = new_file(path);
        if (f < 0) { errno = ENOSPC; return -1; }
    } else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (S->files[f].no_access) { errno = EACCES; return -1; }
    if (S->files[f].is_dir && w) { errno = EISDIR; return -1; }
    int v = -1;
    for (int i = 0; i < MAX_VFD; i++) if (!V[i].used) { v = i; break; }
    if (v < 0) { errno = EMFILE; return -1; }
    if (w) {
        S->files[f].opened_w++;
        if (fl & O_TRUNC) { if (S->disk_free >= 0) S->disk_free += S->files[f].len; S->files[f].len = 0; S->files[f].version = ++file_versions; }
    } else { S->deliv_len = 0; S->files[f].fdeliv_len = 0; }
    V[v].used = 1; V[v].file = f; V[v].pos = 0;
    V[v].readable = (fl & O_ACCMODE) != O_WRONLY; V[v].writable = w; V[v].append = !!(fl & O_APPEND);
    return VFD_BASE + v;
}
static int vfd(int fd) { return fd >= VFD_BASE && fd < VFD_BASE + MAX_VFD && V[fd - VFD_BASE].used ? fd - VFD_BASE : -1; }

static void ext_change(struct iofault *x, struct simfile *f) {
    if (x->kind == FK_EXT_TRUNC || x->kind == FK_EXT_APPEND || x->kind == FK_EXT_FLIP) { f->n_ext++; f->version = ++file_versions; }
    if (x->kind == FK_EXT_TRUNC) { if (x->arg < f->len) f->len = x->arg; }
    else if (x->kind == FK_EXT_APPEND) {
        uint32_t n = x->arg; if (n > f->len) n = f->len;
        if (f->len + n <= FILE_CAP) { memmove(f->data + f->len, f->data, n); f->len += n; }
    } else if (x->kind == FK_EXT_FLIP && f->len) f->data[x->arg % f->len] ^= (uint8_t)(1u << ((x->arg >> 8) & 7));
}

static ssize_t do_read(int v, void *buf, size_t n, int64_t at, uintptr_t site) {
    struct iofault *x = io_point(OP_READ, site, "read");
    struct simfile *f = &S->files[V[v].file];
    if (x) {
        int e = fault_errno(x);
        if (e) { if (e != EINTR) f->n_hard++; errno = e; return -1; }
        ext_change(x, f);
    }
    if (f->is_dir) { errno = EISDIR; return -1; }
    if (!V[v].readable) { errno = EBADF; return -1; }
    uint64_t pos = at >= 0 ? (uint64_t)at : V[v].pos;
    size_t k = pos < f->len ? f->len - pos : 0;
    if (k > n) k = n;
    if (x && x->kind == FK_SHORT && k > 1) { size_t lim = x->arg ? x->arg : 1; if (k > lim) k = lim; }
    memcpy(buf, f->data + pos, k);
    if (at < 0) V[v].pos += k;
    f->read_bytes += (uint32_t)k;
    if (S->deliv_len + k <= DELIV_CAP) { memcpy(S->deliv + S->deliv_len, buf, k); S->deliv_len += (uint32_t)k; }
    if (f->fdeliv_len + k <= FDELIV_CAP) { memcpy(f->fdeliv + f->fdeliv_len, buf, k); f->fdeliv_len += (uint32_t)k; }
    return (ssize_t)k;
}
static ssize_t do_write(int v, const void *buf, size_t n, int64_t at, uintptr_t site) {
    struct iofault *x = io_point(OP_WRITE, site, "write");
    struct simfile *f = &S->files[V[v].file];
    if (x) {
        int e = fault_errno(x);
        if (e) { errno = e; return -1; }
        if (x->kind == FK_WRITE0) return 0;
    }
    if (!V[v].writable) { errno = EBADF; return -1; }
    size_t k = n;
    if (x && (x->kind == FK_SHORT || x->kind == FK_TORNCRASH) && k > 1) {
        size_t lim = x->arg ? x->arg : (x->kind == FK_SHORT ? 1 : 0);
        if (k > lim) k = lim;
    }
    uint64_t pos = at >= 0 ? (uint64_t)at : V[v].append ? f->len : V[v].pos;
    if (pos > FILE_CAP || k > FILE_CAP - pos) { errno = EFBIG; return -1; }
    if (S->disk_free >= 0 && n) {
        uint64_t grow = pos + k > f->len ? pos + k - f->len : 0;
        if (grow > (uint64_t)S->disk_free) {
            S->fault_fired[FK_DISKFULL]++;
            uint64_t cut = grow - (uint64_t)S->disk_free;
            if (cut >= k) { errno = ENOSPC; return -1; }
            k -= cut; grow = (uint64_t)S->disk_free;
        }
        S->disk_free -= (int64_t)grow;
    }
    if (pos > f->len) memset(f->data + f->len, 0, pos - f->len);
    memcpy(f->data + pos, buf, k);
    if (pos + k > f->len) f->len = (uint32_t)(pos + k);
    f->version = ++file_versions;
    if (at < 0) V[v].pos = pos + k;
    if (x && x->kind == FK_TORNCRASH) { S->crash_io = 1; S->vtime = vnow; S->status = RS_CRASHPOINT; RAW(SYS_exit_group, 137); }
    return (ssize_t)k;
}

static int open_va(const char *path, int fl, mode_t m, uintptr_t site) {
    if (sim_io()) return do_open(path, fl, site);
    if (active && self >= 0) S->real_passthrough++;
    return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, path, fl, m));
}
#define VA_MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *path, int fl, ...) { VA_MODE(fl) return open_va(path, fl, m, (uintptr_t)__builtin_return_address(0)); }
EXPORT int open64(const char *path, int fl, ...) { VA_MODE(fl) return open_va(path, fl, m, (uintptr_t)__builtin_return_address(0)); }
static int openat_va(int d, const char *path, int fl, mode_t m, uintptr_t site) {
    if (sim_io()) return do_open(path, fl, site);
    return (int)ret_errno(RAW(SYS_openat, d, path, fl, m));
}
EXPORT int openat(int d, const char *path, int fl, ...) { VA_MODE(fl) return openat_va(d, path, fl, m, (uintptr_t)__builtin_return_address(0)); }
EXPORT int openat64(int d, const char *path, int fl, ...) { VA_MODE(fl) return openat_va(d, path, fl, m, (uintptr_t)__builtin_return_address(0)); }
EXPORT int creat(const char *path, mode_t m) { return open_va(path, O_CREAT | O_WRONLY | O_TRUNC, m, (uintptr_t)__builtin_return_address(0)); }
EXPORT int creat64(const char *path, mode_t m) { return open_va(path, O_CREAT | O_WRONLY | O_TRUNC, m, (uintptr_t)__builtin_return_address(0)); }

EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (sim_io()) { int v = vfd(fd); if (v >= 0) return do_read(v, b, n, -1, (uintptr_t)__builtin_return_address(0)); }
    return (ssize_t)ret_errno(RAW(SYS_read, fd, b, n));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (sim_io()) { int v = vfd(fd); if (v >= 0) return do_read(v, b, n, o, (uintptr_t)__builtin_return_address(0)); }
    return (ssize_t)ret_errno(RAW(SYS_pread64, fd, b, n, o));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *iv, int c) {
    if (sim_io()) {
        int v = vfd(fd);
        if (v >= 0) { for (int i = 0; i < c; i++) if (iv[i].iov_len) return do_read(v, iv[i].iov_base, iv[i].iov_len, -1, (uintptr_t)__builtin_return_address(0)); return 0; }
    }
    return (ssize_t)ret_errno(RAW(SYS_readv, fd, iv, c));
}
static ssize_t std_write(int fd, const void *b, size_t n, uintptr_t site) {
    struct iofault *x = io_point(OP_STD, site, fd == 1 ? "out" : "err");
    if (x) { int e = fault_errno(x); if (e) { errno = e; return -1; } }
    size_t k = n;
    if (x && x->kind == FK_SHORT && k > 1) { size_t lim = x->arg ? x->arg : 1; if (k > lim) k = lim; }
    char *dst = fd == 1 ? S->out : S->err;
    uint32_t *len = fd == 1 ? &S->out_len : &S->err_len;
    size_t room = 65536 - *len, c = k < room ? k : room;
    memcpy(dst + *len, b, c);
    *len += (uint32_t)c;
    return (ssize_t)k;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (sim_io()) {
        int v = vfd(fd);
        if (v >= 0) return do_write(v, b, n, -1, (uintptr_t)__builtin_return_address(0));
        if (fd == 1 || fd == 2) return std_write(fd, b, n, (uintptr_t)__builtin_return_address(0));
    }
    return (ssize_t)ret_errno(RAW(SYS_write, fd, b, n));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (sim_io()) { int v = vfd(fd); if (v >= 0) return do_write(v, b, n, o, (uintptr_t)__builtin_return_address(0)); }
    return (ssize_t)ret_errno(RAW(SYS_pwrite64, fd, b, n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *iv, int c) {
    if (sim_io()) {
        int v = vfd(fd);
        if (v >= 0 || fd == 1 || fd == 2) {
            // gather, then one call
            uint8_t *tmp = malloc(FILE_CAP);
            size_t n = 0;
            for (int i = 0; tmp && i < c && n + iv[i].iov_len <= FILE_CAP; i++) { memcpy(tmp + n, iv[i].iov_base, iv[i].iov_len); n += iv[i].iov_len; }
            uintptr_t site = (uintptr_t)__builtin_return_address(0);
            ssize_t done = v >= 0 ? do_write(v, tmp, n, -1, site) : std_write(fd, tmp, n, site);
            int e = errno;
            free(tmp);
            errno = e;
            return done;
        }
    }
    return (ssize_t)ret_errno(RAW(SYS_writev, fd, iv, c));
}
EXPORT int close(int fd) {
    if (active && self >= 0) { int v = vfd(fd); if (v >= 0) { io_point(OP_OTHER, (uintptr_t)__builtin_return_address(0), "close"); V[v].used = 0; return 0; } }
    return (int)ret_errno(RAW(SYS_close, fd));
}
static int do_dup(int v) {
    for (int i = 0; i < MAX_VFD; i++) if (!V[i].used) { V[i] = V[v]; return VFD_BASE + i; }
    errno = EMFILE;
    return -1;
}
static int do_fcntl(int fd, int cmd, long arg) {
    if (active && self >= 0) {
        int v = vfd(fd);
        if (v >= 0) switch (cmd) {
            case F_GETFD: return FD_CLOEXEC;
            case F_GETFL: return (V[v].append ? O_APPEND : 0) | (V[v].writable ? (V[v].readable ? O_RDWR : O_WRONLY) : O_RDONLY);
            case F_DUPFD: case F_DUPFD_CLOEXEC: return do_dup(v);
            default: return 0;
        }
    }
    return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) { if (active && self >= 0) { int v = vfd(fd); if (v >= 0) return do_dup(v); } return (int)ret_errno(RAW(SYS_dup, fd)); }
EXPORT int flock(int fd, int op) { if (active && self >= 0 && vfd(fd) >= 0) return 0; return (int)ret_errno(RAW(SYS_flock, fd, op)); }
static off64_t do_lseek(int v, off64_t o, int wh) {
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)V[v].pos : (int64_t)S->files[V[v].file].len;
    if (base + o < 0) { errno = EINVAL; return -1; }
    V[v].pos = (uint64_t)(base + o);
    return (off64_t)V[v].pos;
}
EXPORT off64_t lseek64(int fd, off64_t o, int wh) {
    if (sim_io()) { int v = vfd(fd); if (v >= 0) { io_point(OP_OTHER, (uintptr_t)__builtin_return_address(0), "seek"); return do_lseek(v, o, wh); } }
    return ret_errno(RAW(SYS_lseek, fd, o, wh));
}
EXPORT off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
static int do_trunc(int v, off64_t n) {
    struct simfile *f = &S->files[V[v].file];
    struct iofault *x = io_point(OP_SYNC, 0, "trunc");
    if (x) { int e = fault_errno(x); if (e) { errno = e; return -1; } }
    if (n < 0 || n > FILE_CAP) { errno = EINVAL; return -1; }
    if ((uint32_t)n > f->len) memset(f->data + f->len, 0, (size_t)n - f->len);
    f->len = (uint32_t)n;
    f->version = ++file_versions;
    return 0;
}
EXPORT int ftruncate64(int fd, off64_t n) { if (sim_io()) { int v = vfd(fd); if (v >= 0) return do_trunc(v, n); } return (int)ret_errno(RAW(SYS_ftruncate, fd, n)); }
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_sync(int fd, long nr, uintptr_t site) {
    if (sim_io()) {
        int v = vfd(fd);
        if (v >= 0) { struct iofault *x = io_point(OP_SYNC, site, "sync"); if (x) { int e = fault_errno(x); if (e) { errno = e; return -1; } } return 0; }
    }
    return (int)ret_errno(RAW(nr, fd));
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync, (uintptr_t)__builtin_return_address(0)); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync, (uintptr_t)__builtin_return_address(0)); }

static int name_op(uintptr_t site, const char *n) {
    struct iofault *x = io_point(OP_NAME, site, n);
    if (x) { int e = fault_errno(x); if (e) { errno = e; return -1; } }
    return 0;
}
EXPORT int rename(const char *a, const char *b) {
    if (sim_io()) {
        if (name_op((uintptr_t)__builtin_return_address(0), "rename")) return -1;
        int i = find_file(a), j = look_up(b);
        if (i < 0) { errno = ENOENT; return -1; }
        if (j == IS_DIR) { errno = EISDIR; return -1; }
        if (i == j) return 0;
        if (j >= 0) { S->files[j].used = 0; }
        char t[NAME_CAP]; norm(b, t); strcpy(S->files[i].name, t);
        if (j >= 0) S->files[i].created = S->files[j].created;
        return 0;
    }
    return (int)ret_errno(RAW(SYS_rename, a, b));
}
EXPORT int unlink(const char *a) {
    if (sim_io()) {
        if (name_op((uintptr_t)__builtin_return_address(0), "unlink")) return -1;
        int i = find_file(a);
        if (i < 0) { errno = ENOENT; return -1; }
        S->files[i].used = 0;
        return 0;
    }
    return (int)ret_errno(RAW(SYS_unlink, a));
}
EXPORT int unlinkat(int d, const char *a, int fl) { if (sim_io()) return unlink(a); return (int)ret_errno(RAW(SYS_unlinkat, d, a, fl)); }
EXPORT int mkdir(const char *a, mode_t m) {
    if (sim_io()) { int i = look_up(a); if (i != -1) { errno = EEXIST; return -1; } i = new_file(a); if (i < 0) { errno = ENOSPC; return -1; } S->files[i].is_dir = 1; return 0; }
    return (int)ret_errno(RAW(SYS_mkdir, a, m));
}
EXPORT int chmod(const char *a, mode_t m) { if (sim_io()) { if (look_up(a) == -1) { errno = ENOENT; return -1; } return 0; } return (int)ret_errno(RAW(SYS_chmod, a, m)); }
EXPORT int fchmodat(int d, const char *a, mode_t m, int fl) { if (sim_io()) return chmod(a, m); return (int)ret_errno(RAW(SYS_fchmodat, d, a, m, fl)); }
EXPORT int fchmod(int fd, mode_t m) { if (sim_io() && vfd(fd) >= 0) return 0; return (int)ret_errno(RAW(SYS_fchmod, fd, m)); }
EXPORT int futimens(int fd, const struct timespec *t) { if (sim_io() && vfd(fd) >= 0) return 0; return (int)ret_errno(RAW(SYS_utimensat, fd, 0, t, 0)); }
EXPORT int utimensat(int d, const char *a, const struct timespec *t, int fl) {
    if (sim_io()) { if (!a ? vfd(d) < 0 : find_file(a) < 0) { errno = ENOENT; return -1; } return 0; }
    return (int)ret_errno(RAW(SYS_utimensat, d, a, t, fl));
}
EXPORT int rmdir(const char *a) {
    if (sim_io()) {
        if (name_op((uintptr_t)__builtin_return_address(0), "rmdir")) return -1;
        int i = find_file(a);
        if (i < 0) { errno = ENOENT; return -1; }
        if (!S->files[i].is_dir) { errno = ENOTDIR; return -1; }
        S->files[i].used = 0;
        return 0;
    }
    return (int)ret_errno(RAW(SYS_rmdir, a));
}
// The simulated file system has no links, as some real ones.
EXPORT int linkat(int x, const char *a, int y, const char *b, int fl) { if (sim_io()) { errno = find_file(a) < 0 ? ENOENT : EPERM; return -1; } return (int)ret_errno(RAW(SYS_linkat, x, a, y, b, fl)); }
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int symlink(const char *a, const char *b) { if (sim_io()) { errno = EPERM; return -1; } return (int)ret_errno(RAW(SYS_symlink, a, b)); }
EXPORT ssize_t readlink(const char *a, char *b, size_t n) { if (sim_io()) { errno = find_file(a) < 0 ? ENOENT : EINVAL; return -1; } return (ssize_t)ret_errno(RAW(SYS_readlink, a, b, n)); }
EXPORT char *realpath(const char *a, char *out) {
    if (sim_io()) {
        char t[NAME_CAP];
        norm(a, t);
        if (look_up(a) == -1) { errno = ENOENT; return 0; }
        if (!out && !(out = malloc(PATH_MAX))) return 0;
        return strcpy(out, t);
    }
    static char *(*real)(const char *, char *);
    if (!real) real = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    return real(a, out);
}
EXPORT int access(const char *a, int m) { if (sim_io()) { if (look_up(a) == -1) { errno = ENOENT; return -1; } return 0; } return (int)ret_errno(RAW(SYS_access, a, m)); }

static int vstat(int f, uint64_t *size, uint32_t *mode, uintptr_t site) {
    struct iofault *x = io_point(OP_STAT, site, "stat");
    if (f < 0 && f != IS_DIR) { errno = ENOENT; return -1; }
    *size = f == IS_DIR ? 4096 : S->files[f].len;
    *mode = f == IS_DIR || S->files[f].is_dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    if (x) {
        if (f >= 0) S->files[f].n_stat++;
        if (x->kind == FK_STATFAIL) { errno = EIO; return -1; }
        if (x->kind == FK_SIZELIE) *size = x->arg;
    }
    return 0;
}
static int fill_stat(struct stat *st, int f, uintptr_t site) {
    uint64_t sz; uint32_t mode;
    if (vstat(f, &sz, &mode, site)) return -1;
    memset(st, 0, sizeof *st);
    st->st_mode = mode; st->st_size = (off_t)sz; st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = (ino_t)(f + 2); st->st_dev = 77;
    st->st_mtim.tv_sec = 1700000000; st->st_mtim.tv_nsec = f >= 0 ? S->files[f].version : 0;
    return 0;
}
EXPORT int fstat(int fd, struct stat *st) { if (sim_io()) { int v = vfd(fd); if (v >= 0) return fill_stat(st, V[v].file, (uintptr_t)__builtin_return_address(0)); } return (int)ret_errno(RAW(SYS_fstat, fd, st)); }
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) { if (sim_io()) return fill_stat(st, look_up(p), (uintptr_t)__builtin_return_address(0)); return (int)ret_errno(RAW(SYS_stat, p, st)); }
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) { if (sim_io()) return fill_stat(st, look_up(p), (uintptr_t)__builtin_return_address(0)); return (int)ret_errno(RAW(SYS_lstat, p, st)); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) {
    if (sim_io()) { int v = vfd(d); if (p && p[0]) return stat(p, st); if (v >= 0) return fill_stat(st, V[v].file, 0); }
    return (int)ret_errno(RAW(SYS_newfstatat, d, p, st, fl));
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
    if (sim_io()) {
        int f = -3;
        int v = vfd(d);
        if (p && p[0]) f = look_up(p); else if (v >= 0) f = V[v].file;
        if (f != -3) {
            uint64_t sz; uint32_t mode;
            if (vstat(f, &sz, &mode, (uintptr_t)__builtin_return_address(0))) return -1;
            memset(sx, 0, sizeof *sx);
            sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (uint16_t)mode; sx->stx_size = sz; sx->stx_nlink = 1;
            sx->stx_blksize = 4096; sx->stx_ino = (uint64_t)(f + 2);
            sx->stx_mtime.tv_sec = 1700000000; sx->stx_mtime.tv_nsec = f >= 0 ? S->files[f].version : 0;
            return 0;
        }
    }
    return (int)ret_errno(RAW(SYS_statx, d, p, fl, mask, sx));
}
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
    if (sim_io() && (vfd(a) >= 0 || vfd(b) >= 0)) { errno = ENOSYS; return -1; }
    return (ssize_t)ret_errno(RAW(SYS_copy_file_range, a, ao, b, bo, n, fl));
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    if (sim_io() && (vfd(a) >= 0 || vfd(b) >= 0)) { errno = EINVAL; return -1; }
    return (ssize_t)ret_errno(RAW(SYS_sendfile, a, b, o, n));
}
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }

// ------------------------------------------------------------------ instrumentation entry points
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef __int128 u128;
#define PT() point((uintptr_t)__builtin_return_address(0), 0, 0)
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(N, Ty)                                                                                                       \
    HOT Ty __tsan_atomic##N##_load(const volatile Ty *a, int mo) { (void)mo; PT(); return __atomic_load_n(a, SC); }          \
    HOT void __tsan_atomic##N##_store(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); __atomic_store_n(a, v, SC); }          \
    HOT Ty __tsan_atomic##N##_exchange(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_exchange_n(a, v, SC); } \
    HOT Ty __tsan_atomic##N##_fetch_add(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_add(a, v, SC); } \
    HOT Ty __tsan_atomic##N##_fetch_sub(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_sub(a, v, SC); } \
    HOT Ty __tsan_atomic##N##_fetch_and(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_and(a, v, SC); } \
    HOT Ty __tsan_atomic##N##_fetch_or(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_or(a, v, SC); }  \
    HOT Ty __tsan_atomic##N##_fetch_xor(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_xor(a, v, SC); } \
    HOT Ty __tsan_atomic##N##_fetch_nand(volatile Ty *a, Ty v, int mo) { (void)mo; PT(); return __atomic_fetch_nand(a, v, SC); } \
    HOT int __tsan_atomic##N##_compare_exchange_strong(volatile Ty *a, Ty *c, Ty v, int mo, int fmo) {                       \
        (void)mo; (void)fmo; PT(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }                                 \
    HOT int __tsan_atomic##N##_compare_exchange_weak(volatile Ty *a, Ty *c, Ty v, int mo, int fmo) {                         \
        (void)mo; (void)fmo; PT(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }                                 \
    HOT Ty __tsan_atomic##N##_compare_exchange_val(volatile Ty *a, Ty c, Ty v, int mo, int fmo) {                            \
        (void)mo; (void)fmo; PT(); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)
HOT u128 __tsan_atomic128_load(const volatile u128 *a, int mo) { (void)mo; PT(); return *a; }
HOT void __tsan_atomic128_store(volatile u128 *a, u128 v, int mo) { (void)mo; PT(); *a = v; }
HOT u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int mo, int fmo) {
    (void)mo; (void)fmo; PT(); u128 o = *a; if (o == c) *a = v; return o; }
HOT void __tsan_atomic_thread_fence(int mo) { (void)mo; PT(); __atomic_thread_fence(SC); }
HOT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; point((uintptr_t)__builtin_return_address(0), 6, 0); }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
EXPORT void __tsan_vptr_read(void **a) { (void)a; }
#define RW(N) EXPORT void __tsan_read##N(void *p) { (void)p; } EXPORT void __tsan_write##N(void *p) { (void)p; } \
    EXPORT void __tsan_unaligned_read##N(void *p) { (void)p; } EXPORT void __tsan_unaligned_write##N(void *p) { (void)p; } \
    EXPORT void __tsan_read_write##N(void *p) { (void)p; } EXPORT void __tsan_unaligned_read_write##N(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; }
EXPORT void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; }
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }

// ------------------------------------------------------------------ pre-load mode: simulate a whole process's I/O and entropy
static void preload_fini(void) {
    if (S && active) { S->vtime = vnow; if (S->status == RS_RUNNING) S->status = RS_OK; }
}
__attribute__((constructor)) static void preload_init(void) {
    const char *p = getenv("SIMRT_SHM");
    if (!p) return;
    if (!rt_shm_open(p, 0)) RAW(SYS_exit_group, 86);
    memset(V, 0, sizeof V);
    rt_begin();
    atexit(preload_fini);
}
