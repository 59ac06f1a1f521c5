// Deterministic scheduler underneath the instrumented Rust code.
//
// Every crate of the harness is compiled with rustc's ThreadSanitizer pass (atomics only), but no
// sanitizer runtime is linked: this file provides the __tsan_atomic* entry points instead. Each one is
// a scheduling point. Caller threads are real OS threads (std's locks, poisoning and unwinding are the
// real ones), but exactly one runs at any moment; who runs next is decided here, from one PRNG or from
// a recorded list of decisions. Futex waits and wakes (std's Mutex/RwLock/Condvar/park slow paths reach
// the kernel through libc's `syscall`, which this file interposes) are modelled, so blocking, waking and
// deadlock are decisions of the simulator as well.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXT 8
enum { IDLE, READY, BLK_FUTEX, BLK_KEY, DONE };
enum { K_ATOMIC = 0, K_OP = 1, K_BLOCK = 2, K_DONE = 3, K_YIELD = 4, K_START = 5, K_HARNESS = 6, K_SPURIOUS = 7 };
enum { S_REPLAY = 0, S_RANDOM = 1, S_PCT = 2, S_TARGET = 3, S_OPS = 4, S_SERIAL = 5 };
enum { F_DEADLOCK = 1, F_STEPCAP = 2 };

struct thr {
    volatile uint32_t go;
    int st;
    uintptr_t key;
    uint32_t bitset;
    int timed, timed_out;
    uint32_t op, step;
    uint64_t prio;
    uint32_t runlen;
};
static struct thr th[MAXT];
static volatile uint32_t main_go;
static uint32_t phase_mask;
static __thread int self = -1;
static __thread int sut = 0;

struct dec { uint8_t t, kind, to, pad; uint32_t op, step; };
#define MAXDEC (1 << 17)
static struct dec trace[MAXDEC];
static uint32_t ntrace;
static uint32_t trace_overflow;

// replay table
#define HSZ (1 << 15)
static struct dec rep[HSZ];
static uint8_t rep_used[HSZ];

// configuration of this run
static int strat;
static uint64_t rng_s;
static uint32_t p_switch;   // of 2^16, in-op
static uint32_t p_op;       // of 2^16, at op boundaries
static uint32_t p_spur;     // of 2^16, spurious futex wakeups
static uint64_t total, cap;
#define MAXCP 16
static uint64_t cps[MAXCP]; static int ncp;
struct target { uint32_t t, op, step; };
static struct target targets[64]; static int ntg;
static uint64_t low_prio;
// counters (never reset by the scheduler; the harness reads and clears them)
uint64_t ds_c_points, ds_c_switch, ds_c_preempt, ds_c_block, ds_c_spurious, ds_c_yield, ds_c_force;
static uint64_t hash_sched;

extern void ds_on_fatal(int code);

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void park(volatile uint32_t *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void unpark(volatile uint32_t *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static uint64_t rnd(void) {
    uint64_t z = (rng_s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static int nready(int except) {
    int n = 0;
    for (int i = 0; i < MAXT; i++) n += (i != except && th[i].st == READY);
    return n;
}
static int pick_random(int except) {
    int n = nready(except);
    if (!n) return -1;
    int k = (int)(rnd() % (uint64_t)n);
    for (int i = 0; i < MAXT; i++)
        if (i != except && th[i].st == READY && k-- == 0) return i;
    return -1;
}
static int pick_prio(int except) {
    int b = -1;
    for (int i = 0; i < MAXT; i++)
        if (i != except && th[i].st == READY && (b < 0 || th[i].prio > th[b].prio)) b = i;
    return b;
}
static int pick_first(int except) {
    for (int i = 0; i < MAXT; i++)
        if (i != except && th[i].st == READY) return i;
    return -1;
}
static uint32_t hkey(uint32_t t, uint32_t op, uint32_t step, uint32_t kind) {
    uint64_t h = ((uint64_t)op << 32) ^ ((uint64_t)step << 8) ^ (t << 4) ^ kind;
    h *= 0x9E3779B97F4A7C15ull;
    return (uint32_t)(h >> 40) & (HSZ - 1);
}
// atomic-ish kinds share one name in a replay file: what matters is the point, not why it was taken
static uint32_t canon_kind(uint32_t k) { return k == K_SPURIOUS ? 1 : (k == K_BLOCK || k == K_DONE || k == K_START) ? 2 : 0; }
static int rep_lookup(int t, uint32_t op, uint32_t step, uint32_t kind) {
    uint32_t i = hkey(t, op, step, canon_kind(kind));
    while (rep_used[i]) {
        if (rep[i].t == t && rep[i].op == op && rep[i].step == step && rep[i].kind == canon_kind(kind)) return rep[i].to;
        i = (i + 1) & (HSZ - 1);
    }
    return -1;
}
void ds_replay_clear(void) { memset(rep_used, 0, sizeof rep_used); }
void ds_replay_add(uint32_t t, uint32_t op, uint32_t step, uint32_t kind, uint32_t to) {
    uint32_t i = hkey(t, op, step, canon_kind(kind));
    while (rep_used[i]) i = (i + 1) & (HSZ - 1);
    rep_used[i] = 1;
    rep[i] = (struct dec){(uint8_t)t, (uint8_t)canon_kind(kind), (uint8_t)to, 0, op, step};
}
static void record(int t, uint32_t kind, int to) {
    uint64_t h = hash_sched ^ ((uint64_t)t << 56 | (uint64_t)to << 48 | (uint64_t)th[t].op << 24 | (uint64_t)kind << 20 | th[t].step);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33; hash_sched = h;
    if (ntrace < MAXDEC) trace[ntrace++] = (struct dec){(uint8_t)t, (uint8_t)kind, (uint8_t)to, 0, th[t].op, th[t].step};
    else trace_overflow = 1;
}
static void switch_to(int n) {
    int me = self;
    ds_c_switch++;
    th[n].runlen = 0;
    unpark(&th[n].go);
    park(&th[me].go);
}
// choose who runs after `self` can no longer run (blocked or done); -1 if nobody
static int choose_after(int kind) {
    int n;
    if (strat == S_REPLAY) {
        n = rep_lookup(self, th[self].op, th[self].step, kind);
        if (n < 0 || n >= MAXT || th[n].st != READY || n == self) n = pick_first(self);
    } else if (strat == S_PCT) n = pick_prio(self);
    else if (strat == S_SERIAL) n = pick_first(self);
    else n = pick_random(self);
    if (n >= 0) record(self, kind, n);
    return n;
}
#define RUNMAX 60000
static void point(uint32_t kind) {
    struct thr *t = &th[self];
    t->step++;
    // steps of one operation without a switch: so many that only somebody who spins gets there
    t->runlen = kind == K_OP ? 0 : t->runlen + 1;
    total++;
    ds_c_points++;
    if (total > cap) ds_on_fatal(F_STEPCAP);
    int n = -1;
    if (strat == S_REPLAY) {
        n = rep_lookup(self, t->op, t->step, kind);
        if (n >= 0 && (n >= MAXT || th[n].st != READY || n == self)) n = -1;
        if (n < 0 && (kind == K_YIELD || t->runlen > RUNMAX)) n = pick_first(self);
    } else if (kind == K_YIELD || t->runlen > RUNMAX) {
        if (t->runlen > RUNMAX) ds_c_force++;
        if (strat == S_PCT) { t->prio = --low_prio; n = pick_prio(-1); if (n == self) n = -1; }
        else n = pick_random(self);
    } else switch (strat) {
        case S_RANDOM: {
            uint32_t p = (kind == K_OP) ? p_op : p_switch;
            if ((rnd() & 0xffff) < p) n = pick_random(self);
            break;
        }
        case S_PCT: {
            for (int i = 0; i < ncp; i++) if (cps[i] == total) t->prio = --low_prio;
            n = pick_prio(-1);
            if (n == self) n = -1;
            break;
        }
        case S_TARGET: case S_OPS: {
            for (int i = 0; i < ntg; i++)
                if (targets[i].t == (uint32_t)self && targets[i].op == t->op && targets[i].step == t->step) n = pick_random(self);
            if (n < 0 && kind == K_OP && (rnd() & 0xffff) < p_op) n = pick_random(self);
            break;
        }
        default: break;
    }
    if (n >= 0) {
        if (kind == K_ATOMIC || kind == K_HARNESS) ds_c_preempt++;
        record(self, kind, n);
        switch_to(n);
    }
}
static void block_self(int st, uint32_t kind) {
    ds_c_block++;
    th[self].st = st;
    int n = choose_after(kind);
    if (n < 0) {
        // nobody can run: a timed waiter times out, otherwise this is a deadlock
        for (int i = 0; i < MAXT; i++)
            if (th[i].st == BLK_FUTEX && th[i].timed) { th[i].st = READY; th[i].timed_out = 1; n = i; break; }
        if (n < 0) ds_on_fatal(F_DEADLOCK);
        if (n == self) return;
    }
    switch_to(n);
}
static int wake_key(int st, uintptr_t key, uint32_t bits, int count) {
    int w = 0;
    for (int i = 0; i < MAXT && w < count; i++)
        if (th[i].st == st && th[i].key == key && (st != BLK_FUTEX || (th[i].bitset & bits))) { th[i].st = READY; w++; }
    return w;
}

// ---- API for the harness ------------------------------------------------------------------------
void ds_enter(void) { sut++; }
void ds_leave(void) { sut--; }
int ds_suspend(void) { int s = sut; sut = 0; return s; }
void ds_resume(int s) { sut = s; }
int ds_self(void) { return self; }
void ds_op(uint32_t op) { th[self].op = op; th[self].step = 0; }
// explicit scheduling point (op boundary, or inside a simulated GPU call)
void ds_point(int kind) { if (self >= 0) point((uint32_t)kind); }
void ds_block(uintptr_t key) { th[self].step++; th[self].key = key; block_self(BLK_KEY, K_BLOCK); }
int ds_wake(uintptr_t key) { return wake_key(BLK_KEY, key, 0, MAXT); }
uint64_t ds_total(void) { return total; }
uint64_t ds_hash(void) { return hash_sched; }
void ds_thread_init(int t) { self = t; sut = 0; }
void ds_wait_turn(void) { park(&th[self].go); }
int ds_others_unfinished(void) { int n = 0; for (int i = 0; i < MAXT; i++) n += (i != self && th[i].st != IDLE && th[i].st != DONE); return n; }
// called by a pool thread when its part of the phase is finished
void ds_done(void) {
    th[self].st = DONE;
    th[self].step++;
    int n = choose_after(K_DONE);
    if (n >= 0) { th[n].runlen = 0; ds_c_switch++; unpark(&th[n].go); return; }
    for (int i = 0; i < MAXT; i++)
        if (th[i].st == BLK_FUTEX || th[i].st == BLK_KEY) ds_on_fatal(F_DEADLOCK);
    unpark(&main_go);
}
void ds_run_begin(int strategy, uint64_t seed, uint32_t psw, uint32_t pop, uint32_t pspur, uint64_t stepcap) {
    strat = strategy; rng_s = seed; p_switch = psw; p_op = pop; p_spur = pspur; cap = stepcap;
    total = 0; ntrace = 0; trace_overflow = 0; ncp = 0; ntg = 0; hash_sched = 0x1234567; low_prio = 1000;
    for (int i = 0; i < MAXT; i++) th[i].prio = 2000 + (rnd() % 1000000);
}
void ds_add_cp(uint64_t at) { if (ncp < MAXCP) cps[ncp++] = at; }
void ds_add_target(uint32_t t, uint32_t op, uint32_t step) { if (ntg < 64) targets[ntg++] = (struct target){t, op, step}; }
// run one phase with the threads in `mask`; returns when all are done
void ds_phase(uint32_t mask, uint32_t phase) {
    int first = -1;
    phase_mask = mask;
    for (int i = 0; i < MAXT; i++) {
        th[i].st = (mask >> i & 1) ? READY : IDLE;
        th[i].op = 0xff0000u + phase; th[i].step = 0; th[i].runlen = 0; th[i].timed_out = 0;
    }
    // the phase start is decided like the end of a virtual thread MAXT-1
    self = MAXT - 1;
    first = choose_after(K_START);
    self = -1;
    if (first < 0) return;
    unpark(&th[first].go);
    park(&main_go);
}
uint32_t ds_trace_len(void) { return ntrace; }
uint32_t ds_trace_overflow(void) { return trace_overflow; }
void ds_trace_get(uint32_t i, uint32_t *out) {
    out[0] = trace[i].t; out[1] = trace[i].op; out[2] = trace[i].step; out[3] = trace[i].kind; out[4] = trace[i].to;
}
int ds_states(char *out) {
    for (int i = 0; i < MAXT; i++) out[i] = "irfkd"[th[i].st];
    return MAXT;
}

// ---- futex / yield interposition -----------------------------------------------------------------
static long sim_futex(uint32_t *a, int op, uint32_t val, void *timeout, uint32_t val3) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        struct thr *t = &th[self];
        t->step++;
        if (strat == S_REPLAY) {
            if (rep_lookup(self, t->op, t->step, K_SPURIOUS) >= 0) { ds_c_spurious++; record(self, K_SPURIOUS, self); return 0; }
        } else if (p_spur && (rnd() & 0xffff) < p_spur && t->runlen < 4000) {
            ds_c_spurious++; t->runlen += 8; record(self, K_SPURIOUS, self);
            return 0; // a spurious wakeup is legal
        }
        t->key = (uintptr_t)a;
        t->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
        t->timed = timeout != 0; t->timed_out = 0;
        block_self(BLK_FUTEX, K_BLOCK);
        if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        return wake_key(BLK_FUTEX, (uintptr_t)a, cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu, (int)val < 0 ? MAXT : (int)val);
    errno = ENOSYS;
    return -1;
}
static uint64_t det_rand = 88172645463325252ull;
static void det_fill(unsigned char *b, size_t n) {
    for (size_t i = 0; i < n; i++) { det_rand ^= det_rand << 13; det_rand ^= det_rand >> 7; det_rand ^= det_rand << 17; b[i] = (unsigned char)det_rand; }
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && self >= 0) {
        if (sut > 0) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (void *)d, (uint32_t)f);
        int cmd = (int)b & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            int w = wake_key(BLK_FUTEX, (uintptr_t)a, 0xffffffffu, (int)c < 0 ? MAXT : (int)c);
            if (w) return w;
        }
    }
    if (n == SYS_getrandom) { det_fill((unsigned char *)a, (size_t)b); return b; }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { (void)fl; det_fill(b, n); return (ssize_t)n; }
int sched_yield(void) {
    if (self >= 0 && sut > 0) { ds_c_yield++; point(K_YIELD); return 0; }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

// ---- instrumentation entry points ------------------------------------------------------------------
static inline __attribute__((always_inline)) void hook(void) { if (__builtin_expect(sut > 0, 0)) point(K_ATOMIC); }
#define SC __ATOMIC_SEQ_CST
#define RMW(N, T, NAME, B) T __tsan_atomic##N##_fetch_##NAME(volatile T *a, T v, int mo) { (void)mo; hook(); return __atomic_fetch_##B(a, v, SC); }
#define DEF(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { (void)mo; hook(); return __atomic_load_n(a, SC); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { (void)mo; hook(); __atomic_store_n(a, v, SC); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { (void)mo; hook(); return __atomic_exchange_n(a, v, SC); } \
    RMW(N, T, add, add) RMW(N, T, sub, sub) RMW(N, T, and, and) RMW(N, T, or, or) RMW(N, T, xor, xor) RMW(N, T, nand, nand) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { (void)mo; (void)f; hook(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { (void)mo; (void)f; hook(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { (void)mo; (void)f; hook(); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
DEF(8, uint8_t)
DEF(16, uint16_t)
DEF(32, uint32_t)
DEF(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(N) void __tsan_read##N(void *p) { (void)p; } void __tsan_write##N(void *p) { (void)p; } \
    void __tsan_unaligned_read##N(void *p) { (void)p; } void __tsan_unaligned_write##N(void *p) { (void)p; } \
    void __tsan_read_write##N(void *p) { (void)p; } void __tsan_unaligned_read_write##N(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void __tsan_vptr_read(void *p) { (void)p; }
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
