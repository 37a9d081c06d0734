/* Deterministic simulator for generated inference programs.
 *
 * Linked with the real generated C code, which is compiled with
 * -fsanitize=thread (so every memory access calls __tsan_*, defined here) and
 * -fopenmp (so every OpenMP construct calls GOMP_* / omp_*, defined here).
 * Each OpenMP thread is a real thread, but exactly one runs at any time: the
 * seeded scheduler below passes the baton at memory accesses and at
 * synchronisation operations.  Files are simulated in memory with injected
 * faults; the clock is simulated.
 *
 * usage: prog SCRIPT RESULT      (both real files, read and written with raw I/O)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "simrt.h"

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
#define MAXT 64
#define NET (&sim_net_desc)
typedef uint64_t u64;
typedef uint32_t u32;
typedef unsigned char u8;

/* ------------------------------------------------------------------ output */
static FILE *res;
static FILE *(*real_fopen)(const char *, const char *);
static void die(int code) { fflush(res); _exit(code); }
static int nviol;
static void viol(const char *kind, const char *fmt, ...)
{
    if (nviol++ > 20) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(res, "V %s ", kind);
    vfprintf(res, fmt, ap);
    fprintf(res, "\n");
    va_end(ap);
    fflush(res);
}

/* ------------------------------------------------------------------ random */
static u64 rs;
static u64 rnd(void)
{
    u64 z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }

/* ------------------------------------------------------------------ threads */
enum { S_IDLE, S_RUN, S_BLOCK, S_DONE };
typedef struct team team;
typedef struct thr {
    int id;                /* 0 is the initial thread */
    int state;
    volatile int go;       /* futex */
    pthread_t pt;
    u8 *stk_lo, *stk_hi;
    u32 vc[MAXT];
    team *tm;
    int num;               /* index in team */
    void *wait_on;
    /* current inference call */
    u8 *ctx, *pred, *in;
    int depth;
    /* work-sharing bookkeeping */
    int ws_seen, single_seen;
    long st_next, st_end, st_chunk, st_incr;
    int prio;
} thr;
struct team {
    int n;
    thr *t[MAXT];
    team *up;
    thr *master;
    int up_num;
    void (*fn)(void *);
    void *data;
    int bar_count, bar_gen;
    u32 bar_vc[MAXT];
    int running;
    /* dynamic loop */
    int ws_id;
    struct { int id; long next, end, incr, chunk; int kind; int done; u32 vc[MAXT]; void *copy; } ws[64];
    int single_id;
};
static thr T[MAXT];
static int nthr = 1;
static __thread thr *me;
static team team0;

static int f_wait(volatile int *p, int v) { return syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static int f_wake(volatile int *p) { return syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

/* schedule */
enum { ST_RUN, ST_RW, ST_PCT, ST_RR, ST_SERIAL, ST_STALL, ST_HOT };
static struct {
    int strat, team_cap;
    long param;
    long budget;
    int nchange; u64 change[8];
    int victim; u64 stall_at;
} sc;
static u64 steps, step_cap = 400000000ull, switches, region_steps;
static u64 trace_hash = 1469598103934665603ull;
static int in_rt;               /* inside the runtime: accesses are not scheduled */
static int par_depth;
static u64 fired_team_cap, max_team, hot_hits;

static void thash(u64 v) { trace_hash = (trace_hash ^ v) * 1099511628211ull; }

static long geo(long mean)
{
    if (mean <= 1) return 1;
    return 1 + (long)rndn(2 * mean - 1);
}

static int runnable(int i) { return T[i].state == S_RUN; }

static void hand(thr *to)
{
    if (to == me) return;
    switches++;
    thash((u64)me->id * 131 + to->id + steps * 8191);
    __atomic_store_n(&to->go, 1, __ATOMIC_SEQ_CST);
    f_wake(&to->go);
    while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) f_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
}

/* hand without waiting: the caller goes back to its pool loop */
static void hand_off(thr *to)
{
    switches++;
    thash((u64)me->id * 131 + to->id + steps * 8191);
    __atomic_store_n(&to->go, 1, __ATOMIC_SEQ_CST);
    f_wake(&to->go);
}

static thr *pick(void)
{
    int c[MAXT], n = 0;
    for (int i = 0; i < nthr; i++)
        if (runnable(i)) c[n++] = i;
    if (!n) return NULL;
    switch (sc.strat) {
    case ST_PCT: case ST_SERIAL: {
        int b = c[0];
        for (int i = 1; i < n; i++)
            if (T[c[i]].prio > T[b].prio) b = c[i];
        return &T[b];
    }
    case ST_RR: {
        for (int i = 0; i < n; i++)
            if (c[i] > me->id) return &T[c[i]];
        return &T[c[0]];
    }
    case ST_STALL:
        if (n > 1 && region_steps >= sc.stall_at) {
            int k = 0;
            for (int i = 0; i < n; i++)
                if (c[i] != sc.victim) c[k++] = c[i];
            n = k;
        }
        return &T[c[rndn(n)]];
    case ST_RUN:
        if (me->state == S_RUN) return me;
        return &T[c[0]];
    default:
        return &T[c[rndn(n)]];
    }
}

static void new_budget(void)
{
    switch (sc.strat) {
    case ST_RW: case ST_STALL: sc.budget = geo(sc.param); break;
    case ST_RR: sc.budget = sc.param; break;
    case ST_PCT: {
        sc.budget = 1000000000;
        for (int i = 0; i < sc.nchange; i++)
            if (sc.change[i] > region_steps && (long)(sc.change[i] - region_steps) < sc.budget)
                sc.budget = sc.change[i] - region_steps;
        break;
    }
    default: sc.budget = 1000000000;
    }
}

static long cur_budget0;

static void schedule(int must)
{
    region_steps += cur_budget0 - sc.budget;
    cur_budget0 = 0;
    steps++;
    if (sc.strat == ST_PCT)
        for (int i = 0; i < sc.nchange; i++)
            if (sc.change[i] && sc.change[i] <= region_steps) { me->prio = -(i + 1); sc.change[i] = 0; }
    thr *to = pick();
    if (!to) { viol("DEADLOCK", "no thread can run"); die(3); }
    new_budget();
    cur_budget0 = sc.budget;
    if (to != me) hand(to);
    (void)must;
}

static inline void access_point(int hot)
{
    if (!par_depth || in_rt) return;
    if (hot && sc.strat == ST_HOT) {
        hot_hits++;
        if (rnd() & 1) schedule(0);
        return;
    }
    if (--sc.budget <= 0) schedule(0);
}

static void wake_all_blocked(void)
{
    for (int i = 0; i < nthr; i++)
        if (T[i].state == S_BLOCK) T[i].state = S_RUN;
}

/* ------------------------------------------------------------------ vector clocks and shadow memory */
static void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

typedef struct { u32 wclk, rclk; u8 wtid, wmask, rtid, rmask; u32 *rvc; } cell;
typedef struct { u64 page; cell *c; } pent;
static pent *ptab; static size_t pcap = 1 << 14, pcount;
static u64 lastp = ~0ull; static cell *lastc;
static cell *page_cells(u64 p)
{
    if (p == lastp) return lastc;
    size_t h = (p * 0x9E3779B97F4A7C15ull) & (pcap - 1);
    while (ptab[h].c && ptab[h].page != p) h = (h + 1) & (pcap - 1);
    if (!ptab[h].c) {
        if (pcount * 2 > pcap) {
            pent *o = ptab; size_t oc = pcap;
            pcap *= 2;
            ptab = calloc(pcap, sizeof *ptab);
            for (size_t i = 0; i < oc; i++)
                if (o[i].c) {
                    size_t k = (o[i].page * 0x9E3779B97F4A7C15ull) & (pcap - 1);
                    while (ptab[k].c) k = (k + 1) & (pcap - 1);
                    ptab[k] = o[i];
                }
            free(o);
            h = (p * 0x9E3779B97F4A7C15ull) & (pcap - 1);
            while (ptab[h].c) h = (h + 1) & (pcap - 1);
        }
        ptab[h].page = p;
        ptab[h].c = calloc(1024, sizeof(cell));
        pcount++;
    }
    lastp = p;
    return lastc = ptab[h].c;
}

/* regions of memory the harness knows */
typedef struct { u8 *lo, *hi; int kind; } region; /* kind: 1 contexts, 2 inputs, 3 guard, 4 predictions */
static region R[512]; static int nR;
static void reg(void *p, size_t n, int kind) { if (nR < 512) { R[nR].lo = p; R[nR].hi = (u8 *)p + n; R[nR].kind = kind; nR++; } }
static struct { u8 *lo, *hi; } ro[256]; static int nro;
static u8 *exe_base;
static u64 accesses, races;
static char where_buf[2][160];
static const char *where(u8 *a, int w)
{
    char *b = where_buf[w];
    u8 *c0 = NET->ctx0; size_t cs = NET->ctx_size;
    if (a >= c0 && a < c0 + cs * NET->max_batch) { snprintf(b, 160, "Context[%zu]+%zu", (size_t)(a - c0) / cs, (size_t)(a - c0) % cs); return b; }
    for (int i = 0; i < nR; i++)
        if (a >= R[i].lo && a < R[i].hi) { snprintf(b, 160, "region%d(kind %d)+%zu", i, R[i].kind, (size_t)(a - R[i].lo)); return b; }
    for (int i = 0; i < nthr; i++)
        if (a >= T[i].stk_lo && a < T[i].stk_hi) { snprintf(b, 160, "stack of thread %d", i); return b; }
    if (a >= exe_base && a < exe_base + (1u << 30)) { snprintf(b, 160, "exe+0x%zx", (size_t)(a - exe_base)); return b; }
    snprintf(b, 160, "heap");
    return b;
}

static void race(cell *c, u8 *a, int wr, int other, const char *what)
{
    (void)c; (void)wr;
    if (races++ < 5)
        viol("RACE", "%s by thread %d and thread %d at %s", what, other, me->id, where(a, 0));
}

static void shadow1(u8 *a, int mask, int wr)
{
    cell *c = page_cells((u64)a >> 12) + (((u64)a >> 2) & 1023);
    int t = me->id;
    u32 k = me->vc[t];
    if (c->wmask & mask && c->wtid != t && c->wclk > me->vc[c->wtid]) race(c, a, wr, c->wtid, wr ? "two unordered writes" : "write and read not ordered");
    if (!wr) {
        if (c->rvc) { c->rvc[t] = k; c->rmask |= mask; return; }
        if (!c->rmask || c->rtid == t || c->rclk <= me->vc[c->rtid]) { c->rtid = t; c->rclk = k; c->rmask = mask | (c->rtid == t ? c->rmask : 0); return; }
        c->rvc = calloc(MAXT, sizeof(u32));
        c->rvc[c->rtid] = c->rclk;
        c->rvc[t] = k;
        c->rmask |= mask;
        return;
    }
    if (c->rmask & mask) {
        if (c->rvc) {
            for (int i = 0; i < nthr; i++)
                if (i != t && c->rvc[i] > me->vc[i]) { race(c, a, 1, i, "read and write not ordered"); break; }
            free(c->rvc); c->rvc = NULL; c->rmask = 0;
        } else if (c->rtid != t && c->rclk > me->vc[c->rtid]) race(c, a, 1, c->rtid, "read and write not ordered");
    }
    c->wtid = t; c->wclk = k; c->wmask = mask;
}

static u64 oob_reported;
/* fields of a context, and gaps between parameter arrays */
static struct { size_t lo, hi; } FD[256], GP[1024]; static int nFD, nGP;
static void layout_check(u8 *a, size_t n, int wr)
{
    u8 *base = NULL;
    size_t cs = NET->ctx_size;
    u8 *c0 = NET->ctx0;
    if (nFD) {
        if (a >= c0 && a < c0 + cs * NET->max_batch) base = c0 + (size_t)(a - c0) / cs * cs;
        else if (me->depth && a >= me->ctx && a < me->ctx + cs) base = me->ctx;
        if (base) {
            size_t o = a - base;
            for (int i = 0; i < nFD; i++) if (o >= FD[i].lo && o + n <= FD[i].hi) return;
            if (oob_reported++ < 5) viol("BOUNDS", "%s at offset %zu of a context, outside of every buffer in it", wr ? "write" : "read", o);
            return;
        }
    }
    if (!wr && nGP && a >= exe_base) {
        size_t o = a - exe_base;
        for (int i = 0; i < nGP; i++)
            if (o >= GP[i].lo && o < GP[i].hi) { if (oob_reported++ < 5) viol("BOUNDS", "read %zu bytes past the end of a parameter array", o - GP[i].lo); return; }
    }
}
static void confine_write(u8 *a, size_t n)
{
    if (!me->depth) return;
    u8 *c0 = NET->ctx0; size_t cs = NET->ctx_size;
    if (a >= me->ctx && a + n <= me->ctx + cs) return;
    if (a >= me->pred && a + n <= me->pred + NET->n_out * NET->elem) return;
    if (a >= c0 && a < c0 + cs * NET->max_batch) { if (oob_reported++ < 5) viol("CONFINE", "a call using %s writes %s", where(me->ctx, 0), where(a, 1)); return; }
    for (int i = 0; i < nR; i++)
        if (a + n > R[i].lo && a < R[i].hi) {
            if (R[i].kind == 4 && a >= me->pred - 0 && 0) return;
            if (oob_reported++ < 5) {
                static const char *k[] = {"?", "another call's context", "an input", "memory next to its operands", "another row of the predictions"};
                viol(R[i].kind == 2 ? "INPUTWRITE" : "CONFINE", "a call writes %s (%s)", k[R[i].kind], where(a, 1));
            }
            return;
        }
}

static int is_hot(u8 *a)
{
    u8 *c0 = NET->ctx0;
    if (a >= c0 && a < c0 + NET->ctx_size * NET->max_batch) {
        /* another call's context is shared memory too */
        return me->depth && !(a >= me->ctx && a < me->ctx + NET->ctx_size);
    }
    for (int i = 0; i < nR; i++)
        if (a >= R[i].lo && a < R[i].hi) return 0;
    return 1;
}

static void mem(u8 *a, size_t n, int wr)
{
    if (!me || in_rt) return;
    accesses++;
    if (a >= me->stk_lo && a < me->stk_hi) return;
    if (accesses > step_cap) { viol("STEPS", "no result within %lu accesses", (unsigned long)step_cap); die(3); }
    if (me->depth) { layout_check(a, n, wr); if (wr) confine_write(a, n); }
    if (!par_depth) return;
    if (!wr)
        for (int i = 0; i < nro; i++)
            if (a >= ro[i].lo && a < ro[i].hi) { access_point(0); return; }
    access_point(is_hot(a));
    u8 *e = a + n;
    while (a < e) {
        u8 *g = (u8 *)((u64)a & ~3ull);
        int mask = 0;
        for (; a < e && a < g + 4; a++) mask |= 1 << (a - g);
        shadow1(g, mask, wr);
    }
}

#define RW(n) \
    void __tsan_read##n(void *a) { mem(a, n, 0); } \
    void __tsan_write##n(void *a) { mem(a, n, 1); } \
    void __tsan_unaligned_read##n(void *a) { mem(a, n, 0); } \
    void __tsan_unaligned_write##n(void *a) { mem(a, n, 1); } \
    void __tsan_volatile_read##n(void *a) { mem(a, n, 0); } \
    void __tsan_volatile_write##n(void *a) { mem(a, n, 1); } \
    void __tsan_read_write##n(void *a) { mem(a, n, 0); mem(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { mem(a, n, 0); }
void __tsan_write_range(void *a, unsigned long n) { mem(a, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)b; mem((u8 *)a, 8, 1); }

static void mem_range(const void *p, size_t n, int wr)
{
    u8 *a = (u8 *)p;
    if (!me || in_rt) return;
    while (n) { size_t k = n > 4 ? 4 : n; mem(a, k, wr); a += k; n -= k; }
}
/* only the generated objects are linked with these wrappers */
void *__wrap_memcpy(void *d, const void *s, size_t n) { mem_range(s, n, 0); mem_range(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { mem_range(s, n, 0); mem_range(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { mem_range(d, n, 1); return __real_memset(d, c, n); }

/* ------------------------------------------------------------------ locks (used by critical, atomics, omp locks) */
typedef struct { void *key; int held; u32 vc[MAXT]; } lk;
static lk L[4096]; static int nL;
static lk *getlk(void *key)
{
    for (int i = 0; i < nL; i++) if (L[i].key == key) return &L[i];
    if (nL == 4096) nL = 0;
    __real_memset(&L[nL], 0, sizeof(lk));
    L[nL].key = key;
    return &L[nL++];
}
static void acquire(void *key)
{
    lk *l = getlk(key);
    if (par_depth) schedule(0);
    while (l->held) { me->state = S_BLOCK; schedule(1); }
    l->held = 1;
    vc_join(me->vc, l->vc);
}
static void release(void *key)
{
    lk *l = getlk(key);
    l->held = 0;
    vc_join(l->vc, me->vc);
    me->vc[me->id]++;
    wake_all_blocked();
    if (par_depth) schedule(0);
}
static int k_crit, k_atomic;
void GOMP_critical_start(void) { acquire(&k_crit); }
void GOMP_critical_end(void) { release(&k_crit); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start(void) { acquire(&k_atomic); }
void GOMP_atomic_end(void) { release(&k_atomic); }
void omp_init_lock(void *p) { (void)p; }
void omp_destroy_lock(void *p) { (void)p; }
void omp_set_lock(void *p) { acquire(p); }
void omp_unset_lock(void *p) { release(p); }
int omp_test_lock(void *p) { lk *l = getlk(p); if (l->held) return 0; acquire(p); return 1; }

/* C11 atomics of instrumented code: sequentially consistent, each a synchronisation on its address */
#define AT(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty *a, int m) { (void)m; acquire((void *)a); ty v = *a; release((void *)a); return v; } \
    void __tsan_atomic##n##_store(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); *a = v; release((void *)a); } \
    ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = v; release((void *)a); return o; } \
    ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = o + v; release((void *)a); return o; } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = o - v; release((void *)a); return o; } \
    ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = o & v; release((void *)a); return o; } \
    ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = o | v; release((void *)a); return o; } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int m) { (void)m; acquire((void *)a); ty o = *a; *a = o ^ v; release((void *)a); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int m, int f) { (void)m; (void)f; acquire((void *)a); ty o = *a; int ok = o == *e; if (ok) *a = v; else *e = o; release((void *)a); return ok; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, m, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; acquire(&k_atomic); release(&k_atomic); }
void __tsan_atomic_signal_fence(int m) { (void)m; }

/* ------------------------------------------------------------------ OpenMP */
static void barrier_team(team *tm)
{
    if (tm->n == 1) return;
    schedule(0);
    int gen = tm->bar_gen;
    vc_join(tm->bar_vc, me->vc);
    if (++tm->bar_count == tm->n) {
        tm->bar_count = 0;
        tm->bar_gen++;
        for (int i = 0; i < tm->n; i++) { vc_join(tm->t[i]->vc, tm->bar_vc); tm->t[i]->vc[tm->t[i]->id]++; }
        wake_all_blocked();
        schedule(0);
        return;
    }
    while (tm->bar_gen == gen) { me->state = S_BLOCK; schedule(1); }
}

static void *worker(void *arg)
{
    me = arg;
    pthread_attr_t at; void *lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    me->stk_lo = lo; me->stk_hi = (u8 *)lo + sz;
    for (;;) {
        while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) f_wait(&me->go, 0);
        __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
        team *tm = me->tm;
        tm->fn(tm->data);
        /* implicit barrier at the end of the region: the master waits for running == 0 */
        vc_join(tm->bar_vc, me->vc);
        tm->running--;
        me->state = S_IDLE;
        wake_all_blocked();
        region_steps += cur_budget0 - sc.budget;
        cur_budget0 = 0;
        steps++;
        thr *to = pick();
        if (!to) { viol("DEADLOCK", "no thread can run after a thread ended"); die(3); }
        new_budget();
        cur_budget0 = sc.budget;
        hand_off(to);
    }
    return 0;
}

static thr *get_worker(void)
{
    for (int i = 1; i < nthr; i++) if (T[i].state == S_IDLE) return &T[i];
    if (nthr == MAXT) return NULL;
    thr *t = &T[nthr];
    t->id = nthr;
    t->state = S_IDLE;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t->pt, &at, worker, t)) { fprintf(res, "E cannot create thread\n"); die(4); }
    pthread_attr_destroy(&at);
    nthr++;
    /* its stack bounds must be known before it runs */
    while (!*(u8 *volatile *)&t->stk_hi) sched_yield();
    return t;
}

static u64 region_count, est_len = 20000;
static void region_begin(int n)
{
    region_count++;
    region_steps = 0;
    cur_budget0 = 0;
    sc.budget = 0;
    for (int i = 0; i < nthr; i++) T[i].prio = 1 + (int)rndn(1 << 20);
    if (sc.strat == ST_PCT) {
        sc.nchange = sc.param > 8 ? 8 : (int)sc.param;
        for (int i = 0; i < sc.nchange; i++) sc.change[i] = 1 + rndn(est_len * n);
    }
    if (sc.strat == ST_STALL) { sc.victim = T[0].id; sc.stall_at = rndn(est_len); }
    new_budget();
    cur_budget0 = sc.budget;
}

static int clamp_team(unsigned want)
{
    unsigned n = want ? want : 8;
    if (sc.team_cap > 0 && (int)n > sc.team_cap) { n = sc.team_cap; fired_team_cap++; }
    if (n > MAXT - 1) n = MAXT - 1;
    if (par_depth) n = 1;
    return n;
}

static void run_team(void (*fn)(void *), void *data, int n, void (*prep)(team *, void *), void *parg)
{
    team tm;
    in_rt = 1;
    memset(&tm, 0, sizeof tm);
    thr *workers[MAXT];
    for (int i = 1; i < n; i++) {
        workers[i] = get_worker();
        if (!workers[i]) { n = i; break; }
        workers[i]->state = S_RUN; /* reserve */
    }
    tm.n = n; tm.fn = fn; tm.data = data; tm.up = me->tm; tm.up_num = me->num; tm.master = me;
    tm.t[0] = me;
    if (prep) prep(&tm, parg);
    if ((u64)n > max_team) max_team = n;
    int save_ws = me->ws_seen, save_si = me->single_seen;
    for (int i = 1; i < n; i++) {
        thr *w = workers[i];
        w->tm = &tm; w->num = i; w->depth = 0; w->ws_seen = 0; w->single_seen = 0;
        tm.t[i] = w;
        vc_join(w->vc, me->vc);
        w->vc[w->id]++;
    }
    me->vc[me->id]++;
    me->tm = &tm; me->num = 0; me->ws_seen = 0; me->single_seen = 0;
    tm.running = n - 1;
    if (n > 1) {
        if (sc.strat == ST_STALL) { }
        par_depth++;
        region_begin(n);
        if (sc.strat == ST_STALL) sc.victim = tm.t[rndn(n)]->id;
        in_rt = 0;
        schedule(0);
    }
    in_rt = 0;
    fn(data);
    if (n > 1) {
        while (tm.running > 0) { me->state = S_BLOCK; schedule(1); }
        u64 len = region_steps / n;
        if (len > 16) est_len = len;
        par_depth--;
        vc_join(me->vc, tm.bar_vc);
    }
    me->vc[me->id]++;
    me->tm = tm.up; me->num = tm.up_num; me->ws_seen = save_ws; me->single_seen = save_si;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void)flags;
    run_team(fn, data, clamp_team(n), 0, 0);
}
int omp_get_num_threads(void) { return me->tm ? me->tm->n : 1; }
int omp_get_thread_num(void) { return me->tm ? me->num : 0; }
int omp_get_max_threads(void) { return 8; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return par_depth > 0; }
void omp_set_num_threads(int n) { (void)n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
int omp_get_level(void) { int l = 0; for (team *t = me->tm; t && t != &team0; t = t->up) l++; return l; }
int omp_get_thread_limit(void) { return MAXT; }
static u64 sim_now = 1000000;
double omp_get_wtime(void) { return (double)(sim_now += 1000) * 1e-6; }
double omp_get_wtick(void) { return 1e-6; }
void GOMP_barrier(void) { if (me->tm && par_depth) barrier_team(me->tm); }
_Bool GOMP_single_start(void)
{
    team *tm = me->tm;
    me->single_seen++;
    if (!tm || tm->n == 1) return 1;
    schedule(0);
    if (tm->single_id < me->single_seen) { tm->single_id = me->single_seen; return 1; }
    return 0;
}

/* work-sharing loops with dynamic-like schedules; the simulator also serves
 * nonmonotonic and guided schedules by handing out chunks in a seeded order */
static int ws_of(team *tm, int id, long start, long end, long incr, long chunk)
{
    int k = id & 63;
    if (tm->ws[k].id != id) {
        tm->ws[k].id = id; tm->ws[k].next = start; tm->ws[k].end = end; tm->ws[k].incr = incr; tm->ws[k].chunk = chunk < 1 ? 1 : chunk;
    }
    return k;
}
static _Bool ws_next(team *tm, int k, long *is, long *ie)
{
    if (tm->n > 1) schedule(0);
    long nx = tm->ws[k].next, end = tm->ws[k].end, inc = tm->ws[k].incr;
    if (inc > 0 ? nx >= end : nx <= end) return 0;
    long ch = tm->ws[k].chunk * inc, e = nx + ch;
    if (inc > 0 ? e > end : e < end) e = end;
    *is = nx; *ie = e;
    tm->ws[k].next = e;
    return 1;
}
static team *my_team(void) { if (!me->tm) { team0.n = 1; team0.t[0] = me; me->tm = &team0; } return me->tm; }
#define LOOP(name) \
    _Bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { team *tm = my_team(); int k = ws_of(tm, ++me->ws_seen, s, e, i, c); return ws_next(tm, k, is, ie); } \
    _Bool GOMP_loop_##name##_next(long *is, long *ie) { team *tm = my_team(); return ws_next(tm, me->ws_seen & 63, is, ie); } \
    struct pl_##name { long s, e, i, c; }; \
    static void prep_##name(team *tm, void *p) { struct pl_##name *a = p; ws_of(tm, 0x40, a->s, a->e, a->i, a->c); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; struct pl_##name a = {s, e, i, c}; run_team(fn, d, clamp_team(n), prep_##name, &a); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(name) \
    _Bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); } \
    _Bool GOMP_loop_##name##_next(long *is, long *ie) { return GOMP_loop_dynamic_next(is, ie); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_next(void) { long a, b; team *tm = my_team(); return ws_next(tm, me->ws_seen & 63, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { team *tm = my_team(); ws_of(tm, ++me->ws_seen, 1, (long)n + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) { (void)f; GOMP_parallel_loop_dynamic(fn, d, n ? n : cnt, 1, (long)cnt + 1, 1, 1, 0); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
/* tasks run at once, in the thread that creates them (a legal schedule) */
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, _Bool ifc, unsigned fl, void **dep, int prio, void *det)
{
    (void)ifc; (void)fl; (void)dep; (void)prio; (void)det;
    if (cpy) {
        char buf[sz + al];
        char *p = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
        cpy(p, data);
        fn(p);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

/* ------------------------------------------------------------------ inference calls */
static u64 calls;
static u64 seen_ctx_mask;
int sim_call(void *ctx, void *pred, void *in)
{
    calls++;
    u8 *sctx = me->ctx, *sp = me->pred, *si = me->in;
    me->ctx = ctx; me->pred = pred; me->in = in;
    u8 *c0 = NET->ctx0;
    size_t k = ((u8 *)ctx - c0) / NET->ctx_size;
    if ((u8 *)ctx >= c0 && k < 64) seen_ctx_mask |= 1ull << k;
    me->depth++;
    int r = NET->infer(ctx, pred, in);
    me->depth--;
    me->ctx = sctx; me->pred = sp; me->in = si;
    return r;
}

/* ------------------------------------------------------------------ simulated disk */
typedef struct { char name[256]; u8 *d; size_t n, cap; int exists; } sfile;
static sfile F[64]; static int nF;
static sfile *getf(const char *name)
{
    for (int i = 0; i < nF; i++) if (!strcmp(F[i].name, name)) return &F[i];
    if (nF == 64) return NULL;
    snprintf(F[nF].name, 256, "%s", name);
    return &F[nF++];
}
enum { K_OPEN, K_WRITE, K_CLOSE, K_READ };
typedef struct { int kind, nth, err; long arg; int fired; } fault;
static fault FA[32]; static int nFA;
static int cnt[4];
static long disk_left = -1; /* bytes the simulated disk still takes; -1: no limit */
static u64 fired[8];
static fault *hit(int kind)
{
    cnt[kind]++;
    for (int i = 0; i < nFA; i++)
        if (FA[i].kind == kind && FA[i].nth == cnt[kind]) { FA[i].fired = 1; fired[kind]++; return &FA[i]; }
    return NULL;
}
typedef struct { sfile *f; size_t pos; int append; } cookie;
static int stdio_buf = 0;
static char stdio_space[8][8192]; static int stdio_used;
static u64 op_hard, op_soft; /* faults met by the current operation: reported errors, and short transfers */
static ssize_t sys_write(cookie *k, const char *b, size_t n)
{
    fault *ft = hit(K_WRITE);
    if (ft && ft->err) { op_hard++; errno = ft->err; return -1; }
    size_t m = n;
    if (ft && ft->arg > 0 && (size_t)ft->arg < m) { op_soft++; m = ft->arg; }   /* short write */
    if (disk_left >= 0 && (long)m > disk_left) {
        m = disk_left; fired[5]++;
        if (!m) { op_hard++; errno = ENOSPC; return -1; }
    }
    if (k->append) k->pos = k->f->n;
    if (k->pos + m > k->f->cap) { k->f->cap = (k->pos + m) * 2 + 64; k->f->d = realloc(k->f->d, k->f->cap); }
    if (k->pos > k->f->n) memset(k->f->d + k->f->n, 0, k->pos - k->f->n);
    __real_memcpy(k->f->d + k->pos, b, m);
    k->pos += m;
    if (k->pos > k->f->n) k->f->n = k->pos;
    if (disk_left >= 0) disk_left -= m;
    return m;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    /* what the C library does for a real file: go on after a short write, stop at an error */
    size_t done = 0;
    while (done < n) {
        ssize_t r = sys_write(c, b + done, n - done);
        if (r <= 0) break;
        done += r;
    }
    return done;
}
static ssize_t ck_read(void *c, char *b, size_t n)
{
    cookie *k = c;
    fault *ft = hit(K_READ);
    if (ft && ft->err) { op_hard++; errno = ft->err; return -1; }
    size_t m = k->f->n > k->pos ? k->f->n - k->pos : 0;
    if (m > n) m = n;
    if (ft && ft->arg > 0 && (size_t)ft->arg < m) { op_soft++; m = ft->arg; }
    __real_memcpy(b, k->f->d + k->pos, m);
    k->pos += m;
    return m;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    cookie *k = c;
    long p = w == SEEK_SET ? *o : w == SEEK_CUR ? (long)k->pos + *o : (long)k->f->n + *o;
    if (p < 0) { errno = EINVAL; return -1; }
    k->pos = p; *o = p;
    return 0;
}
static int ck_close(void *c)
{
    cookie *k = c;
    fault *ft = hit(K_CLOSE);
    free(k);
    if (ft) { op_hard++; errno = ft->err ? ft->err : EIO; return -1; }
    return 0;
}
static FILE *sim_fopen(const char *name, const char *mode)
{
    int keep = in_rt; in_rt = 1;
    FILE *r = NULL;
    fault *ft = hit(K_OPEN);
    if (!name) { errno = EFAULT; goto out; }
    if (ft) { op_hard++; errno = ft->err ? ft->err : EACCES; goto out; }
    sfile *f = getf(name);
    if (!f) { errno = ENFILE; goto out; }
    if (mode[0] == 'r' && !f->exists) { errno = ENOENT; goto out; }
    if (strchr(mode, 'x') && f->exists) { errno = EEXIST; goto out; }
    if (mode[0] == 'w') { f->n = 0; }
    f->exists = 1;
    cookie *k = calloc(1, sizeof *k);
    k->f = f;
    k->append = mode[0] == 'a';
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    r = fopencookie(k, mode, io);
    if (r && stdio_buf == 1) setvbuf(r, NULL, _IONBF, 0);
    else if (r && stdio_buf > 1 && stdio_used < 8) setvbuf(r, stdio_space[stdio_used++], _IOFBF, stdio_buf > 8192 ? 8192 : stdio_buf);
out:
    in_rt = keep;
    return r;
}
FILE *__wrap_fopen(const char *n, const char *m) { return sim_fopen(n, m); }
FILE *__wrap_fopen64(const char *n, const char *m) { return sim_fopen(n, m); }
int __wrap_remove(const char *n) { sfile *f = getf(n); if (!f || !f->exists) { errno = ENOENT; return -1; } f->exists = 0; f->n = 0; return 0; }
int __wrap_unlink(const char *n) { return __wrap_remove(n); }
int __wrap_rename(const char *a, const char *b)
{
    sfile *f = getf(a), *g = getf(b);
    if (!f || !g || !f->exists) { errno = ENOENT; return -1; }
    g->n = f->n; g->cap = f->n; g->d = malloc(f->n + 1); __real_memcpy(g->d, f->d, f->n); g->exists = 1;
    f->exists = 0; f->n = 0;
    return 0;
}
/* what the program says goes nowhere */
static u64 said;
int __wrap_puts(const char *s) { (void)s; said++; return 1; }
int __wrap_putchar(int c) { said++; return c; }
int __wrap_printf(const char *f, ...) { (void)f; said++; return 1; }
void __wrap_perror(const char *s) { (void)s; said++; }
/* a program that calls exit() inside main ends the simulated program only */
static jmp_buf main_jb; static int main_active, main_code;
static void ended(int c);
void __wrap_exit(int c) { if (main_active && par_depth) ended(c); if (main_active) { main_code = c; longjmp(main_jb, 1); } fflush(res); _exit(c); }
void __wrap_abort(void) { if (main_active && par_depth) ended(134); if (main_active) { main_code = 134; longjmp(main_jb, 1); } die(134); }

/* ------------------------------------------------------------------ simulated clock */
static int clock_mode; static u64 clk = 5000;
static u64 tick(void)
{
    switch (clock_mode) {
    case 1: clk += rndn(1u << 30); break;               /* jumps */
    case 2: clk -= rndn(5000) < clk ? rndn(4) * 1000 : 0; break; /* runs backwards */
    default: clk += 100;
    }
    return clk;
}
clock_t __wrap_clock(void) { if (clock_mode == 3) return (clock_t)-1; return (clock_t)tick(); }
time_t __wrap_time(time_t *t) { time_t v = (time_t)(tick() / 1000000); if (t) *t = v; return v; }
int __wrap_clock_gettime(int id, struct timespec *ts) { (void)id; u64 v = tick(); ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000; return 0; }
struct timeval; 
int __wrap_gettimeofday(void *tv, void *tz) { (void)tz; long *l = tv; u64 v = tick(); l[0] = v / 1000000; l[1] = v % 1000000; return 0; }

/* ------------------------------------------------------------------ signals */
static u8 altstk[65536];
static void on_sig(int s, siginfo_t *si, void *u)
{
    (void)u;
    fprintf(res, "V SIGNAL signal %d%s in thread %d\n", s, me && me->depth ? " inside inference" : "", me ? me->id : -1);
    (void)si;
    fflush(res);
    _exit(3);
}

static int seg_cb(struct dl_phdr_info *i, size_t n, void *d)
{
    (void)n; (void)d;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && !(p->p_flags & PF_W) && nro < 256) { ro[nro].lo = (u8 *)i->dlpi_addr + p->p_vaddr; ro[nro].hi = ro[nro].lo + p->p_memsz; nro++; }
    }
    if (!exe_base) exe_base = (u8 *)i->dlpi_addr;
    return 1; /* the program only */
}

/* ------------------------------------------------------------------ harness memory */
#define GUARD 256
static u8 *galloc(size_t n, int kind)
{
    /* [guard][n][guard], page aligned start of data */
    size_t tot = 4096 + ((n + 4095) & ~4095ul) + 4096;
    u8 *m = mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u8 *p = m + 4096;
    memset(p - GUARD, 0xC5, GUARD);
    memset(p + n, 0xC5, GUARD);
    reg(p - GUARD, GUARD, 3);
    reg(p + n, GUARD, 3);
    if (kind) reg(p, n, kind);
    return p;
}
static int gcheck(u8 *p, size_t n)
{
    for (int i = 0; i < GUARD; i++) if (p[-1 - i] != 0xC5 || p[n + i] != 0xC5) return 0;
    return 1;
}
static void fill(u8 *p, size_t n, int mode, u64 seed)
{
    u64 keep = rs;
    rs = seed;
    switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: for (size_t i = 0; i < n; i++) p[i] = rnd(); break;
    case 2: memset(p, 0xFF, n); break;                                   /* NaN or -1 */
    case 3: /* infinities, or the largest integer */
        if (NET->is_float && NET->elem == 4) for (size_t i = 0; i + 4 <= n; i += 4) *(u32 *)(p + i) = 0x7f800000;
        else if (NET->is_float) for (size_t i = 0; i + 8 <= n; i += 8) *(u64 *)(p + i) = 0x7ff0000000000000ull;
        else memset(p, 0x7F, n);
        break;
    case 4: /* small plausible values, as another inference leaves behind */
        if (NET->is_float && NET->elem == 4) for (size_t i = 0; i + 4 <= n; i += 4) *(float *)(p + i) = (float)(rndn(4001)) / 1000.0f - 2.0f;
        else if (NET->is_float) for (size_t i = 0; i + 8 <= n; i += 8) *(double *)(p + i) = (double)(rndn(4001)) / 1000.0 - 2.0;
        else for (size_t i = 0; i < n; i++) p[i] = rndn(5);
        break;
    }
    rs = keep;
}
static void hex(const char *tag, const u8 *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    fprintf(res, "%s ", tag);
    for (size_t i = 0; i < n; i++) { fputc(d[p[i] >> 4], res); fputc(d[p[i] & 15], res); }
    fputc('\n', res);
}
static int strat_of(const char *s)
{
    static const char *n[] = {"run", "rw", "pct", "rr", "serial", "stall", "hot"};
    for (int i = 0; i < 7; i++) if (!strcmp(s, n[i])) return i;
    fprintf(res, "E unknown strategy %s\n", s);
    die(4);
    return 0;
}

static u8 *inputs_copy;
static int addr_in_ro(const u8 *p) { for (int i = 0; i < nro; i++) if (p >= ro[i].lo && p < ro[i].hi) return 1; return 0; }

static FILE *script_f; static int script_op; static char main_out[256];
static void dump_file(const char *line)
{
    char o[256] = "";
    sscanf(line, "%*s %255s", o);
    sfile *f = NULL;
    for (int i = 0; i < nF; i++) {
        size_t a = strlen(F[i].name), b = strlen(o);
        if (F[i].exists && a >= b && !strcmp(F[i].name + a - b, o)) f = &F[i];
    }
    if (f) { hex("F", f->d ? f->d : (u8 *)"", f->n); f->exists = 0; f->n = 0; }
    else fprintf(res, "NOFILE\n");
}
static void op_end(void) { fprintf(res, "K %lu %lu %d %d %d %d\n", (unsigned long)op_hard, (unsigned long)op_soft, cnt[0], cnt[1], cnt[2], cnt[3]); }
static void summary(void)
{
    fprintf(res, "S accesses=%lu steps=%lu switches=%lu regions=%lu calls=%lu maxteam=%lu teamcap=%lu races=%lu hot=%lu trace=%016lx f_open=%lu f_write=%lu f_close=%lu f_read=%lu f_full=%lu ctxs=%d\n",
            (unsigned long)accesses, (unsigned long)steps, (unsigned long)switches, (unsigned long)region_count, (unsigned long)calls, (unsigned long)max_team,
            (unsigned long)fired_team_cap, (unsigned long)races, (unsigned long)hot_hits, (unsigned long)trace_hash,
            (unsigned long)fired[0], (unsigned long)fired[1], (unsigned long)fired[2], (unsigned long)fired[3], (unsigned long)fired[5], __builtin_popcountll(seen_ctx_mask));
    fprintf(res, "END\n");
    die(0);
}
static void main_ended(int rc)
{
    fprintf(res, "R %d\n", rc);
    sfile *f = getf(main_out);
    if (f && f->exists) hex("F", f->d ? f->d : (u8 *)"", f->n);
    else fprintf(res, "NOFILE\n");
}
/* exit() or abort() within a parallel region: the process is gone, only its files can be looked at */
static void ended(int c)
{
    char line[4096], cmd[32];
    in_rt = 1;
    main_active = 0;
    main_ended(c);
    op_end();
    while (fgets(line, sizeof line, script_f))
        if (sscanf(line, "%31s", cmd) == 1 && !strcmp(cmd, "DUMP")) {
            for (int i = 0; i < 4; i++) cnt[i] = 0;
            op_hard = op_soft = 0;
            fprintf(res, "O %d DUMP\n", script_op++);
            dump_file(line);
            op_end();
        }
    summary();
}

int main(int argc, char **argv)
{
    if (argc < 3) return 4;
    real_fopen = dlsym(RTLD_NEXT, "fopen");
    FILE *sf = real_fopen(argv[1], "r");
    res = real_fopen(argv[2], "w");
    if (!sf || !res) return 4;
    char *resbuf = malloc(1 << 20);
    setvbuf(res, resbuf, _IOFBF, 1 << 20);
    ptab = calloc(pcap, sizeof *ptab);
    me = &T[0];
    me->state = S_RUN;
    me->vc[0] = 1;
    {
        pthread_attr_t at; void *lo; size_t sz;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &lo, &sz);
        me->stk_lo = lo; me->stk_hi = (u8 *)lo + sz;
        pthread_attr_destroy(&at);
    }
    dl_iterate_phdr(seg_cb, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    stack_t ss = {.ss_sp = altstk, .ss_size = sizeof altstk};
    sigaltstack(&ss, 0);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, 0);

    size_t isz = NET->n_in * NET->elem, osz = NET->n_out * NET->elem;
    size_t insz = isz * NET->n_samples;
    inputs_copy = malloc(insz + 1);
    memcpy(inputs_copy, NET->inputs, insz);
    if (!NET->external && !addr_in_ro(NET->inputs)) reg((void *)NET->inputs, insz, 2);
    fprintf(res, "I ctx=%zu elem=%zu in=%zu out=%zu samples=%zu batch=%zu\n", NET->ctx_size, NET->elem, NET->n_in, NET->n_out, NET->n_samples, NET->max_batch);
    hex("X", (const u8 *)NET->inputs, insz);
    fprintf(res, "N");
    for (size_t i = 0; i < NET->n_pars; i++) fprintf(res, " %zu", NET->par_size[i]);
    fprintf(res, "\n");
    int nR0 = nR;
    u8 *hctx[8] = {0};
    char line[4096];
    int op = 0;
    while (fgets(line, sizeof line, sf)) {
        char cmd[32] = "", a1[256] = "";
        if (sscanf(line, "%31s", cmd) != 1 || cmd[0] == '#') continue;
        if (!strcmp(cmd, "SCHED")) {
            unsigned long seed; long prm; int cap; char st[32];
            if (sscanf(line, "%*s %31s %lu %ld %d", st, &seed, &prm, &cap) != 4) die(4);
            sc.strat = strat_of(st); rs = seed; sc.param = prm; sc.team_cap = cap;
            continue;
        }
        if (!strcmp(cmd, "FIELD")) { if (nFD < 256) { sscanf(line, "%*s %zu %zu", &FD[nFD].lo, &FD[nFD].hi); nFD++; } continue; }
        if (!strcmp(cmd, "GAP")) { if (nGP < 1024) { sscanf(line, "%*s %zu %zu", &GP[nGP].lo, &GP[nGP].hi); nGP++; } continue; }
        if (!strcmp(cmd, "CLOCK")) { sscanf(line, "%*s %d", &clock_mode); continue; }
        if (!strcmp(cmd, "STDIO")) { sscanf(line, "%*s %d", &stdio_buf); continue; }
        if (!strcmp(cmd, "DISK")) { sscanf(line, "%*s %ld", &disk_left); continue; }
        if (!strcmp(cmd, "NOFAULTS")) { nFA = 0; disk_left = -1; continue; }
        if (!strcmp(cmd, "FAULT")) {
            fault *f = &FA[nFA++ & 31];
            if (nFA > 31) nFA = 31;
            memset(f, 0, sizeof *f);
            if (sscanf(line, "%*s %255s %d %d %ld", a1, &f->nth, &f->err, &f->arg) != 4) die(4);
            f->kind = !strcmp(a1, "open") ? K_OPEN : !strcmp(a1, "write") ? K_WRITE : !strcmp(a1, "close") ? K_CLOSE : K_READ;
            continue;
        }
        if (!strcmp(cmd, "FILE")) { /* FILE name hexdata : put a file on the simulated disk */
            char nm[256]; int off = 0;
            if (sscanf(line, "%*s %255s %n", nm, &off) < 1) die(4);
            char *big = NULL; size_t cap = 0; ssize_t len;
            len = getline(&big, &cap, sf);
            sfile *f = getf(nm);
            f->exists = 1; f->n = 0; f->cap = len; f->d = malloc(len + 1);
            for (ssize_t i = 0; i + 1 < len && big[i] != '\n'; i += 2) { unsigned v; sscanf(big + i, "%2x", &v); f->d[f->n++] = v; }
            free(big);
            continue;
        }
        for (int i = 0; i < 4; i++) cnt[i] = 0;
        op_hard = op_soft = 0;
        stdio_used = 0;
        fprintf(res, "O %d %s\n", op++, cmd);
        if (!strcmp(cmd, "SCRIBBLE")) { /* SCRIBBLE ctx mode seed ; ctx 0.. = Context[], 100.. = heap, -1 = all */
            int c, m; unsigned long sd;
            sscanf(line, "%*s %d %d %lu", &c, &m, &sd);
            if (c < 0) fill(NET->ctx0, NET->ctx_size * NET->max_batch, m, sd);
            else if (c < 100) fill((u8 *)NET->ctx0 + (size_t)c * NET->ctx_size, NET->ctx_size, m, sd);
            else if (hctx[c - 100]) fill(hctx[c - 100], NET->ctx_size, m, sd);
        } else if (!strcmp(cmd, "CALL")) { /* CALL ctx sample predmode */
            int c, s, pm;
            sscanf(line, "%*s %d %d %d", &c, &s, &pm);
            u8 *cx;
            if (c < 100) cx = (u8 *)NET->ctx0 + (size_t)c * NET->ctx_size;
            else {
                if (!hctx[c - 100]) { hctx[c - 100] = galloc(NET->ctx_size, 0); nR0 = nR; }
                cx = hctx[c - 100];
            }
            u8 *in = galloc(isz, 2), *pr = galloc(osz, 0);
            memcpy(in, inputs_copy + (size_t)s * isz, isz);
            fill(pr, osz, pm, 77 + op);
            int rc = sim_call(cx, pr, in);
            if (memcmp(in, inputs_copy + (size_t)s * isz, isz)) viol("INPUTWRITE", "CALL changed its input");
            if (!gcheck(in, isz) || !gcheck(pr, osz) || (c >= 100 && !gcheck(cx, NET->ctx_size))) viol("CONFINE", "CALL wrote outside of its operands");
            fprintf(res, "R %d\n", rc);
            hex("P", pr, osz);
            munmap(in - 4096, 8192 + ((isz + 4095) & ~4095ul));
            munmap(pr - 4096, 8192 + ((osz + 4095) & ~4095ul));
            nR = nR0;
        } else if (!strcmp(cmd, "BATCH")) { /* BATCH n s0 s1 ... (sample of each row) */
            int n, off;
            sscanf(line, "%*s %d %n", &n, &off);
            char *p = line + off;
            size_t it = isz * (n > 0 ? n : 0), ot = osz * (n > 0 ? n : 0);
            u8 *in = galloc(it, 2), *pr = galloc(ot, 0), *cp = malloc(it + 1);
            for (int i = 0; i < n; i++) { long s = strtol(p, &p, 10); memcpy(in + i * isz, inputs_copy + s * isz, isz); }
            memcpy(cp, in, it);
            fill(pr, ot, 1, 99 + op);
            NET->batch(pr, in, n);
            if (memcmp(in, cp, it)) viol("INPUTWRITE", "BATCH changed its input");
            if (!gcheck(in, it) || !gcheck(pr, ot)) viol("CONFINE", "BATCH wrote outside of its operands");
            hex("P", pr, ot);
            free(cp);
            munmap(in - 4096, 8192 + ((it + 4095) & ~4095ul));
            munmap(pr - 4096, 8192 + ((ot + 4095) & ~4095ul));
            nR = nR0;
        } else if (!strcmp(cmd, "MAIN")) { /* MAIN outname [inname] */
            char o[256] = "", in[256] = "";
            int k = sscanf(line, "%*s %255s %255s", o, in);
            char *av[] = {"inference", o, k > 1 ? in : NULL, NULL};
            main_active = 1;
            snprintf(main_out, sizeof main_out, "%s", o);
            script_op = op;
            script_f = sf;
            int rc;
            if (!setjmp(main_jb)) rc = NET->mainfn(k > 1 ? 3 : 2, av);
            else rc = main_code;
            main_active = 0;
            main_ended(rc);
        } else if (!strcmp(cmd, "DUMP")) { /* DUMP name : the file on the simulated disk whose path ends like this, which is then removed */
            dump_file(line);
        } else if (!strcmp(cmd, "SAVEW")) {
            char o[256] = "";
            sscanf(line, "%*s %255s", o);
            int rc = NET->save(o);
            fprintf(res, "R %d\n", rc);
            sfile *f = getf(o);
            if (f && f->exists) hex("F", f->d ? f->d : (u8 *)"", f->n);
            else fprintf(res, "NOFILE\n");
        } else if (!strcmp(cmd, "COPYW")) { /* COPYW, then one line of hexadecimal bytes: all parameters in order */
            char *big = NULL; size_t cap = 0;
            ssize_t len = getline(&big, &cap, sf);
            void *a[256];
            size_t at = 0, np = NET->n_pars < 256 ? NET->n_pars : 256;
            for (size_t i = 0; i < np; i++) {
                u8 *b = malloc(NET->par_size[i] + 1);
                for (size_t k = 0; k < NET->par_size[i]; k++, at++) { unsigned v = 0; if ((ssize_t)(2 * at + 1) < len) sscanf(big + 2 * at, "%2x", &v); b[k] = v; }
                a[i] = b;
            }
            NET->copy(a);
            for (size_t i = 0; i < np; i++) { memset(a[i], 0xDB, NET->par_size[i]); free(a[i]); }
            free(big);
        } else { fprintf(res, "E unknown command %s\n", cmd); die(4); }
        op_end();
        if (!NET->external && memcmp(inputs_copy, NET->inputs, insz)) { viol("INPUTWRITE", "%s changed the test inputs", cmd); memcpy((void *)NET->inputs, inputs_copy, insz); }
        if (par_depth) { viol("DEADLOCK", "parallel region left open"); die(3); }
    }
    summary();
    return 0;
}
