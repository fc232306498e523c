/* Controlled-scheduler model checker runtime.
 *
 * The code under test is compiled with -fsanitize=thread (instrumentation only) and linked with this
 * file instead of libtsan.  Threads are fibers of one OS thread; pthread functions are wrapped with
 * the linker's --wrap.  Each execution runs in a forked child, following a list of deviations from
 * the default (non-preemptive, round-robin) scheduler.  The parent enumerates all deviation lists
 * within the bounds.
 */
#define _GNU_SOURCE
#include "mc_rt.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ memory arena */
#define NARENA       (MC_MAX_THREADS + 1)
#define ARENA_SIZE   (96UL << 20)
#define ARENA_BASE   ((uintptr_t)0x200000000000UL)
#define REGION_SIZE  (NARENA * ARENA_SIZE)
#define STACK_SIZE   (1UL << 20)

static uint8_t *shadow;           /* 1 byte per 16 bytes: 0 never allocated, 1 live, 2 freed */
static uint16_t *acc;             /* private to an execution: per 8-byte granule access masks */
static uint16_t *acc_glob;        /* same for .data/.bss */
static uint8_t  *conf, *conf_glob;/* shared: granule was accessed by two threads, one writing, in some execution */
static uint32_t *wver;            /* private: write version per granule (hash-mapped) */
#define WVER_BITS 20
extern char __data_start[], _end[], __executable_start[];

static uintptr_t arena_next[NARENA];

typedef struct MC_SHARED_S MC_SHARED;

/* ------------------------------------------------------------------ fibers */
enum { F_FREE, F_READY, F_BLOCK_MUTEX, F_BLOCK_COND, F_BLOCK_JOIN, F_BARRIER, F_DONE };

typedef struct {
    void     *sp;
    int       state;
    int       id;
    void    *(*fn)(void *);
    void     (*vfn)(void *);
    void     *arg;
    void     *ret;
    void     *wait_obj;    /* mutex / cond / joined fiber */
    void     *wait_mutex;
    int       join_target;
    int       yielded;     /* called sched_yield since someone else ran */
    int       detached, joined;
    void     *tls[64];
    uint64_t  local_step;
    uint64_t  run_len;
} FIBER;

static FIBER    fibers[MC_MAX_THREADS];
static int      nfibers;
static FIBER   *cur;              /* running fiber or NULL (main/scheduler context) */
static void    *main_sp;
static int      exploring;        /* hooks active */
static int      quiet;
static uint64_t now_ctr;
static uint64_t run_quantum = 120;

int mc_verbose;

typedef struct { uint32_t point; uint8_t alt; uint8_t cost; } DEV;
#define MAX_DEV 10
typedef struct { uint8_t ndev, npre, nfree, pad; DEV dev[MAX_DEV]; } ITEM;

#define MAX_PTS 400000
typedef struct {
    int      status;       /* 0 running, 1 ok, 2 violation */
    char     msg[1024];
    uint32_t npoints;
    uint64_t steps;
    uint64_t hash;
    uint8_t  nalt[MAX_PTS];   /* low 4 bits alternatives, 0x10: deviation is a preemption, 0x20: choose */
} RESULT;

struct MC_SHARED_S {
    atomic_int        lock;
    atomic_int        idle;
    atomic_int        stop;
    atomic_ullong     execs, steps, points, distinct, conflicts;
    atomic_ullong     max_points;
    atomic_int        overflow;
    size_t            top;
    size_t            cap;
    int               violation;
    char              msg[1024];
    char              schedule[1024];
    uint64_t         *hashset;
};
#define HASHSET_BITS 22

static MC_SHARED *S;
static ITEM      *stack_items;
static RESULT    *R;               /* per worker, shared with children */
static const ITEM *plan;           /* deviations to follow */
static int        plan_pos;
static uint32_t   npoints;
static uint64_t   nsteps;
static uint64_t   trace_hash;
static MC_OPTS    O;
static int        replaying;

extern void *__real_memcpy(void *, const void *, size_t);
extern void *__real_memmove(void *, const void *, size_t);
extern void *__real_memset(void *, int, size_t);
static void die_ok(void) __attribute__((noreturn));

/* ------------------------------------------------------------------ utilities */
static uint64_t mix(uint64_t x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27; x *= 0x94d049bb133111ebULL;
    x ^= x >> 31;
    return x;
}

void mc_log(const char *fmt, ...)
{
    if (mc_verbose) {
        va_list ap;
        int e = exploring; exploring = 0;
        va_start(ap, fmt);
        fprintf(stderr, "[T%d @%llu] ", cur ? cur->id : -1, (unsigned long long)now_ctr);
        vfprintf(stderr, fmt, ap);
        fputc('\n', stderr);
        va_end(ap);
        exploring = e;
    }
}

void mc_fail(const char *fmt, ...)
{
    va_list ap;
    exploring = 0;
    va_start(ap, fmt);
    if (R) {
        vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
        R->npoints = npoints < MAX_PTS ? npoints : MAX_PTS;
        R->steps   = nsteps;
        R->hash    = trace_hash;
        R->status  = 2;
    }
    va_end(ap);
    if (replaying) {
        fprintf(stderr, "VIOLATED: %s\n", R ? R->msg : "?");
        fflush(stderr);
    }
    _exit(3);
}

static void die_ok(void)
{
    exploring = 0;
    R->npoints = npoints < MAX_PTS ? npoints : MAX_PTS;
    R->steps   = nsteps;
    R->hash    = trace_hash;
    R->status  = 1;
    _exit(0);
}

uint64_t mc_now(void) { return ++now_ctr; }
int mc_self(void) { return cur ? cur->id : -1; }
void mc_quiet(int on) { quiet = on; }

/* ------------------------------------------------------------------ allocator */
void mc_init(void)
{
    void *p;
    size_t glob;
    int i;
    if (shadow) return;
    p = mmap((void *)ARENA_BASE, REGION_SIZE, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA_BASE) { fprintf(stderr, "mc: arena mmap failed\n"); _exit(2); }
    shadow = mmap(0, REGION_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    conf   = mmap(0, REGION_SIZE / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    conf_glob = mmap(0, (size_t)(_end - __data_start) / 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    acc    = mmap(0, REGION_SIZE / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    glob   = (size_t)(_end - __data_start);
    acc_glob = mmap(0, glob / 4 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    wver   = mmap(0, 4UL << WVER_BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S      = mmap(0, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shadow == MAP_FAILED || conf == MAP_FAILED || conf_glob == MAP_FAILED || acc == MAP_FAILED || acc_glob == MAP_FAILED || wver == MAP_FAILED || S == MAP_FAILED) {
        fprintf(stderr, "mc: mmap failed\n"); _exit(2);
    }
    for (i = 0; i < NARENA; i++)
        arena_next[i] = ARENA_BASE + (uintptr_t)i * ARENA_SIZE + 64;
}

static int arena_idx(void) { return cur ? cur->id + 1 : 0; }

static void set_shadow(uintptr_t a, size_t size, uint8_t v)
{
    __real_memset(shadow + ((a - ARENA_BASE) >> 4), v, (size + 15) >> 4);
}

static void *arena_alloc(size_t align, size_t size)
{
    int       i = arena_idx();
    uintptr_t a;
    if (!shadow) mc_init();
    if (align < 16) align = 16;
    if (!size) size = 1;
    a = arena_next[i] + 16;            /* room for the size header */
    a = (a + align - 1) & ~(uintptr_t)(align - 1);
    if (a + size + 32 > ARENA_BASE + (uintptr_t)(i + 1) * ARENA_SIZE) {
        fprintf(stderr, "mc: arena %d exhausted\n", i);
        if (R) mc_fail("harness arena exhausted");
        _exit(2);
    }
    ((size_t *)a)[-1] = size;
    arena_next[i] = ((a + size + 15) & ~(uintptr_t)15) + 16;  /* 16 byte redzone */
    set_shadow(a, size, 1);
    return (void *)a;
}

static int in_region(uintptr_t a) { return a - ARENA_BASE < REGION_SIZE; }

void *__wrap_malloc(size_t n) { return arena_alloc(16, n); }
void *__wrap_calloc(size_t n, size_t m) { return arena_alloc(16, n * m); /* fresh memory is zero */ }
int __wrap_posix_memalign(void **p, size_t align, size_t n) { *p = arena_alloc(align, n); return 0; }
extern void __real_free(void *);
void __wrap_free(void *p)
{
    uintptr_t a = (uintptr_t)p;
    if (!p) return;
    if (!in_region(a)) { __real_free(p); return; }
    if (shadow[(a - ARENA_BASE) >> 4] != 1) {
        if (R) mc_fail("invalid or double free of %p", p);
        fprintf(stderr, "mc: invalid or double free\n");
        abort();
    }
    set_shadow(a, ((size_t *)a)[-1], 2);
}
void *__wrap_realloc(void *p, size_t n)
{
    void  *q;
    size_t old;
    if (!p) return __wrap_malloc(n);
    old = ((size_t *)p)[-1];
    q = __wrap_malloc(n);
    __real_memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}

/* ------------------------------------------------------------------ context switch */
__attribute__((naked, noinline)) static void fiber_switch(void **save, void *load)
{
    __asm__ volatile(
        "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
        "movq %rsp, (%rdi)\n"
        "movq %rsi, %rsp\n"
        "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n"
        "ret\n");
}

static void switch_to(FIBER *f)
{
    FIBER *from = cur;
    if (f == from) return;
    cur = f;
    if (f && from) { from->run_len = 0; f->run_len = 0; }
    fiber_switch(from ? &from->sp : &main_sp, f ? f->sp : main_sp);
}

static void schedule_block(void);

static void fiber_entry(void)
{
    FIBER *f = cur;
    void  *ret = NULL;
    if (f->vfn) f->vfn(f->arg);
    else        ret = f->fn(f->arg);
    f->ret   = ret;
    f->state = F_DONE;
    schedule_block();
    abort();
}

static FIBER *new_fiber(void)
{
    FIBER *f;
    uintptr_t top;
    void **sp;
    if (nfibers >= MC_MAX_THREADS) return NULL;
    f = &fibers[nfibers];
    __real_memset(f, 0, sizeof(*f));
    f->id = nfibers++;
    {   /* stack allocated at a fixed place in the fiber's own arena */
        FIBER *save = cur;
        cur = f;
        top = (uintptr_t)arena_alloc(4096, STACK_SIZE) + STACK_SIZE;
        cur = save;
    }
    sp = (void **)(top & ~(uintptr_t)15);
    *--sp = 0;                        /* alignment / fake return */
    *--sp = (void *)fiber_entry;
    sp -= 6;
    f->sp = sp;
    f->state = F_READY;
    return f;
}

/* ------------------------------------------------------------------ scheduling */
static int runnable(FIBER *f)
{
    switch (f->state) {
        case F_READY:       return 1;
        case F_BLOCK_MUTEX: return ((int *)f->wait_obj)[0] == 0;
        case F_BLOCK_JOIN:  return fibers[f->join_target].state == F_DONE;
        default:            return 0;
    }
}

/* Decide the outcome of a choice point with n alternatives (0 = default). */
static int decide(int n, int flags)
{
    int alt = 0;
    if (n <= 1) return 0;
    if (npoints < MAX_PTS) R->nalt[npoints] = (uint8_t)((n > 15 ? 15 : n) | flags);
    if (plan && plan_pos < plan->ndev && plan->dev[plan_pos].point == npoints) {
        alt = plan->dev[plan_pos].alt;
        plan_pos++;
        if (alt >= n) {
            if (replaying) fprintf(stderr, "mc: schedule does not fit (point %u)\n", npoints);
            alt = 0;
        }
    }
    npoints++;
    return alt;
}

int mc_choose(int n)
{
    if (!exploring) return 0;
    return decide(n, 0x20);
}

static void deadlock(void)
{
    char buf[512]; int i, p = 0;
    for (i = 0; i < nfibers; i++)
        p += snprintf(buf + p, sizeof(buf) - (size_t)p, " T%d:%s", i,
            fibers[i].state == F_BLOCK_MUTEX ? "mutex" : fibers[i].state == F_BLOCK_COND ? "cond" :
            fibers[i].state == F_BLOCK_JOIN ? "join" : fibers[i].state == F_DONE ? "done" :
            fibers[i].state == F_BARRIER ? "barrier" : "?");
    mc_fail("deadlock:%s", buf);
}

/* Current fiber cannot continue (blocked, done or at barrier): pick another one. */
static void schedule_block(void)
{
    int cand[MC_MAX_THREADS], n = 0, i, start = cur ? cur->id : -1, pick;
    for (i = 1; i <= nfibers; i++) {
        FIBER *f = &fibers[(start + i) % nfibers];
        if (runnable(f)) cand[n++] = f->id;
    }
    if (!n) {
        int all = 1;
        for (i = 0; i < nfibers; i++)
            if (fibers[i].state != F_DONE && fibers[i].state != F_BARRIER) all = 0;
        if (all) { switch_to(NULL); return; }
        if (!R) { fprintf(stderr, "mc: deadlock in setup\n"); _exit(2); }
        deadlock();
    }
    pick = 0;
    if (exploring && n > 1) {
        /* prefer not-yielded threads by default */
        for (i = 0; i < n; i++)
            if (!fibers[cand[i]].yielded) { int t = cand[i]; __real_memmove(cand + 1, cand, sizeof(int) * (size_t)i); cand[0] = t; break; }
        pick = decide(n, 0);
    }
    if (cur) cur->yielded = 0;
    switch_to(&fibers[cand[pick]]);
}

/* A scheduling point of a runnable fiber. */
static void sched_point(int yield)
{
    int cand[MC_MAX_THREADS], n = 0, i, alt;
    FIBER *me = cur;
    if (!exploring || quiet || !cur) return;
    nsteps++;
    now_ctr++;
    if (nsteps > O.max_steps) mc_fail("no progress after %llu scheduling points (livelock)", (unsigned long long)nsteps);
    for (i = 1; i < nfibers; i++) {
        FIBER *f = &fibers[(me->id + i) % nfibers];
        if (runnable(f)) cand[n++] = f->id;
    }
    if (!n) { me->yielded = 0; return; }
    if (!yield && ++me->run_len > run_quantum) yield = 1;      /* fairness for spin loops */
    if (yield) {
        int k;
        me->yielded = 1;
        me->run_len = 0;
        for (k = 0; k < n; k++)
            if (!fibers[cand[k]].yielded) { int t = cand[k]; __real_memmove(cand + 1, cand, sizeof(int) * (size_t)k); cand[0] = t; break; }
        if (k == n) for (i = 0; i < nfibers; i++) if (&fibers[i] != me) fibers[i].yielded = 0;
        alt = decide(n, 0);
        switch_to(&fibers[cand[alt]]);
        return;
    }
    me->yielded = 0;
    alt = decide(n + 1, 0x10);
    if (alt) switch_to(&fibers[cand[alt - 1]]);
}

/* ------------------------------------------------------------------ access hooks */
static uint16_t *granule(uintptr_t a, uint8_t **c)
{
    if (in_region(a)) { *c = &conf[(a - ARENA_BASE) >> 3]; return &acc[(a - ARENA_BASE) >> 3]; }
    if (a - (uintptr_t)__data_start < (uintptr_t)(_end - __data_start)) {
        *c = &conf_glob[(a - (uintptr_t)__data_start) >> 3];
        return &acc_glob[(a - (uintptr_t)__data_start) >> 3];
    }
    return NULL;
}

static inline void access_hook(uintptr_t a, size_t size, int write)
{
    uint16_t *g;
    uint16_t  old, bits, nw;
    size_t    i, ng;
    int       point = 0;
    if (!exploring || !cur) return;
    if (in_region(a)) {
        uint8_t sh = shadow[(a - ARENA_BASE) >> 4];
        if (__builtin_expect(sh != 1, 0))
            mc_fail("%s of %s memory at %p", write ? "write" : "read", sh == 2 ? "freed" : "unallocated", (void *)a);
    }
    ng = ((a & 7) + size + 7) >> 3;
    bits = (uint16_t)((1u << cur->id) | (write ? 0x100u << cur->id : 0));
    for (i = 0; i < ng; i++) {
        uint8_t *c;
        g = granule(a + 8 * i, &c);
        if (!g) return;
        old = *g;
        if ((old & bits) != bits) {
            *g = nw = (uint16_t)(old | bits);
            if ((nw >> 8) && ((nw & 0xFF) & ((nw & 0xFF) - 1)) && !*c) {
                *c = 1;
                atomic_fetch_add(&S->conflicts, 1);
            }
        }
        if (*c) point = 1;
    }
    if (point) {
        uint32_t *v;
        sched_point(0);
        if (mc_verbose > 1 && nsteps < 500) mc_log("%s %p size %zu = %llx pc %p", write ? "W" : "R", (void *)a, size, *(unsigned long long *)(a & ~7ULL), __builtin_return_address(0));
        v = &wver[((a >> 3) * 0x9E3779B1u) >> (32 - WVER_BITS) & ((1u << WVER_BITS) - 1)];
        trace_hash += mix(((uint64_t)cur->id << 56) ^ (cur->local_step++ << 32) ^ ((uint64_t)*v << 1) ^ (uint64_t)write ^ mix(a));
        if (write) ++*v;
    }
}

void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
#define RW(n) \
 void __tsan_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
 void __tsan_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
 void __tsan_unaligned_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
 void __tsan_unaligned_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
 void __tsan_volatile_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
 void __tsan_volatile_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
 void __tsan_unaligned_volatile_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
 void __tsan_read##n##_pc(void *a, void *pc) { (void)pc; access_hook((uintptr_t)a, n, 0); } \
 void __tsan_write##n##_pc(void *a, void *pc) { (void)pc; access_hook((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access_hook((uintptr_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { if (n) access_hook((uintptr_t)a, n, 1); }
void __tsan_vptr_update(void **a, void *b) { (void)b; access_hook((uintptr_t)a, 8, 1); }
void __tsan_vptr_read(void **a) { access_hook((uintptr_t)a, 8, 0); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; sched_point(0); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 0); return *a; } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)(o + v); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)(o - v); return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)(o & v); return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)(o | v); return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)(o ^ v); return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; access_hook((uintptr_t)a, sizeof(T), 1); T o = *a; *a = (T)~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; \
    access_hook((uintptr_t)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void *__wrap_memcpy(void *d, const void *s, size_t n)
{ if (n) { access_hook((uintptr_t)s, n, 0); access_hook((uintptr_t)d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n)
{ if (n) { access_hook((uintptr_t)s, n, 0); access_hook((uintptr_t)d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n)
{ if (n) access_hook((uintptr_t)d, n, 1); return __real_memset(d, c, n); }

/* ------------------------------------------------------------------ pthread stand-ins */
/* mutex layout: [0] owner+1, [1] recursion, [2] type (0 normal, 1 recursive, 2 errorcheck) */
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    int t = a ? *(const int *)a : 0;
    __real_memset(m, 0, sizeof(*m));
    ((int *)m)[2] = t == PTHREAD_MUTEX_RECURSIVE ? 1 : t == PTHREAD_MUTEX_ERRORCHECK ? 2 : 0;
    return 0;
}
static void sync_check(void *p, const char *what)
{
    uintptr_t a = (uintptr_t)p;
    if (exploring && in_region(a) && shadow[(a - ARENA_BASE) >> 4] != 1)
        mc_fail("%s on freed memory", what);
}
static int self_id(void) { return cur ? cur->id + 1 : 1000; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    sync_check(m, "mutex destroy");
    if (exploring && ((int *)m)[0]) mc_fail("destroying a locked mutex");
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    int *w = (int *)m;
    sync_check(m, "mutex lock");
    sched_point(0);
    sync_check(m, "mutex lock");
    if (w[0] == self_id()) {
        if (w[2] == 1) { w[1]++; return 0; }
        if (w[2] == 2) return EDEADLK;
    }
    while (w[0]) {
        if (!cur) { fprintf(stderr, "mc: main blocked on mutex\n"); abort(); }
        cur->state = F_BLOCK_MUTEX; cur->wait_obj = m;
        schedule_block();
        cur->state = F_READY;
        sync_check(m, "mutex lock");
    }
    w[0] = self_id(); w[1] = 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    int *w = (int *)m;
    sched_point(0);
    if (w[0] == self_id() && w[2] == 1) { w[1]++; return 0; }
    if (w[0]) return EBUSY;
    w[0] = self_id(); w[1] = 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    int *w = (int *)m;
    sync_check(m, "mutex unlock");
    if (w[2] && w[0] != self_id()) return EPERM;
    if (w[2] == 1 && --w[1]) return 0;
    w[0] = 0; w[1] = 0;
    sched_point(0);
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; __real_memset(c, 0, sizeof(*c)); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    int i;
    sync_check(c, "cond destroy");
    if (exploring) for (i = 0; i < nfibers; i++)
        if (fibers[i].state == F_BLOCK_COND && fibers[i].wait_obj == c) mc_fail("destroying a condition variable with waiters");
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    int *w = (int *)m;
    int  depth = w[1];
    sync_check(c, "cond wait");
    if (exploring && w[0] != self_id()) mc_fail("condition wait without holding the mutex");
    if (!cur) { fprintf(stderr, "mc: main blocked on cond\n"); abort(); }
    w[0] = 0; w[1] = 0;
    cur->state = F_BLOCK_COND; cur->wait_obj = c; cur->wait_mutex = m;
    schedule_block();
    /* woken: state is F_BLOCK_MUTEX, resumed when the mutex is free */
    cur->state = F_READY;
    while (w[0]) {
        cur->state = F_BLOCK_MUTEX; cur->wait_obj = m;
        schedule_block();
        cur->state = F_READY;
    }
    w[0] = self_id(); w[1] = depth;
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{ (void)t; return __wrap_pthread_cond_wait(c, m); }
static void wake(FIBER *f) { f->state = F_BLOCK_MUTEX; f->wait_obj = f->wait_mutex; }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    int cand[MC_MAX_THREADS], n = 0, i;
    sync_check(c, "cond signal");
    sched_point(0);
    for (i = 0; i < nfibers; i++)
        if (fibers[i].state == F_BLOCK_COND && fibers[i].wait_obj == c) cand[n++] = i;
    if (n) wake(&fibers[cand[exploring ? decide(n, 0) : 0]]);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    int i;
    sync_check(c, "cond broadcast");
    sched_point(0);
    for (i = 0; i < nfibers; i++)
        if (fibers[i].state == F_BLOCK_COND && fibers[i].wait_obj == c) wake(&fibers[i]);
    return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    FIBER *f;
    (void)a;
    sched_point(0);
    f = new_fiber();
    if (!f) return EAGAIN;
    f->fn = fn; f->arg = arg;
    *t = (pthread_t)(f->id + 1);
    sched_point(0);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret)
{
    int id = (int)t - 1;
    if (id < 0 || id >= nfibers || fibers[id].joined) {
        if (exploring) mc_fail("join of an invalid or already joined thread");
        return EINVAL;
    }
    if (cur && cur->id == id) return EDEADLK;
    sched_point(0);
    if (fibers[id].joined && exploring) mc_fail("thread joined twice");
    while (fibers[id].state != F_DONE) {
        if (!cur) { fprintf(stderr, "mc: main blocked on join\n"); abort(); }
        cur->state = F_BLOCK_JOIN; cur->join_target = id;
        schedule_block();
        cur->state = F_READY;
    }
    fibers[id].joined = 1;
    if (ret) *ret = fibers[id].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { int id = (int)t - 1; if (id >= 0 && id < nfibers) fibers[id].detached = 1; return 0; }
pthread_t __wrap_pthread_self(void) { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)1000; }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static int  nkeys;
static void *main_tls[64];
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { (void)d; if (nkeys >= 64) return EAGAIN; *k = (pthread_key_t)nkeys++; return 0; }
int __wrap_pthread_key_delete(pthread_key_t k) { (void)k; return 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { return cur ? cur->tls[k] : main_tls[k]; }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v)
{ if (cur) cur->tls[k] = (void *)v; else main_tls[k] = (void *)v; return 0; }
int __wrap_sched_yield(void) { sched_point(1); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; sched_point(1); return 0; }
int __wrap_usleep(unsigned us) { (void)us; sched_point(1); return 0; }

/* ------------------------------------------------------------------ harness interface */
int mc_spawn(void (*fn)(void *), void *arg)
{
    FIBER *f = new_fiber();
    if (!f) { fprintf(stderr, "mc: too many threads\n"); _exit(2); }
    f->vfn = fn; f->arg = arg;
    return f->id;
}

void mc_barrier(void)
{
    cur->state = F_BARRIER;
    schedule_block();
}

/* run all fibers until they are all done or at the barrier */
static void run_fibers(void)
{
    int i;
    for (;;) {
        for (i = 0; i < nfibers; i++) if (runnable(&fibers[i])) break;
        if (i == nfibers) break;
        if (exploring) {
            int cand[MC_MAX_THREADS], n = 0, k;
            for (k = 0; k < nfibers; k++) if (runnable(&fibers[k])) cand[n++] = k;
            i = cand[decide(n, 0)];
        }
        switch_to(&fibers[i]);
    }
    for (i = 0; i < nfibers; i++)
        if (fibers[i].state != F_DONE && fibers[i].state != F_BARRIER) {
            if (R) deadlock();
            fprintf(stderr, "mc: deadlock in setup\n"); _exit(2);
        }
}

static void exec_body(void (*finish)(void))
{
    int i;
    for (i = 0; i < nfibers; i++) if (fibers[i].state == F_BARRIER) fibers[i].state = F_READY;
    exploring = 1;
    run_fibers();
    exploring = 0;
    cur = NULL;
    if (finish) finish();
    die_ok();
}

static void lock_s(void)
{
    int z = 0, spins = 0;
    while (!atomic_compare_exchange_weak(&S->lock, &z, 1)) { z = 0; if (++spins > 100) { struct timespec ts = {0, 20000}; syscall(35, &ts, 0); } }
}
static void unlock_s(void) { atomic_store(&S->lock, 0); }

static void format_schedule(const ITEM *it, char *buf, size_t n)
{
    size_t p = 0; int i;
    buf[0] = 0;
    for (i = 0; i < it->ndev; i++)
        p += (size_t)snprintf(buf + p, n - p, "%s%u:%u", i ? "," : "", it->dev[i].point, it->dev[i].alt);
    if (!it->ndev) snprintf(buf, n, "-");
}

static void record_violation(const ITEM *it, const char *msg)
{
    lock_s();
    if (!S->violation) {
        S->violation = 1;
        snprintf(S->msg, sizeof(S->msg), "%s", msg);
        format_schedule(it, S->schedule, sizeof(S->schedule));
    }
    unlock_s();
    atomic_store(&S->stop, 1);
}

static int hash_insert(uint64_t h)
{
    size_t i, m = (1UL << HASHSET_BITS) - 1;
    if (!h) h = 1;
    for (i = h & m; ; i = (i + 1) & m) {
        uint64_t v = __atomic_load_n(&S->hashset[i], __ATOMIC_RELAXED);
        if (v == h) return 0;
        if (!v) {
            if (__atomic_compare_exchange_n(&S->hashset[i], &v, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1;
            if (v == h) return 0;
        }
    }
}

static void run_one(const ITEM *it, void (*finish)(void))
{
    pid_t pid;
    int   st = 0, attempt;
    for (attempt = 0; attempt < 2; attempt++) {
        R->status = 0; R->npoints = 0; R->msg[0] = 0;
        pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (!pid) {
            plan = it; plan_pos = 0;
            alarm(attempt ? 240 : 40);
            exec_body(finish);
        }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
        /* a timed-out execution is re-run alone with a longer limit before it is called a hang */
        if (R->status || !WIFSIGNALED(st) || WTERMSIG(st) != SIGALRM) break;
    }
    atomic_fetch_add(&S->execs, 1);
    if (R->status == 2) { record_violation(it, R->msg); return; }
    if (WIFSIGNALED(st)) {
        char m[128];
        snprintf(m, sizeof(m), WTERMSIG(st) == SIGALRM ? "execution does not terminate (signal %d)" : "crash, signal %d", WTERMSIG(st));
        record_violation(it, m);
        return;
    }
    if (R->status != 1) {
        char m[128];
        snprintf(m, sizeof(m), "execution ended abnormally, exit status %d", WEXITSTATUS(st));
        record_violation(it, m);
        return;
    }
    atomic_fetch_add(&S->steps, R->steps);
    atomic_fetch_add(&S->points, R->npoints);
    if (R->npoints >= MAX_PTS) atomic_store(&S->overflow, 1);
    {
        unsigned long long mp = atomic_load(&S->max_points);
        while (R->npoints > mp && !atomic_compare_exchange_weak(&S->max_points, &mp, R->npoints)) { }
    }
    if (atomic_load(&S->distinct) < (1UL << (HASHSET_BITS - 1)) && hash_insert(R->hash)) atomic_fetch_add(&S->distinct, 1);
    if (it->ndev < MAX_DEV && it->ndev < O.total_bound) {
        uint32_t p, from = it->ndev ? it->dev[it->ndev - 1].point + 1 : 0;
        lock_s();
        for (p = R->npoints; p-- > from; ) {
            int n = R->nalt[p] & 15, pre = !!(R->nalt[p] & 0x10), a;
            if (pre && it->npre >= O.preempt_bound) continue;
            if (!pre && it->nfree >= O.free_bound) continue;
            for (a = n - 1; a >= 1; a--) {
                ITEM *w;
                if (S->top >= S->cap) { atomic_store(&S->overflow, 1); break; }
                w = &stack_items[S->top++];
                *w = *it;
                w->dev[w->ndev].point = p; w->dev[w->ndev].alt = (uint8_t)a; w->ndev++;
                if (pre) w->npre++; else w->nfree++;
            }
        }
        unlock_s();
    }
}

static void worker(void (*finish)(void))
{
    ITEM it;
    int  was_idle = 0;
    time_t t0 = time(NULL);
    for (;;) {
        int got = 0;
        if (atomic_load(&S->stop)) break;
        if (O.time_limit && time(NULL) - t0 > O.time_limit) { atomic_store(&S->overflow, 1); break; }
        lock_s();
        if (S->top) { it = stack_items[--S->top]; got = 1; if (was_idle) { atomic_fetch_sub(&S->idle, 1); was_idle = 0; } }
        else if (!was_idle) { atomic_fetch_add(&S->idle, 1); was_idle = 1; }
        unlock_s();
        if (!got) {
            if (atomic_load(&S->idle) >= O.workers) break;
            struct timespec ts = {0, 100000};
            syscall(35, &ts, 0);
            continue;
        }
        if (atomic_load(&S->execs) >= O.max_execs) { atomic_store(&S->overflow, 1); break; }
        run_one(&it, finish);
    }
}

static RESULT *new_result(void)
{
    return mmap(0, sizeof(RESULT), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static void explore_round(void (*finish)(void))
{
    __real_memset(&stack_items[0], 0, sizeof(ITEM));
    S->top = 1;
    atomic_store(&S->idle, 0); atomic_store(&S->stop, 0); atomic_store(&S->overflow, 0); atomic_store(&S->lock, 0);
    atomic_store(&S->execs, 0); atomic_store(&S->steps, 0); atomic_store(&S->points, 0); atomic_store(&S->distinct, 0); atomic_store(&S->max_points, 0);
    if (O.workers <= 1) {
        static RESULT *r;
        if (!r) r = new_result();
        R = r;
        O.workers = 1;
        worker(finish);
        R = NULL;
    } else {
        int i;
        for (i = 0; i < O.workers; i++) {
            pid_t p = fork();
            if (!p) { R = new_result(); worker(finish); _exit(0); }
        }
        for (i = 0; i < O.workers; i++) { int st; wait(&st); }
    }
}

int mc_explore(const MC_OPTS *opts, void (*finish)(void), MC_STATS *stats)
{
    unsigned long long before;
    uint64_t total = 0, tsteps = 0;
    int rounds = 0, final_pre, final_total;
    static size_t hs_size = 8UL << HASHSET_BITS;
    O = *opts;
    if (!O.max_steps) O.max_steps = 200000;
    if (!O.max_execs) O.max_execs = 50000000;
    if (!O.total_bound) O.total_bound = MAX_DEV;
    __real_memset(stats, 0, sizeof(*stats));
    S->cap = 6000000;
    if (!stack_items) {
        stack_items = mmap(0, S->cap * sizeof(ITEM), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        S->hashset  = mmap(0, hs_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    S->violation = 0;
    run_fibers();                      /* bring every fiber to its barrier */
    final_pre = O.preempt_bound; final_total = O.total_bound;
    /* learn the set of conflicting locations: repeat at growing bounds until it is stable */
    for (;;) {
        int learn = rounds == 0 && final_pre > 0;
        if (S->hashset) madvise(S->hashset, hs_size, MADV_REMOVE);
        before = atomic_load(&S->conflicts);
        if (learn) { O.preempt_bound = 0; O.total_bound = O.free_bound < 2 ? O.free_bound : 2; }
        else { O.preempt_bound = final_pre; O.total_bound = final_total; }
        if (rounds == 1 && final_pre > 1) O.preempt_bound = 1;
        explore_round(finish);
        rounds++;
        total += atomic_load(&S->execs); tsteps += atomic_load(&S->steps);
        if (S->violation) break;
        if (atomic_load(&S->overflow)) break;
        if (O.preempt_bound == final_pre && O.total_bound == final_total && atomic_load(&S->conflicts) == before) break;
        if (rounds > 12) break;
    }
    stats->execs = total; stats->steps = tsteps;
    stats->points = atomic_load(&S->points);
    stats->distinct = atomic_load(&S->distinct);
    stats->max_points = atomic_load(&S->max_points);
    stats->conflicts = atomic_load(&S->conflicts);
    stats->rounds = (uint64_t)rounds;
    stats->exhaustive = !S->violation && !atomic_load(&S->overflow) && rounds <= 12;
    stats->violation = S->violation;
    if (S->violation) { __real_memcpy(stats->msg, S->msg, sizeof(stats->msg)); __real_memcpy(stats->schedule, S->schedule, sizeof(stats->schedule)); }
    return S->violation;
}

/* The set of scheduling points depends on the learned conflict set, so a replay re-learns it first. */
int mc_replay(const MC_OPTS *opts, const char *schedule, void (*finish)(void))
{
    MC_STATS st;
    (void)schedule;
    mc_explore(opts, finish, &st);
    if (!st.violation) { printf("no violation found on re-exploration\n"); return 0; }
    printf("schedule %s: %s\n", st.schedule, st.msg);
    {
        ITEM it; const char *p = st.schedule; pid_t pid; int s;
        __real_memset(&it, 0, sizeof(it));
        while (*p && *p != '-') {
            it.dev[it.ndev].point = (uint32_t)strtoul(p, (char **)&p, 10); p++;
            it.dev[it.ndev].alt = (uint8_t)strtoul(p, (char **)&p, 10); it.ndev++;
            if (*p == ',') p++;
        }
        R = new_result();
        mc_verbose = getenv("MC_TRACE") ? 2 : 1; replaying = 1;
        fflush(stdout);
        pid = fork();
        if (!pid) { plan = &it; plan_pos = 0; alarm(60); exec_body(finish); }
        waitpid(pid, &s, 0);
    }
    return 1;
}
