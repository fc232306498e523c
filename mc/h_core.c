/* Harness for C01 (objects), C02 (arrays), C03 (buffers): reads scenarios, explores all schedules of each.
 *
 * Scenario syntax:  <kind>:<init ops>|<thread 0 ops>|<thread 1 ops>...
 *   kind o (object): s<K><v> set, g<K> get, d<K> delete, w walk(shallow keys)      K in A..Z
 *   kind a (array):  p<v> push, r<i> read, w<i><v> write, c<i><o><n> cas, f<b><e><v> fill, R<n> reserve, z size, l<b><e> slice
 *   kind b (buffer): m<n> make room of n*16 bytes, R<n> reserve n*64 bytes
 * All values are single digits.
 */
#include "mc_rt.h"
#include "inc/kos_array.h"
#include "inc/kos_buffer.h"
#include "inc/kos_error.h"
#include "inc/kos_instance.h"
#include "inc/kos_object.h"
#include "inc/kos_string.h"
#include "inc/kos_utils.h"
#include "inc/kos_entity.h"
#include "inc/kos_atomic.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

#define MAXOPS 24
#define MAXSTEP 8
#define ABSENT  (-1)

typedef struct {
    char     c;             /* operation letter */
    int      k, a, b, v;    /* key/index, args */
    int      tid;
    uint64_t inv, resp;     /* 0 = not executed */
    int      res;           /* result value */
    int      list[16], nlist;
    int      nsteps;        /* micro steps in the model */
} OP;

static OP           ops[MAXOPS];
static int          nops;
static int          tops[MC_MAX_THREADS][MAXOPS], ntops[MC_MAX_THREADS], nthr;
static char         kind;
static KOS_INSTANCE inst;
static KOS_CONTEXT  mctx;
static struct KOS_THREAD_CONTEXT_S tctx[MC_MAX_THREADS];
static KOS_LOCAL    target;
static KOS_LOCAL    keys[26];
static const char  *scen;

static int dig(const char **p) { char c = *(*p)++; if (c < '0' || c > '9') { fprintf(stderr, "bad scenario %s\n", scen); _exit(2); } return c - '0'; }

static void parse_ops(const char **pp, int tid)
{
    const char *p = *pp;
    while (*p && *p != '|') {
        OP o; memset(&o, 0, sizeof(o));
        if (*p == ',') { p++; continue; }
        o.c = *p++; o.tid = tid; o.nsteps = 1;
        if (kind == 'o') {
            if (o.c != 'w') { o.k = *p++ - 'A'; }
            if (o.c == 's') o.v = dig(&p);
            if (o.c == 'w') o.nsteps = 0;
        } else if (kind == 'a') {
            switch (o.c) {
                case 'p': o.v = dig(&p); o.nsteps = 2; break;
                case 'r': o.k = dig(&p); break;
                case 'w': o.k = dig(&p); o.v = dig(&p); break;
                case 'c': o.k = dig(&p); o.a = dig(&p); o.v = dig(&p); break;
                case 'f': o.a = dig(&p); o.b = dig(&p); o.v = dig(&p); o.nsteps = o.b - o.a + 1; break;
                case 'R': o.a = dig(&p); break;
                case 'z': break;
                case 'l': o.a = dig(&p); o.b = dig(&p); o.nsteps = o.b - o.a + 1; break;
                default: fprintf(stderr, "bad op in %s\n", scen); _exit(2);
            }
        } else {
            o.a = dig(&p);
        }
        if (tid >= 0) { tops[tid][ntops[tid]++] = nops; }
        ops[nops++] = o;
    }
    *pp = p;
}

static int val(KOS_CONTEXT ctx, KOS_OBJ_ID v)
{
    if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); return ABSENT; }
    if (IS_SMALL_INT(v)) return (int)GET_SMALL_INT(v);
    mc_fail("%s: operation returned a value that was never stored", scen);
}

static uint32_t buf_cap(KOS_OBJ_ID b)
{
    KOS_OBJ_ID s = KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, b)->data);
    return IS_BAD_PTR(s) ? 0 : KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER_STORAGE, s)->capacity);
}

static void run_op(KOS_CONTEXT ctx, OP *o)
{
    KOS_OBJ_ID t = target.o, r;
    o->inv = mc_now();
    mc_log("invoke %c k=%d a=%d b=%d v=%d", o->c, o->k, o->a, o->b, o->v);
    if (kind == 'o') {
        KOS_OBJ_ID k = keys[o->k].o;
        switch (o->c) {
            case 's': if (KOS_set_property(ctx, t, k, TO_SMALL_INT(o->v))) mc_fail("%s: set failed", scen); break;
            case 'g': r = KOS_get_property_with_depth(ctx, t, k, KOS_SHALLOW); o->res = val(ctx, r); break;
            case 'd': if (KOS_delete_property(ctx, t, k)) mc_fail("%s: delete failed", scen); break;
            case 'w': {
                KOS_LOCAL it; int more;
                KOS_init_local(ctx, &it);
                it.o = KOS_new_iterator(ctx, t, KOS_SHALLOW);
                if (IS_BAD_PTR(it.o)) mc_fail("%s: walk failed", scen);
                while ((more = KOS_iterator_next(ctx, it.o)) == KOS_SUCCESS) {
                    KOS_OBJ_ID k2 = KOS_get_walk_key(it.o);
                    KOS_OBJ_ID v2 = KOS_get_walk_value(it.o);
                    int i;
                    for (i = 0; i < 26; i++) if (!KOS_string_compare(k2, keys[i].o)) break;
                    if (i == 26) mc_fail("%s: walk lists a key that was never set", scen);
                    if (o->nlist < 16) o->list[o->nlist++] = i * 16 + val(ctx, v2);
                    else mc_fail("%s: walk does not end", scen);
                }
                if (more != KOS_ERROR_NOT_FOUND) mc_fail("%s: walk ended with an error", scen);
                KOS_destroy_top_local(ctx, &it);
                break;
            }
        }
    } else if (kind == 'a') {
        uint32_t idx = 0;
        switch (o->c) {
            case 'p': if (KOS_array_push(ctx, t, TO_SMALL_INT(o->v), &idx)) mc_fail("%s: push failed", scen); o->res = (int)idx; break;
            case 'r': o->res = val(ctx, KOS_array_read(ctx, t, o->k)); break;
            case 'w': if (KOS_array_write(ctx, t, o->k, TO_SMALL_INT(o->v))) { KOS_clear_exception(ctx); o->res = ABSENT; } else o->res = 0; break;
            case 'c': o->res = val(ctx, KOS_array_cas(ctx, t, o->k, TO_SMALL_INT(o->a), TO_SMALL_INT(o->v))); break;
            case 'f': if (KOS_array_fill(ctx, t, o->a, o->b, TO_SMALL_INT(o->v))) mc_fail("%s: fill failed", scen); break;
            case 'R': if (KOS_array_reserve(ctx, t, (uint32_t)o->a)) mc_fail("%s: reserve failed", scen); break;
            case 'z': o->res = (int)KOS_get_array_size(t); break;
            case 'l': {
                KOS_LOCAL s; uint32_t i, n;
                KOS_init_local_with(ctx, &s, KOS_array_slice(ctx, t, o->a, o->b));
                if (IS_BAD_PTR(s.o)) mc_fail("%s: slice failed", scen);
                n = KOS_get_array_size(s.o);
                if (n > 15) mc_fail("%s: slice too long", scen);
                for (i = 0; i < n; i++) o->list[o->nlist++] = val(ctx, KOS_array_read(ctx, s.o, (int)i));
                KOS_destroy_top_local(ctx, &s);
                break;
            }
        }
    } else {
        if (o->c == 'm') {
            uint8_t *p = KOS_buffer_make_room(ctx, t, (unsigned)o->a * 16);
            KOS_OBJ_ID s;
            if (!p) mc_fail("%s: make room failed", scen);
            mc_quiet(1);
            s = KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, t)->data);
            if (p >= OBJPTR(BUFFER_STORAGE, s)->ptr && p < OBJPTR(BUFFER_STORAGE, s)->ptr + buf_cap(t))
                o->res = (int)(p - OBJPTR(BUFFER_STORAGE, s)->ptr);
            else
                o->res = ABSENT;
            if (KOS_get_buffer_size(t) > buf_cap(t))
                mc_fail("%s: buffer size %u exceeds its storage %u", scen, KOS_get_buffer_size(t), buf_cap(t));
            mc_quiet(0);
        } else if (o->c == 'R') {
            if (KOS_buffer_reserve(ctx, t, (unsigned)o->a * 64)) mc_fail("%s: reserve failed", scen);
        } else { fprintf(stderr, "bad op %s\n", scen); _exit(2); }
    }
    o->resp = mc_now();
    mc_log("return %c k=%d -> %d", o->c, o->k, o->res);
}

static void thread_body(void *arg)
{
    int tid = (int)(intptr_t)arg, i;
    KOS_CONTEXT ctx = &tctx[tid];
    if (KOS_instance_register_thread(&inst, ctx)) { fprintf(stderr, "register failed\n"); _exit(2); }
    (void)KOS_new_float(ctx, 1.0);      /* gives the thread its own heap page */
    mc_barrier();
    for (i = 0; i < ntops[tid]; i++) run_op(ctx, &ops[tops[tid][i]]);
}

/* ------------------------------------------------------------- model */
typedef struct { int n; int v[32]; } ST;     /* array: size + slots; object: v[key] (ABSENT) */
static int pos[MAXOPS];
static uint64_t budget;

/* apply micro step `s` of op o to state; return 0 if it contradicts the observed result */
static int step(OP *o, int s, ST *st)
{
    if (kind == 'o') {
        switch (o->c) {
            case 's': st->v[o->k] = o->v; return 1;
            case 'd': st->v[o->k] = ABSENT; return 1;
            case 'g': return st->v[o->k] == o->res;
        }
        return 1;
    }
    switch (o->c) {
        case 'p':
            if (s == 0) { if (st->n != o->res) return 0; st->v[st->n++] = ABSENT; }
            else st->v[o->res] = o->v;
            return 1;
        case 'r': return (o->k < st->n ? st->v[o->k] : ABSENT) == o->res;
        case 'w':
            if (o->k >= st->n || st->v[o->k] == ABSENT) return o->res == ABSENT;
            if (o->res == ABSENT) return 0;
            st->v[o->k] = o->v; return 1;
        case 'c': {
            int cur = o->k < st->n ? st->v[o->k] : ABSENT;
            if (cur != o->res) return 0;
            if (cur == o->a) st->v[o->k] = o->v;
            return 1;
        }
        case 'f':       /* step 0 samples the size, then one slot per step, stops at an unset slot */
            if (s == 0) { o->nlist = st->n < o->b ? st->n : o->b; return 1; }
            { int i = o->a + s - 1; if (i >= o->nlist) return 1; if (st->v[i] == ABSENT) { o->nlist = i; return 1; } st->v[i] = o->v; return 1; }
        case 'R': return 1;
        case 'z': return st->n == o->res;
        case 'l':
            if (s == 0) { o->res = st->n < o->b ? st->n : o->b; if (o->res < o->a) o->res = o->a; return o->nlist <= o->res - o->a; }
            {
                int i = o->a + s - 1;
                if (s - 1 < o->nlist) return st->v[i] == o->list[s - 1];
                if (s - 1 == o->nlist && i < o->res) return st->v[i] == ABSENT;
                return 1;
            }
    }
    return 0;
}

static int first_step_ok(int i)
{
    int j;
    for (j = 0; j < nops; j++)
        if (j != i && ops[j].resp && pos[j] < ops[j].nsteps && ops[j].resp < ops[i].inv) return 0;
    return 1;
}

static int linearize(ST *st, ST *fin)
{
    int i, done = 1;
    if (!budget--) mc_fail("%s: linearization search budget exceeded", scen);
    for (i = 0; i < nops; i++) {
        if (pos[i] >= ops[i].nsteps) continue;
        done = 0;
        if (pos[i] == 0 && !first_step_ok(i)) continue;
        {
            ST nst = *st;
            int snl = ops[i].nlist, sres = ops[i].res;
            if (step(&ops[i], pos[i], &nst)) {
                pos[i]++;
                if (linearize(&nst, fin)) return 1;
                pos[i]--;
            }
            ops[i].nlist = snl; ops[i].res = sres;
        }
    }
    if (done) return !memcmp(st, fin, sizeof(*st));
    return 0;
}

static void describe(char *buf, size_t n)
{
    size_t p = 0; int i;
    buf[0] = 0;
    for (i = 0; i < nops && p < n - 64; i++)
        p += (size_t)snprintf(buf + p, n - p, "T%d:%c%d/%d->%d@%llu-%llu ", ops[i].tid, ops[i].c, ops[i].k, ops[i].v, ops[i].res,
                              (unsigned long long)ops[i].inv, (unsigned long long)ops[i].resp);
}

static ST init_state;

static void finish(void)
{
    ST fin; int i, j; char d[700];
    memset(&fin, 0, sizeof(fin));
    for (i = 0; i < nops; i++) if (ops[i].tid >= 0 && !ops[i].resp) mc_fail("%s: operation never completed", scen);
    if (kind == 'o') {
        for (i = 0; i < 26; i++) fin.v[i] = val(mctx, KOS_get_property_with_depth(mctx, target.o, keys[i].o, KOS_SHALLOW));
        /* the final key listing must agree with the final reads */
        {
            OP w; memset(&w, 0, sizeof(w)); w.c = 'w';
            run_op(mctx, &w);
            for (i = 0; i < 26; i++) {
                int cnt = 0;
                for (j = 0; j < w.nlist; j++) if (w.list[j] / 16 == i) { cnt++; if (w.list[j] % 16 != fin.v[i]) mc_fail("%s: listing shows another value than reading", scen); }
                if (cnt != (fin.v[i] != ABSENT)) mc_fail("%s: key %c listed %d times, present %d", scen, 'A' + i, cnt, fin.v[i] != ABSENT);
            }
        }
    } else if (kind == 'a') {
        fin.n = (int)KOS_get_array_size(target.o);
        if (fin.n > 31) mc_fail("%s: array too big", scen);
        for (i = 0; i < fin.n; i++) {
            fin.v[i] = val(mctx, KOS_array_read(mctx, target.o, i));
            if (fin.v[i] == ABSENT) mc_fail("%s: element %d of %d unreadable at the end", scen, i, fin.n);
        }
    } else {
        uint32_t want = (uint32_t)init_state.n, sz = KOS_get_buffer_size(target.o);
        uint8_t *p;
        for (i = 0; i < nops; i++) if (ops[i].tid >= 0 && ops[i].c == 'm') want += (uint32_t)ops[i].a * 16;
        if (sz != want) mc_fail("%s: final size %u, expected %u", scen, sz, want);
        if (sz > buf_cap(target.o)) mc_fail("%s: final size %u exceeds storage %u", scen, sz, buf_cap(target.o));
        p = sz ? KOS_buffer_data_volatile(mctx, target.o) : NULL;
        for (i = 0; i < init_state.n; i++) if (p[i] != (uint8_t)(i * 7 + 3)) mc_fail("%s: old byte %d lost", scen, i);
        for (i = 0; i < nops; i++) {
            if (ops[i].tid < 0 || ops[i].c != 'm' || ops[i].res == ABSENT) continue;
            if (ops[i].res < init_state.n || (uint32_t)(ops[i].res + ops[i].a * 16) > sz) mc_fail("%s: region outside buffer", scen);
            for (j = 0; j < i; j++) {
                if (ops[j].tid < 0 || ops[j].c != 'm' || ops[j].res == ABSENT) continue;
                if (ops[i].res < ops[j].res + ops[j].a * 16 && ops[j].res < ops[i].res + ops[i].a * 16)
                    mc_fail("%s: overlapping regions at %d and %d", scen, ops[i].res, ops[j].res);
            }
        }
        return;
    }
    /* walks: weak oracle */
    if (kind == 'o') for (i = 0; i < nops; i++) if (ops[i].c == 'w' && ops[i].tid >= 0) {
        int k;
        for (k = 0; k < 26; k++) {
            int cnt = 0, everset = init_state.v[k] != ABSENT, stable = everset;
            for (j = 0; j < ops[i].nlist; j++) if (ops[i].list[j] / 16 == k) cnt++;
            for (j = 0; j < nops; j++) if (ops[j].tid >= 0 && ops[j].k == k) {
                if (ops[j].c == 's') everset = 1;
                if (ops[j].c == 'd') stable = 0;
            }
            if (cnt > 1) mc_fail("%s: key %c listed %d times by a concurrent walk", scen, 'A' + k, cnt);
            if (cnt && !everset) mc_fail("%s: key %c listed but never set", scen, 'A' + k);
            if (!cnt && stable) mc_fail("%s: key %c missing from a concurrent walk", scen, 'A' + k);
            for (j = 0; j < ops[i].nlist; j++) if (ops[i].list[j] / 16 == k) {
                int v = ops[i].list[j] % 16, ok = init_state.v[k] == v, m;
                for (m = 0; m < nops; m++) if (ops[m].tid >= 0 && ops[m].c == 's' && ops[m].k == k && ops[m].v == v) ok = 1;
                if (!ok) mc_fail("%s: walk lists a value never stored under key %c", scen, 'A' + k);
            }
        }
    }
    for (i = 0; i < nops; i++) pos[i] = ops[i].tid < 0 ? ops[i].nsteps : 0;
    budget = 20000000;
    if (!linearize(&init_state, &fin)) {
        describe(d, sizeof(d));
        mc_fail("%s: history is not explained by any order: %s", scen, d);
    }
}

static void setup(const char *s)
{
    const char *p = s + 2;
    int i;
    scen = s; kind = s[0];
    for (i = 0; i < MAXOPS; i++) memset(&ops[i], 0, sizeof(OP));
    nops = nthr = 0; memset(ntops, 0, sizeof(ntops));
    if (KOS_instance_init(&inst, KOS_INST_MANUAL_GC, &mctx)) { fprintf(stderr, "instance init failed\n"); _exit(2); }
    KOS_init_local(mctx, &target);
    for (i = 0; i < 26; i++) { char b[2] = { (char)('A' + i), 0 }; KOS_init_local(mctx, &keys[i]); keys[i].o = KOS_new_cstring(mctx, b); }
    target.o = kind == 'o' ? KOS_new_object(mctx) : kind == 'a' ? KOS_new_array(mctx, 0) : KOS_new_buffer(mctx, 0);
    if (IS_BAD_PTR(target.o)) _exit(2);
    parse_ops(&p, -1);
    for (i = 0; i < nops; i++) {
        if (kind == 'b' && ops[i].c == 'm') {
            uint8_t *q; int j, n = (int)KOS_get_buffer_size(target.o);
            KOS_buffer_resize(mctx, target.o, (unsigned)(n + ops[i].a * 16));
            q = KOS_buffer_data_volatile(mctx, target.o);
            for (j = 0; j < n + ops[i].a * 16; j++) q[j] = (uint8_t)(j * 7 + 3);
        }
        else run_op(mctx, &ops[i]);
    }
    memset(&init_state, 0, sizeof(init_state));
    if (kind == 'o') for (i = 0; i < 26; i++) init_state.v[i] = val(mctx, KOS_get_property_with_depth(mctx, target.o, keys[i].o, KOS_SHALLOW));
    else if (kind == 'a') { init_state.n = (int)KOS_get_array_size(target.o); for (i = 0; i < init_state.n; i++) init_state.v[i] = val(mctx, KOS_array_read(mctx, target.o, i)); }
    else init_state.n = (int)KOS_get_buffer_size(target.o);
    while (*p == '|') { p++; parse_ops(&p, nthr++); }
    for (i = 0; i < nthr; i++) mc_spawn(thread_body, (void *)(intptr_t)i);
}

int main(int argc, char **argv)
{
    MC_OPTS o; char line[256]; FILE *f; int replay = 0, bad = 0;
    mc_init();
    memset(&o, 0, sizeof(o));
    o.preempt_bound = 2; o.free_bound = 4; o.workers = 1;
    if (argc < 2) return 2;
    if (argc > 2) o.preempt_bound = atoi(argv[2]);
    if (argc > 3) o.workers = atoi(argv[3]);
    if (argc > 4) replay = atoi(argv[4]);
    if (argc > 5) o.time_limit = atoi(argv[5]);
    if (argc > 6) o.free_bound = atoi(argv[6]);
    f = strcmp(argv[1], "-") ? fopen(argv[1], "r") : stdin;
    if (!f) return 2;
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (fgets(line, sizeof(line), f)) {
        pid_t pid; int st;
        line[strcspn(line, "\r\n")] = 0;
        if (!line[0]) continue;
        fflush(stdout);
        pid = fork();
        if (!pid) {
            MC_STATS s;
            setup(line);
            if (replay) { int r = mc_replay(&o, "", finish); fflush(stdout); _exit(r); }
            mc_explore(&o, finish, &s);
            printf("%s %s execs=%llu steps=%llu distinct=%llu maxpts=%llu rounds=%llu exhaustive=%d", s.violation ? "BAD" : "OK", line,
                   (unsigned long long)s.execs, (unsigned long long)s.steps, (unsigned long long)s.distinct,
                   (unsigned long long)s.max_points, (unsigned long long)s.rounds, s.exhaustive);
            if (s.violation) printf(" schedule=%s msg=%s", s.schedule, s.msg);
            printf("\n");
            fflush(stdout);
            _exit(s.violation ? 1 : 0);
        }
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { printf("ERR %s status=%x\n", line, st); bad = 2; }
        else if (WEXITSTATUS(st) == 1 && bad < 2) bad = 1;
    }
    return bad;
}
