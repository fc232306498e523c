/* Harness for C04: threads with objects, and collections, under the controlled scheduler.
 *
 * Scenario:  <g|t>:<init>|<thread>|<thread>...
 *   t: automatic collection at the next slow allocation; g: only explicit collections
 *   init: <k><kind> puts an object in entry k of the shared array
 *   thread: one letter per operation, "." ends the preparation (which has one schedule), N first: registers only after it
 *     n<s><kind> new object in slot s (x, y, z)    m<s> change its contents    d<s> drop it    v check all slots
 *     w<s><k> store slot s in shared entry k       R<k><s> load shared entry k into slot s, checking it
 *     g collect   s suspend   r resume   p fill a page   e handle global events
 *   kinds: a array, o object, b buffer, s string, l large array, h huge array, t array of many floats, f object with finalizer
 */
#include "mc_rt.h"
#include "inc/kos_array.h"
#include "inc/kos_buffer.h"
#include "inc/kos_error.h"
#include "inc/kos_instance.h"
#include "inc/kos_object.h"
#include "inc/kos_string.h"
#include "inc/kos_utils.h"
#include "inc/kos_entity.h"
#include "inc/kos_memory.h"
#include "inc/kos_constants.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#define NSH 4
#define MAXID 100

typedef struct { KOS_LOCAL l; int id; } SLOT;                /* id 0: empty */
static KOS_INSTANCE inst;
static KOS_CONTEXT  mctx;
static struct KOS_THREAD_CONTEXT_S tctx[MC_MAX_THREADS];
static SLOT         slots[MC_MAX_THREADS][3];
static KOS_LOCAL    tsh[MC_MAX_THREADS];
static KOS_LOCAL    shared;
static const char  *code[MC_MAX_THREADS];
static int          nthr, done[MC_MAX_THREADS];
static int          lastw[MC_MAX_THREADS + 1][NSH];          /* id last stored by a thread in a shared entry */
static char         kinds[MAXID];
static int          vers[MAXID], fin[MAXID], nid;
static const char  *scen;

KOS_DECLARE_PRIVATE_CLASS(priv_class);
KOS_DECLARE_STATIC_CONST_STRING(str_p, "p");
KOS_DECLARE_STATIC_CONST_STRING(str_q, "q");
KOS_DECLARE_STATIC_CONST_STRING(str_r, "r");

static void finalize(KOS_CONTEXT ctx, void *p) { fin[(intptr_t)p]++; (void)ctx; }

static void chk(int ok, const char *what) { if (!ok) mc_fail("%s: %s failed", scen, what); }

static KOS_OBJ_ID text(KOS_CONTEXT ctx, int id, int ver)
{
    char b[64];
    snprintf(b, sizeof(b), "text of the object number %d, version %d", id, ver);
    KOS_OBJ_ID s = KOS_new_cstring(ctx, b);
    chk(!IS_BAD_PTR(s), "new string");
    return s;
}

static int nelem(char kind) { return kind == 'l' ? 500 : kind == 'h' ? 3000 : kind == 't' ? 180 : 5; }

static void put(KOS_CONTEXT ctx, KOS_OBJ_ID o, int i, KOS_OBJ_ID v) { chk(!IS_BAD_PTR(v) && !KOS_array_write(ctx, o, i, v), "array write"); }

/* contents which depend on the version */
static void fill(KOS_CONTEXT ctx, KOS_LOCAL *l, int id, int ver)
{
    switch (kinds[id]) {
        case 'a': case 'l': case 'h': case 't': { KOS_OBJ_ID t = text(ctx, id, ver); put(ctx, l->o, 1, t); break; }
        case 'o': { KOS_OBJ_ID t = text(ctx, id, ver); chk(!KOS_set_property(ctx, l->o, KOS_CONST_ID(str_q), t), "set property"); break; }
        case 'b': KOS_buffer_data_volatile(ctx, l->o)[1] = (uint8_t)ver; break;
    }
}

static int make(KOS_CONTEXT ctx, KOS_LOCAL *l, char kind)
{
    const int id = ++nid;
    int i;
    kinds[id] = kind; vers[id] = 0;
    switch (kind) {
        case 'a': case 'l': case 'h': case 't': {
            KOS_OBJ_ID v;
            l->o = KOS_new_array(ctx, (uint32_t)nelem(kind));
            chk(!IS_BAD_PTR(l->o), "new array");
            put(ctx, l->o, 0, TO_SMALL_INT(id));
            v = KOS_new_float(ctx, id + 0.5); put(ctx, l->o, 2, v);
            v = KOS_new_array(ctx, 2); put(ctx, l->o, 3, v);
            for (i = 4; i < nelem(kind); i++) put(ctx, l->o, i, kind == 't' ? KOS_new_float(ctx, i + id) : TO_SMALL_INT(i ^ id));
            v = KOS_array_read(ctx, l->o, 3); put(ctx, v, 1, TO_SMALL_INT(-id));
            break;
        }
        case 'o': {
            KOS_OBJ_ID v;
            l->o = KOS_new_object(ctx);
            chk(!IS_BAD_PTR(l->o) && !KOS_set_property(ctx, l->o, KOS_CONST_ID(str_p), TO_SMALL_INT(id)), "new object");
            v = KOS_new_array(ctx, 1); put(ctx, v, 0, TO_SMALL_INT(id));
            chk(!KOS_set_property(ctx, l->o, KOS_CONST_ID(str_r), v), "set property");
            break;
        }
        case 'b':
            l->o = KOS_new_buffer(ctx, 24);
            chk(!IS_BAD_PTR(l->o), "new buffer");
            for (i = 0; i < 24; i++) KOS_buffer_data_volatile(ctx, l->o)[i] = (uint8_t)id;
            break;
        case 's': l->o = text(ctx, id, 0); break;
        case 'f':
            l->o = KOS_new_object_with_private(ctx, KOS_VOID, &priv_class, finalize);
            chk(!IS_BAD_PTR(l->o), "new object with private");
            KOS_object_set_private_ptr(l->o, (void *)(intptr_t)id);
            chk(!KOS_set_property(ctx, l->o, KOS_CONST_ID(str_p), TO_SMALL_INT(id)), "set property");
            break;
        default: fprintf(stderr, "bad kind in %s\n", scen); _exit(2);
    }
    fill(ctx, l, id, 0);
    return id;
}

static int text_ok(KOS_CONTEXT ctx, KOS_OBJ_ID s, int id, int exact)
{
    char b[64], want[64]; int ver, n;
    if (IS_BAD_PTR(s) || GET_OBJ_TYPE(s) != OBJ_STRING) return 0;
    n = (int)KOS_get_string_length(s);
    if (n >= 64 || KOS_string_to_utf8(s, b, 64) != (unsigned)n) return 0;
    b[n] = 0;
    for (ver = exact ? vers[id] : 0; ver <= vers[id]; ver++) {
        snprintf(want, sizeof(want), "text of the object number %d, version %d", id, ver);
        if (!strcmp(b, want)) return 1;
    }
    return 0;
}

/* the number of the object, or -1 if it is not one that was made, intact; exact: with its newest contents */
static int look(KOS_CONTEXT ctx, KOS_OBJ_ID o, int exact)
{
    int id = -1, i;
    KOS_OBJ_ID v;
    if (IS_BAD_PTR(o)) return -1;
    if (IS_SMALL_INT(o)) return -1;
    switch (GET_OBJ_TYPE(o)) {
        case OBJ_ARRAY: {
            unsigned n = KOS_get_array_size(o);
            if (n < 5) return -1;
            v = KOS_array_read(ctx, o, 0);
            if (!IS_SMALL_INT(v)) return -1;
            id = (int)GET_SMALL_INT(v);
            if (id < 1 || id > nid || !strchr("alht", kinds[id]) || (int)n != nelem(kinds[id])) return -1;
            if (!text_ok(ctx, KOS_array_read(ctx, o, 1), id, exact)) return -1;
            v = KOS_array_read(ctx, o, 2);
            if (IS_BAD_PTR(v) || IS_SMALL_INT(v) || GET_OBJ_TYPE(v) != OBJ_FLOAT || OBJPTR(FLOAT, v)->value != id + 0.5) return -1;
            v = KOS_array_read(ctx, o, 3);
            if (IS_BAD_PTR(v) || IS_SMALL_INT(v) || GET_OBJ_TYPE(v) != OBJ_ARRAY || KOS_get_array_size(v) != 2 || KOS_array_read(ctx, v, 1) != TO_SMALL_INT(-id)) return -1;
            for (i = 4; i < (int)n; i++) {
                v = KOS_array_read(ctx, o, i);
                if (kinds[id] != 't') { if (v != TO_SMALL_INT(i ^ id)) return -1; }
                else if (IS_BAD_PTR(v) || IS_SMALL_INT(v) || GET_OBJ_TYPE(v) != OBJ_FLOAT || OBJPTR(FLOAT, v)->value != i + id) return -1;
            }
            return id;
        }
        case OBJ_OBJECT:
            v = KOS_get_property(ctx, o, KOS_CONST_ID(str_p));
            if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); return -1; }
            if (!IS_SMALL_INT(v)) return -1;
            id = (int)GET_SMALL_INT(v);
            if (id < 1 || id > nid || !strchr("of", kinds[id])) return -1;
            if (kinds[id] == 'f') return KOS_object_get_private(o, &priv_class) == (void *)(intptr_t)id && !fin[id] ? id : -1;
            v = KOS_get_property(ctx, o, KOS_CONST_ID(str_q));
            if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); return -1; }
            if (!text_ok(ctx, v, id, exact)) return -1;
            v = KOS_get_property(ctx, o, KOS_CONST_ID(str_r));
            if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); return -1; }
            return !IS_SMALL_INT(v) && GET_OBJ_TYPE(v) == OBJ_ARRAY && KOS_get_array_size(v) == 1 && KOS_array_read(ctx, v, 0) == TO_SMALL_INT(id) ? id : -1;
        case OBJ_BUFFER: {
            uint8_t *p = KOS_buffer_data_volatile(ctx, o);
            if (KOS_get_buffer_size(o) != 24) return -1;
            id = p[0];
            if (id < 1 || id > nid || kinds[id] != 'b' || (exact && vers[id] && p[1] != vers[id])) return -1;
            for (i = 2; i < 24; i++) if (p[i] != id) return -1;
            return id;
        }
        case OBJ_STRING:
            for (id = 1; id <= nid; id++) if (kinds[id] == 's' && text_ok(ctx, o, id, 1)) return id;
            return -1;
        default: return -1;
    }
}

static void verify(KOS_CONTEXT ctx, int tid)
{
    int i;
    for (i = 0; i < 3; i++) if (slots[tid][i].id) {
        const int id = look(ctx, slots[tid][i].l.o, 1);
        if (id != slots[tid][i].id) mc_fail("%s: thread %d's object %d (kind %c) was lost or changed (found %d)", scen, tid, slots[tid][i].id, kinds[slots[tid][i].id], id);
    }
}

static void enter(int tid)
{
    KOS_CONTEXT ctx = &tctx[tid];
    int i;
    chk(!KOS_instance_register_thread(&inst, ctx), "register");
    for (i = 0; i < 3; i++) KOS_init_local(ctx, &slots[tid][i].l);
    KOS_init_local(ctx, &tsh[tid]);
    tsh[tid].o = shared.o;
}

static void thread_body(void *arg)
{
    const int tid = (int)(intptr_t)arg;
    KOS_CONTEXT ctx = &tctx[tid];
    const char *p = code[tid];
    int i;
    if (*p == 'N') { p++; mc_barrier(); enter(tid); }
    else {
        enter(tid);
        if (!memchr(p, '.', strcspn(p, "|"))) mc_barrier();
    }
    while (*p && *p != '|') {
        const char c = *p++;
        SLOT *s = NULL;
        int k;
        mc_log("%c", c);
        if (strchr("nmdw", c)) { s = &slots[tid][*p++ - 'x']; }
        switch (c) {
            case '.': mc_barrier(); break;
            case 'n': s->id = 0; s->id = make(ctx, &s->l, *p++); break;
            case 'm': if (strchr("alhtob", kinds[s->id])) vers[s->id]++; fill(ctx, &s->l, s->id, vers[s->id]); break;
            case 'd': s->id = 0; s->l.o = KOS_BADPTR; break;
            case 'w': k = *p++ - '0'; lastw[tid][k] = s->id; put(ctx, tsh[tid].o, k, s->l.o); break;
            case 'R':
                k = *p++ - '0'; s = &slots[tid][*p++ - 'x'];
                s->id = 0;
                s->l.o = KOS_array_read(ctx, tsh[tid].o, k);
                chk(!IS_BAD_PTR(s->l.o), "array read");
                if (s->l.o == KOS_VOID) break;
                i = look(ctx, s->l.o, 0);
                if (i < 0) mc_fail("%s: thread %d read a damaged object from shared entry %d", scen, tid, k);
                s->id = i;
                break;
            case 'v': verify(ctx, tid); break;
            case 'g': chk(!KOS_collect_garbage(ctx, NULL), "collection"); break;
            case 's': KOS_suspend_context(ctx); break;
            case 'r': chk(!KOS_resume_context(ctx), "resume"); break;
            case 'e': chk(!KOS_handle_global_event(ctx), "event"); break;
            case 'p': for (i = 0; i < 24; i++) chk(!IS_BAD_PTR(KOS_new_array(ctx, 60)), "new array"); break;
            default: fprintf(stderr, "bad op %c in %s\n", c, scen); _exit(2);
        }
    }
    KOS_destroy_top_locals(ctx, &tsh[tid], &slots[tid][0].l);
    KOS_instance_unregister_thread(&inst, ctx);
    done[tid] = 1;
}

static void check_shared(void)
{
    int k, t;
    for (k = 0; k < NSH; k++) {
        KOS_OBJ_ID v = KOS_array_read(mctx, shared.o, k);
        int id = v == KOS_VOID ? 0 : look(mctx, v, 1), any = 0;
        for (t = 0; t < nthr; t++) if (lastw[t][k]) { any = 1; if (lastw[t][k] == id) break; }
        if (id < 0) mc_fail("%s: shared entry %d is damaged", scen, k);
        if (any ? t == nthr : id != lastw[MC_MAX_THREADS][k]) mc_fail("%s: shared entry %d lost what was stored in it", scen, k);
    }
}

static void finish(void)
{
    int i;
    for (i = 0; i < nthr; i++) if (!done[i]) mc_fail("%s: thread %d did not end", scen, i);
    chk(!KOS_resume_context(mctx), "resume");
    check_shared();
    chk(!KOS_collect_garbage(mctx, NULL), "collection");
    check_shared();
    KOS_destroy_top_local(mctx, &shared);
    KOS_instance_destroy(&inst);
    for (i = 1; i <= nid; i++) if (kinds[i] == 'f' && fin[i] != 1) mc_fail("%s: object %d was finalized %d times", scen, i, fin[i]);
}

static void setup(const char *s)
{
    const char *p = s + 2;
    int i;
    scen = s;
    if (KOS_instance_init(&inst, s[0] == 'g' ? KOS_INST_MANUAL_GC : 0, &mctx)) _exit(2);
    KOS_init_local(mctx, &shared);
    shared.o = KOS_new_array(mctx, NSH);
    for (i = 0; i < NSH; i++) put(mctx, shared.o, i, KOS_VOID);
    for (; *p && *p != '|'; p += 2) {
        KOS_LOCAL l;
        KOS_init_local(mctx, &l);
        lastw[MC_MAX_THREADS][*p - '0'] = make(mctx, &l, p[1]);
        put(mctx, shared.o, *p - '0', l.o);
        KOS_destroy_top_local(mctx, &l);
    }
    if (s[0] == 't') inst.heap.gc_threshold = inst.heap.used_heap_size;
    KOS_suspend_context(mctx);
    while (*p == '|') { code[nthr++] = ++p; p += strcspn(p, "|"); }
    for (i = 0; i < nthr; i++) mc_spawn(thread_body, (void *)(intptr_t)i);
}

int main(int argc, char **argv)
{
    MC_OPTS o; char line[256]; FILE *f; int replay = 0, bad = 0;
    mc_init();
    memset(&o, 0, sizeof(o));
    o.preempt_bound = 2; o.free_bound = 4; o.workers = 1;
    if (argc < 2) return 2;
    if (argc > 2) o.preempt_bound = atoi(argv[2]);
    if (argc > 3) o.workers = atoi(argv[3]);
    if (argc > 4) replay = atoi(argv[4]);
    if (argc > 5) o.time_limit = atoi(argv[5]);
    if (argc > 6) o.free_bound = atoi(argv[6]);
    f = strcmp(argv[1], "-") ? fopen(argv[1], "r") : stdin;
    if (!f) return 2;
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (fgets(line, sizeof(line), f)) {
        pid_t pid; int st;
        line[strcspn(line, "\r\n")] = 0;
        if (!line[0]) continue;
        fflush(stdout);
        pid = fork();
        if (!pid) {
            MC_STATS s;
            setup(line);
            if (replay) { int r = mc_replay(&o, argc > 7 ? argv[7] : "", finish); fflush(stdout); _exit(r); }
            mc_explore(&o, finish, &s);
            printf("%s %s execs=%llu steps=%llu distinct=%llu maxpts=%llu rounds=%llu exhaustive=%d", s.violation ? "BAD" : "OK", line,
                   (unsigned long long)s.execs, (unsigned long long)s.steps, (unsigned long long)s.distinct,
                   (unsigned long long)s.max_points, (unsigned long long)s.rounds, s.exhaustive);
            if (s.violation) printf(" schedule=%s msg=%s", s.schedule, s.msg);
            printf("\n");
            fflush(stdout);
            _exit(s.violation ? 1 : 0);
        }
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { printf("ERR %s status=%x\n", line, st); bad = 2; }
        else if (WEXITSTATUS(st) == 1 && bad < 2) bad = 1;
    }
    return bad;
}
