/* Arrays and buffers: every operation with every index combination, and every history of operations up to a depth,
 * on the real objects next to a plain sequence. argv: <part> <shard> <shards> <depth>; "BAD ..." lines, then "OK <histories> <operations> <distinct states>". */
#include "inc/kos_array.h"
#include "inc/kos_buffer.h"
#include "inc/kos_instance.h"
#include "inc/kos_error.h"
#include "inc/kos_constants.h"
#include "inc/kos_entity.h"
#include "inc/kos_memory.h"
#include "inc/kos_string.h"
#include "inc/kos_utils.h"
#include "core/kos_object_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static KOS_CONTEXT ctx;
static int nbad, shard, shards, depth;
static unsigned long nhist, nops, nstates, mine;
static char hist[512];
#define MAXN 64
typedef struct { int n; int64_t v[MAXN]; } Seq;
static KOS_LOCAL A, B; static Seq a, b;
static int64_t counter;
static uint64_t seen[1 << 20];
static void note(void)
{
    uint64_t h = 1469598103934665603u; int i; unsigned long k;
    for (i = 0; i < a.n; i++) h = (h ^ (uint64_t)a.v[i]) * 1099511628211u;
    h = (h ^ 999) * 1099511628211u;
    for (i = 0; i < b.n; i++) h = (h ^ (uint64_t)b.v[i]) * 1099511628211u;
    if (!h) h = 1;
    for (k = h >> 44; seen[k]; k = (k + 1) & 0xFFFFF) if (seen[k] == h) return;
    if (nstates < 900000) { seen[k] = h; nstates++; }
}
static void bad(const char *what, long got, long want)
{
    if (nbad++ < 6) printf("BAD %s: %s: got %ld expected %ld\n", hist, what, got, want);
}
static int exc(void) { int e = KOS_is_exception_pending(ctx); if (e) KOS_clear_exception(ctx); return e; }
static void must(int error, int fails)
{
    int e = exc();
    nops++;
    if (!!error != !!fails || e != !!error) bad("outcome", error * 10 + e, fails);
}
static int64_t fix(int64_t i, int n) { if (i < 0) i += n; return i < 0 ? 0 : i > n ? n : i; }
static int64_t ival(KOS_OBJ_ID o) { return IS_BAD_PTR(o) ? -77 : o == KOS_VOID ? -1 : IS_SMALL_INT(o) ? GET_SMALL_INT(o) : -78; }
static KOS_OBJ_ID obj(int64_t v) { return v == -1 ? KOS_VOID : TO_SMALL_INT((intptr_t)v); }
/* --- arrays */
static void chk(KOS_OBJ_ID o, const Seq *s)
{
    int i;
    if (KOS_get_array_size(o) != (uint32_t)s->n) { bad("size", KOS_get_array_size(o), s->n); return; }
    for (i = 0; i < s->n; i++) {
        int64_t x = ival(KOS_array_read(ctx, o, i)), y = ival(KOS_array_read(ctx, o, i - s->n));
        if (x != s->v[i] || y != s->v[i]) { bad("element", x != s->v[i] ? x : y, s->v[i]); exc(); return; }
    }
    if (!IS_BAD_PTR(KOS_array_read(ctx, o, s->n))) bad("read past the end", 0, 1);
    if (!exc()) bad("exception", 0, 1);
    if (!IS_BAD_PTR(KOS_array_read(ctx, o, -s->n - 1))) bad("read before the begin", 0, 1);
    if (!exc()) bad("exception", 0, 1);
}
static void splice(Seq *d, int64_t db, int64_t de, const Seq *s0, int64_t sb, int64_t se)
{
    Seq s = *s0, r; int i;
    if (sb == se) s.n = 0;
    db = fix(db, d->n); de = fix(de, d->n); if (de < db) de = db;
    sb = fix(sb, s.n); se = fix(se, s.n); if (se < sb) se = sb;
    r.n = 0;
    for (i = 0; i < db; i++) r.v[r.n++] = d->v[i];
    for (i = (int)sb; i < se; i++) r.v[r.n++] = s.v[i];
    for (i = (int)de; i < d->n; i++) r.v[r.n++] = d->v[i];
    *d = r;
}
static void sliced(Seq *d, const Seq *s, int64_t x, int64_t y)
{
    Seq t = *s; int i;
    x = fix(x, t.n); y = fix(y, t.n);
    d->n = 0;
    for (i = (int)x; i < y; i++) d->v[d->n++] = t.v[i];
}
static void mk(int n, int way)
{
    int i;
    a.n = n; b.n = 0;
    for (i = 0; i < n; i++) a.v[i] = 100 + i;
    if (way == 0) { A.o = KOS_new_array(ctx, (uint32_t)n); for (i = 0; i < n; i++) KOS_array_write(ctx, A.o, i, obj(100 + i)); }
    else if (way == 1) { A.o = KOS_new_array(ctx, 0); for (i = 0; i < n; i++) KOS_array_push(ctx, A.o, obj(100 + i), 0); }
    else if (way == 2) { A.o = KOS_new_array(ctx, 0); KOS_array_reserve(ctx, A.o, (uint32_t)n + 9); for (i = 0; i < n; i++) KOS_array_push(ctx, A.o, obj(100 + i), 0); }
    else if (way == 3) {
        A.o = KOS_new_array(ctx, (uint32_t)n + 12); for (i = 0; i < n + 12; i++) KOS_array_write(ctx, A.o, i, obj(i < n ? 100 + i : 55));
        KOS_array_resize(ctx, A.o, (uint32_t)n);
    }
    else {
        KOS_LOCAL t; KOS_init_local(ctx, &t);
        t.o = KOS_new_array(ctx, (uint32_t)n + 4); for (i = 0; i < n + 4; i++) KOS_array_write(ctx, t.o, i, obj(98 + i));
        A.o = KOS_array_slice(ctx, t.o, 2, n + 2);
        if (n) kos_array_copy_storage(ctx, A.o);
        KOS_destroy_top_local(ctx, &t);
    }
    B.o = KOS_new_array(ctx, 0);
}
static const int64_t BIG[] = { INT64_MIN, INT64_MIN + 1, -4294967297LL, -4294967296LL, 4294967296LL, 4294967295LL, INT64_MAX - 1, INT64_MAX };
static int mkidx(int64_t *o, int n, int big)
{
    int k = 0, i;
    for (i = -n - 1; i <= n + 1; i++) o[k++] = i;
    if (big) for (i = 0; i < 8; i++) o[k++] = BIG[i];
    return k;
}
static void array_ops(void)
{
    int n, way, m; int64_t I[80], J[80]; int ni, nj, i, j, k, l; const int N = depth;
    for (n = 0; n <= N; n++) for (way = 0; way < 5; way++) for (m = -1; m <= N; m++) {
        if ((mine++ % (unsigned)shards) != (unsigned)shard) continue;
        ni = mkidx(I, n, m <= 0); nj = mkidx(J, m < 0 ? n : m, 0); if (m == 2) nj = mkidx(J, m, 1);
        for (i = 0; i < ni; i++) for (j = 0; j < ni; j++) for (k = 0; k < nj; k++) for (l = 0; l < nj; l++) {
            int e, x;
            mk(n, way);
            if (m >= 0) { b.n = m; B.o = KOS_new_array(ctx, (uint32_t)m); for (x = 0; x < m; x++) { b.v[x] = 500 + x; KOS_array_write(ctx, B.o, x, obj(500 + x)); } }
            sprintf(hist, "insert n=%d way=%d [%lld,%lld) <- %s%d [%lld,%lld)", n, way, (long long)I[i], (long long)I[j], m < 0 ? "self" : "other", m, (long long)J[k], (long long)J[l]);
            e = KOS_array_insert(ctx, A.o, I[i], I[j], m < 0 ? A.o : B.o, J[k], J[l]);
            splice(&a, I[i], I[j], m < 0 ? &a : &b, J[k], J[l]);
            must(e, 0); chk(A.o, &a); if (m >= 0) chk(B.o, &b);
            note(); nhist++;
            if (nbad > 3) return;
        }
        if (m == -1) for (i = 0; i < ni; i++) for (j = 0; j < ni; j++) {
            mk(n, way);
            sprintf(hist, "slice/fill n=%d way=%d [%lld,%lld)", n, way, (long long)I[i], (long long)I[j]);
            B.o = KOS_array_slice(ctx, A.o, I[i], I[j]); sliced(&b, &a, I[i], I[j]);
            must(IS_BAD_PTR(B.o), 0); chk(B.o, &b); chk(A.o, &a);
            KOS_array_push(ctx, B.o, obj(7), 0); b.v[b.n++] = 7; chk(B.o, &b); chk(A.o, &a);
            must(KOS_array_fill(ctx, A.o, I[i], I[j], obj(9)), 0);
            for (k = (int)fix(I[i], n); k < fix(I[j], n); k++) a.v[k] = 9;
            chk(A.o, &a); note(); nhist++;
        }
    }
}
/* one operation of a history on arrays; 0: no such operation */
#define NAOPS 38
static int aop(int op)
{
    char t[40]; int64_t v = ++counter; int i; uint32_t idx = 12345;
    switch (op) {
    case 0: case 1: sprintf(t, "push "); { int e = KOS_array_push(ctx, A.o, obj(v), op ? 0 : &idx); must(e, 0); if (!op && idx != (uint32_t)a.n) bad("index", (long)idx, a.n); } a.v[a.n++] = v; break;
    case 2: sprintf(t, "pop "); { KOS_OBJ_ID o = KOS_array_pop(ctx, A.o); int64_t x = ival(o); must(IS_BAD_PTR(o), !a.n); if (a.n) { a.n--; if (x != a.v[a.n]) bad("popped", x, a.v[a.n]); } } break;
    case 3: case 4: case 5: case 6: case 7: case 8: {
        static const int d[] = { -99, -2, -1, 1, 3, 9 }; int n = a.n + d[op - 3]; if (n < 0) n = 0;
        sprintf(t, "resize%d ", n); must(KOS_array_resize(ctx, A.o, (uint32_t)n), 0); for (i = a.n; i < n; i++) a.v[i] = -1; a.n = n; break; }
    case 9: case 10: case 11: { int n = op == 9 ? 0 : op == 10 ? a.n + 1 : a.n + 17; sprintf(t, "reserve%d ", n); must(KOS_array_reserve(ctx, A.o, (uint32_t)n), 0); break; }
    case 12: case 13: case 14: case 15: { static const int d[] = { 0, -1, 1, 4 }; int x = d[op - 12], y = x < 0 ? x + a.n : x; int out = y < 0 || y >= a.n;
        sprintf(t, "write%d ", x); must(KOS_array_write(ctx, A.o, x, obj(v)), out); if (!out) a.v[y] = v; break; }
    case 16: case 17: case 18: { int x = op == 16 ? 0 : op == 17 ? -1 : 1, y = x < 0 ? x + a.n : x; int out = y < 0 || y >= a.n; KOS_OBJ_ID o; int64_t old = out ? 3 : op == 18 ? 987654 : a.v[y];
        sprintf(t, "cas%d ", x); o = KOS_array_cas(ctx, A.o, x, obj(old), obj(v)); i = (int)ival(o); must(IS_BAD_PTR(o), out); if (!out) { if (i != a.v[y]) bad("cas", i, a.v[y]); if (op != 18) a.v[y] = v; } break; }
    case 19: case 20: case 21: { static const int d[3][2] = { { 0, 99 }, { 1, -1 }, { -2, 99 } };
        sprintf(t, "slice%d ", op); B.o = KOS_array_slice(ctx, A.o, d[op - 19][0], d[op - 19][1]); must(IS_BAD_PTR(B.o), 0); sliced(&b, &a, d[op - 19][0], d[op - 19][1]); break; }
    case 22: case 23: case 24: case 25: case 26: case 27: case 28: { static const int d[7][5] = { { 0, 0, 1, 0, 99 }, { 1, 2, 1, 0, 99 }, { 99, 99, 1, 1, -1 }, { 0, 0, 0, 0, 99 }, { 1, 3, 0, 2, 99 }, { -2, 99, 0, 0, 1 }, { 0, 2, 1, 0, 0 } }; const int *q = d[op - 22];
        if (a.n + (q[2] ? b.n : a.n) > MAXN - 12) return 0;
        sprintf(t, "insert%d ", op); must(KOS_array_insert(ctx, A.o, q[0], q[1], q[2] ? B.o : A.o, q[3], q[4]), 0); splice(&a, q[0], q[1], q[2] ? &b : &a, q[3], q[4]); break; }
    case 29: case 30: { int x = op == 29 ? 0 : 1, y = op == 29 ? 99 : -1; sprintf(t, "fill "); must(KOS_array_fill(ctx, A.o, x, y, obj(v)), 0); for (i = (int)fix(x, a.n); i < fix(y, a.n); i++) a.v[i] = v; break; }
    case 31: { KOS_OBJ_ID o = A.o; Seq s = a; sprintf(t, "swap "); A.o = B.o; B.o = o; a = b; b = s; break; }
    case 32: sprintf(t, "storage "); if (!a.n) return 0; must(kos_array_copy_storage(ctx, A.o), 0); break;
    case 33: sprintf(t, "gc "); must(KOS_collect_garbage(ctx, 0), 0); break;
    case 34: sprintf(t, "ro "); must(KOS_array_write(ctx, A.o, a.n, obj(v)), 1); must(KOS_array_write(ctx, A.o, -a.n - 1, obj(v)), 1); break;
    case 35: sprintf(t, "huge "); must(KOS_array_resize(ctx, A.o, 0xFFFFFFFFu), 1); must(KOS_array_reserve(ctx, A.o, 0x20000001u), 1); must(KOS_array_reserve(ctx, A.o, 0xFFFFFFFFu), 1); break;
    case 36: sprintf(t, "new "); A.o = KOS_new_array(ctx, 3); must(IS_BAD_PTR(A.o), 0); a.n = 3; a.v[0] = a.v[1] = a.v[2] = -1; break;
    default: sprintf(t, "pops "); for (i = 0; i < 3 && a.n; i++) { int64_t x = ival(KOS_array_pop(ctx, A.o)); a.n--; if (x != a.v[a.n]) bad("popped", x, a.v[a.n]); nops++; } break;
    }
    strcat(hist, t);
    chk(A.o, &a); chk(B.o, &b); note();
    return 1;
}
/* --- buffers */
static void bchk(KOS_OBJ_ID o, const Seq *s)
{
    int i; const uint8_t *p;
    if (KOS_get_buffer_size(o) != (uint32_t)s->n) { bad("size", KOS_get_buffer_size(o), s->n); return; }
    if (!s->n) return;
    p = KOS_buffer_data_const(o);
    for (i = 0; i < s->n; i++) if (p[i] != (uint8_t)s->v[i]) { bad("byte", p[i], (long)s->v[i]); return; }
}
static int finalized, created; static uint8_t ext[MAXN];
static void fin(KOS_CONTEXT c, void *priv) { (void)c; (*(int *)priv)++; }
static int isext;
static void bmk(int n, int way)
{
    int i; uint8_t *p;
    a.n = n; b.n = 0; isext = way == 3;
    for (i = 0; i < n; i++) a.v[i] = 100 + i;
    if (way == 3) { created++; memset(ext, 0xEE, sizeof(ext)); A.o = KOS_new_external_buffer(ctx, ext, (unsigned)n, &finalized, fin); p = ext; }
    else {
        A.o = KOS_new_buffer(ctx, way == 2 ? (unsigned)n + 70 : way == 1 ? 0 : (unsigned)n);
        if (way == 2) { p = KOS_buffer_data(ctx, A.o); memset(p, 7, (size_t)n + 70); KOS_buffer_resize(ctx, A.o, (unsigned)n); }
        p = way == 1 ? n ? KOS_buffer_make_room(ctx, A.o, (unsigned)n) : 0 : n ? KOS_buffer_data_volatile(ctx, A.o) : 0;
    }
    for (i = 0; i < n; i++) p[i] = (uint8_t)a.v[i];
    B.o = KOS_new_buffer(ctx, 0);
}
static void bcopy_(Seq *d, int64_t db, const Seq *s0, int64_t sb, int64_t se)
{
    Seq s = *s0; int64_t i;
    db = fix(db, d->n); sb = fix(sb, s.n); se = fix(se, s.n);
    for (i = 0; sb + i < se && db + i < d->n; i++) d->v[db + i] = s.v[sb + i];
}
static void buffer_ops(void)
{
    int n, way, m; int64_t I[80], J[80]; int ni, nj, i, k, l, j; const int N = depth;
    for (n = 0; n <= N; n++) for (way = 0; way < 4; way++) for (m = -1; m <= N; m++) {
        if ((mine++ % (unsigned)shards) != (unsigned)shard) continue;
        ni = mkidx(I, n, 1); nj = mkidx(J, m < 0 ? n : m, 1);
        for (i = 0; i < ni; i++) for (k = 0; k < nj; k++) for (l = 0; l < nj; l++) {
            int x;
            bmk(n, way);
            if (m >= 0) { b.n = m; B.o = KOS_new_buffer(ctx, (unsigned)m); for (x = 0; x < m; x++) { b.v[x] = 50 + x; KOS_buffer_data_volatile(ctx, B.o)[x] = (uint8_t)(50 + x); } }
            sprintf(hist, "copy n=%d way=%d %lld <- %s%d [%lld,%lld)", n, way, (long long)I[i], m < 0 ? "self" : "other", m, (long long)J[k], (long long)J[l]);
            must(KOS_buffer_copy(ctx, A.o, I[i], m < 0 ? A.o : B.o, J[k], J[l]), 0);
            bcopy_(&a, I[i], m < 0 ? &a : &b, J[k], J[l]);
            bchk(A.o, &a); if (m >= 0) bchk(B.o, &b);
            note(); nhist++;
            if (nbad > 3) return;
        }
        if (m == -1) for (i = 0; i < ni; i++) for (j = 0; j < ni; j++) {
            bmk(n, way);
            sprintf(hist, "slice/fill n=%d way=%d [%lld,%lld)", n, way, (long long)I[i], (long long)I[j]);
            B.o = KOS_buffer_slice(ctx, A.o, I[i], I[j]); sliced(&b, &a, I[i], I[j]);
            must(IS_BAD_PTR(B.o), 0); bchk(B.o, &b); bchk(A.o, &a);
            must(KOS_buffer_fill(ctx, A.o, I[i], I[j], 9), 0);
            for (k = (int)fix(I[i], n); k < fix(I[j], n); k++) a.v[k] = 9;
            bchk(A.o, &a); bchk(B.o, &b); note(); nhist++;
            if (way == 3) for (k = n; k < MAXN; k++) if (ext[k] != 0xEE) bad("outside of external storage", ext[k], 0xEE);
        }
    }
}
#define NBOPS 26
static int bop(int op)
{
    char t[40]; int v = (int)(++counter * 37 & 255), i; uint8_t *p;
    switch (op) {
    case 0: case 1: case 2: { static const unsigned d[] = { 1, 3, 30 }; unsigned k = d[op]; if (a.n + (int)k > MAXN) return 0;
        sprintf(t, "room%u ", k); p = KOS_buffer_make_room(ctx, A.o, k); must(!p, isext); if (p) for (i = 0; i < (int)k; i++) { p[i] = (uint8_t)(v + i); a.v[a.n++] = (uint8_t)(v + i); } break; }
    case 3: case 4: case 5: case 6: case 7: { static const int d[] = { -99, -1, -3, 1, 20 }; int n = a.n + d[op - 3], e; if (n < 0) n = 0; if (n > MAXN) return 0; e = isext && n > a.n;
        if (e) return 0; sprintf(t, "resize%d ", n); must(KOS_buffer_resize(ctx, A.o, (unsigned)n), e);
        if (n > a.n) { must(KOS_buffer_fill(ctx, A.o, a.n, n, (uint8_t)v), 0); for (i = a.n; i < n; i++) a.v[i] = v; } a.n = n; break; }
    case 8: case 9: case 10: { int n = op == 8 ? 0 : op == 9 ? a.n + 1 : a.n + 200; sprintf(t, "reserve%d ", n); must(KOS_buffer_reserve(ctx, A.o, (unsigned)n), isext); break; }
    case 11: if (!a.n || isext) return 0; sprintf(t, "data "); p = KOS_buffer_data(ctx, A.o); must(!p, 0); if (p) { p[0] = (uint8_t)v; p[a.n - 1] = (uint8_t)(v + 1); a.v[0] = v; a.v[a.n - 1] = (uint8_t)(v + 1); } break;
    case 12: if (!a.n) return 0; sprintf(t, "vol "); p = KOS_buffer_data_volatile(ctx, A.o); must(!p, 0); if (p) { p[a.n / 2] = (uint8_t)v; a.v[a.n / 2] = v; } break;
    case 13: case 14: { int x = op == 13 ? 0 : 1, y = op == 13 ? 99 : -1; sprintf(t, "fill "); must(KOS_buffer_fill(ctx, A.o, x, y, (uint8_t)v), 0); for (i = (int)fix(x, a.n); i < fix(y, a.n); i++) a.v[i] = v; break; }
    case 15: case 16: case 17: { static const int d[3][2] = { { 0, 99 }, { 1, -1 }, { -2, 99 } }; if (isext) isext = 1;
        sprintf(t, "slice%d ", op); B.o = KOS_buffer_slice(ctx, A.o, d[op - 15][0], d[op - 15][1]); must(IS_BAD_PTR(B.o), 0); sliced(&b, &a, d[op - 15][0], d[op - 15][1]); break; }
    case 18: case 19: case 20: case 21: { static const int d[4][4] = { { 0, 1, 0, 99 }, { 2, 1, 1, 99 }, { 1, 0, 0, 99 }, { 0, 0, 1, -1 } }; const int *q = d[op - 18];
        sprintf(t, "copy%d ", op); must(KOS_buffer_copy(ctx, A.o, q[0], q[1] ? B.o : A.o, q[2], q[3]), 0); bcopy_(&a, q[0], q[1] ? &b : &a, q[2], q[3]); break; }
    case 22: { KOS_OBJ_ID o; Seq s; if (isext) return 0; o = A.o; s = a; sprintf(t, "swap "); A.o = B.o; B.o = o; a = b; b = s; break; }
    case 23: sprintf(t, "gc "); must(KOS_collect_garbage(ctx, 0), 0); break;
    case 24: if (isext) return 0; sprintf(t, "huge "); must(KOS_buffer_reserve(ctx, A.o, 0xFFFFFFFFu), 1); must(KOS_buffer_reserve(ctx, A.o, 0xFFFFFFC1u), 1); must(!KOS_buffer_make_room(ctx, A.o, 0xFFFFFFFFu - (unsigned)a.n), 1);
        if (a.n) must(!KOS_buffer_make_room(ctx, A.o, 0xFFFFFFFFu), 1); must(KOS_buffer_resize(ctx, A.o, 0xFFFFFFF0u), 1); must(IS_BAD_PTR(KOS_new_buffer(ctx, 0xFFFFFFFFu)), 1); break;
    default: sprintf(t, "new "); A.o = KOS_new_buffer(ctx, 2); isext = 0; must(KOS_buffer_fill(ctx, A.o, 0, 2, 1), 0); a.n = 2; a.v[0] = a.v[1] = 1; break;
    }
    strcat(hist, t);
    bchk(A.o, &a); bchk(B.o, &b); note();
    return 1;
}
static void histories(int nops_, int (*op)(int), void (*make)(int, int), int ways)
{
    int len, way, d[8], k; static const int L[] = { 0, 1, 3, 8 }, LB[] = { 0, 3, 17 };
    const int *ls = ways == 5 ? L : LB; const int nl = ways == 5 ? 4 : 3;
    for (len = 0; len < nl; len++) for (way = 0; way < ways; way++) {
        if (depth > 3 && ways == 5 && way != len && way != 4) continue;          /* every way and every length, not all pairs */
        memset(d, 0, sizeof(d));
        for (;;) {
            int i, ok = 1;
            if ((unsigned)(d[0] * nops_ + d[1]) % (unsigned)shards == (unsigned)shard) {
                counter = 1000; make(ls[len], way); sprintf(hist, "len=%d way=%d: ", ls[len], way);
                for (i = 0; i < depth && ok && nbad < 4; i++) ok = op(d[i]);
                nhist++;
                if (nbad > 3) return;
                k = ok ? depth - 1 : i - 1;                   /* no operation here: skip all its continuations */
            } else k = 1;
            for (i = k + 1; i < depth; i++) d[i] = 0;
            while (k >= 0 && ++d[k] == nops_) d[k--] = 0;
            if (k < 0) break;
        }
    }
}
static KOS_INSTANCE inst;
int main(int argc, char **argv)
{
    if (argc < 5 || KOS_instance_init(&inst, 0, &ctx)) return 2;
    shard = atoi(argv[2]); shards = atoi(argv[3]); depth = atoi(argv[4]);
    KOS_init_local(ctx, &A); KOS_init_local(ctx, &B);
    if (!strcmp(argv[1], "aops")) array_ops();
    else if (!strcmp(argv[1], "bops")) buffer_ops();
    else if (!strcmp(argv[1], "ahist")) histories(NAOPS, aop, mk, 5);
    else histories(NBOPS, bop, bmk, 4);
    A.o = KOS_BADPTR; B.o = KOS_BADPTR;
    KOS_destroy_top_locals(ctx, &B, &A);
    KOS_instance_destroy(&inst);
    if (created != finalized) { strcpy(hist, "end"); bad("external buffers finalized", finalized, created); }
    if (nbad) return 1;
    printf("OK %lu %lu %lu\n", nhist, nops, nstates);
    return 0;
}
