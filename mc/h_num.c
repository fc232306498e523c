/* Number text: kos_parse_numeric / kos_parse_double / kos_print_float against the C library.
 * argv: <part> <shard> <shards> <level>. Output: "BAD <text> <detail>" lines, then "OK <cases>". */
#include "core/kos_misc.h"
#include "inc/kos_error.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
int g_bad;
static unsigned long n;
static int shard, shards, level;
static void bad(const char *what, const char *text, double a, double b)
{
    if (g_bad++ < 10) printf("BAD %s: text %.90s got %.17g expected %.17g\n", what, text, a, b);
}
static int64_t key(double d) { int64_t k; memcpy(&k, &d, 8); return k < 0 ? INT64_MIN - k : k; }
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
/* exponent as written; text is sign digits [.digits] [e..] without underscores */
static void chk_parse(const char *t, int exp)
{
    double x = -1, y = strtod(t, 0);
    size_t l = strlen(t);
    char buf[1500];
    int r;
    memcpy(buf, t, l); buf[l] = '9'; /* characters after the end must not matter */
    r = kos_parse_double(buf, buf + l, &x);
    n++;
    if (exp > 308 || exp < -324) { if (!r) bad("exponent out of range accepted", t, x, y); return; }
    if (r) {
        if (!isinf(y) && fabs(y) < 1.7976931348623155e308) bad("rejected", t, 0, y);
        return;
    }
    if (isinf(y)) { if (!(fabs(x) >= 1.7976931348623155e308 && !isinf(x))) bad("too big accepted", t, x, y); return; }
    if (isinf(x) || isnan(x) || llabs(key(x) - key(y)) > 1) bad("value", t, x, y);
    if (!!signbit(x) != !!signbit(y)) bad("sign", t, x, y);
}
static void chk_print(double v)
{
    char buf[64], one[64], ref[400]; unsigned l; KOS_NUMERIC num; double back; char *e;
    memset(buf, 'Z', sizeof(buf));
    l = kos_print_float(buf, 32, v);
    n++;
    if (!l || l > 31 || memchr(buf, 'Z', l) || buf[32] != 'Z') { buf[40] = 0; bad("print", buf, l, v); return; }
    memcpy(one, buf, l); one[l] = 0;
    if (strcmp(one, "nan") == 0) { if (!isnan(v)) bad("nan", one, 0, v); return; }
    if (isnan(v)) { bad("nan", one, 0, v); return; }
    if (isinf(v)) { if (strcmp(one, v < 0 ? "-infinity" : "infinity")) bad("infinity", one, 0, v); return; }
    back = strtod(one, &e);
    if (*e) { bad("print text", one, back, v); return; }
    if (fabs(back - v) > 5.000001e-16 + fabs(v) * 2.3e-16 || (!!signbit(back) != !!signbit(v))) bad("printed value", one, back, v);
    /* normal notation whenever it fits */
    snprintf(ref, sizeof(ref), "%.15f", v);
    if (strlen(ref) < 31) {
        size_t k = strlen(ref);
        while (ref[k - 1] == '0' && ref[k - 2] != '.') k--;
        if (k != l || memcmp(ref, one, k)) bad("notation", one, back, v);
    }
    /* text is accepted back as a float of the same value */
    if (kos_parse_numeric(one, one + l, &num)) {
        if (fabs(v) < 1.7976931348623155e308) bad("not read back", one, 0, v);
        return;
    }
    if (num.type != KOS_FLOAT_VALUE) { bad("read back as integer", one, 0, v); return; }
    if (llabs(key(num.u.d) - key(back)) > 1) bad("read back", one, num.u.d, v);
}
static void chk_int(const char *t, int valid, uint64_t v)
{
    KOS_NUMERIC num; int64_t i = 5; size_t l = strlen(t); char buf[200]; int r;
    memcpy(buf, t, l); buf[l] = '1';
    n++;
    r = kos_parse_int(buf, buf + l, &i);
    if (!!r == !!valid || (valid && i != (int64_t)v)) bad("integer", t, (double)i, (double)(int64_t)v);
    r = kos_parse_numeric(buf, buf + l, &num);
    if (valid && (r || num.type != KOS_INTEGER_VALUE || num.u.i != (int64_t)v)) bad("numeric", t, (double)i, (double)(int64_t)v);
    if (!valid && !r && num.type == KOS_INTEGER_VALUE) bad("numeric", t, (double)i, 0);
}
static const int EDGE[] = {0, 1, 2, 3, 9, 50, 100, 300, 340, 400};
int main(int argc, char **argv)
{
    char b[1500]; int e, k, i; long m;
    const char *part = argv[1];
    shard = atoi(argv[2]); shards = atoi(argv[3]); level = atoi(argv[4]);
    if (!strcmp(part, "decimal")) {     /* all mantissas up to a limit, all exponents, several positions of the point */
        long lim = level ? 100000 : 3000;
        for (e = -330; e <= 312; e++) if ((e + 330) % shards == shard) {
            for (m = 0; m < lim; m++) { sprintf(b, "%lde%d", m, e); chk_parse(b, e); }
            for (m = 1; m < lim; m += 7) {
                sprintf(b, "-%ld.%lde%+d", m / 100, m % 100, e); chk_parse(b, e);
                sprintf(b, "0.%ldE%d", m, e); chk_parse(b, e);
                sprintf(b, "0.00000%ld000e%d", m, e); chk_parse(b, e);
                sprintf(b, "+%ld0000000000000000.0e%d", m, e); chk_parse(b, e);
            }
            for (k = 1; k <= 40; k++) for (i = 1; i <= 9; i++) {
                int j; char *p = b;
                for (j = 0; j < k; j++) *p++ = (char)('0' + i);
                sprintf(p, "e%d", e); chk_parse(b, e);
                memmove(b + 2, b + 1, strlen(b)); b[1] = '.'; chk_parse(b, e);
            }
        }
    }
    else if (!strcmp(part, "zeros")) {  /* long runs of zeros before, after and around the point, with compensating exponents */
        for (i = 0; i < 10; i++) for (k = 0; k < 10; k++) for (e = -324; e <= 308; e++) if ((e + 324) % shards == shard) {
            static const char *D[] = {"1", "9", "123456789", "99999999999999999", "17976931348623157", "22250738585072014", "49406564584124654"};
            for (m = 0; m < 7; m++) {
                char *p = b; int z = EDGE[i], y = EDGE[k];
                memset(p, '0', (size_t)z); p += z; *p++ = '.'; memset(p, '0', (size_t)y); p += y; p += sprintf(p, "%s", D[m]); sprintf(p, "e%d", e); chk_parse(b, e);
                p = b; p += sprintf(p, "%s", D[m]); memset(p, '0', (size_t)z); p += z; *p++ = '.'; memset(p, '0', (size_t)y); p += y; sprintf(p, "e%d", e); chk_parse(b, e);
            }
        }
    }
    else if (!strcmp(part, "binary")) { /* around every power of two: neighbours and exact half-way points, many digits */
        for (e = 0; e < 2047; e++) if (e % shards == shard) {
            static const uint64_t M[] = {0, 1, 2, 3, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x8000000000000ull, 0x7FFFFFFFFFFFFull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull};
            for (i = 0; i < (level ? 62 : 10); i++) {
                uint64_t u = i < 10 ? M[i] : 1ull << (i - 10); double d; static const int P[] = {0, 5, 14, 15, 16, 17, 18, 19, 20, 25, 40, 60, 120}; int s;
                u |= (uint64_t)e << 52; d = dbl(u);
                for (s = 0; s < 2; s++, d = -d) {
                    for (k = 0; k < 13; k++) {
                        sprintf(b, "%.*e", P[k], d);
                        chk_parse(b, atoi(strchr(b, 'e') + 1));
                    }
                    if (u) { /* exact quarter points up to the next */
                        long double ulp = (long double)dbl(u & ~(1ull << 63)) - (long double)dbl((u & ~(1ull << 63)) - 1), h; int w;
                        for (w = 1; w < 4; w++) {
                            h = (long double)dbl(u) + ulp * w / 4;
                            if (s) h = -h;
                            if (s == 0) { sprintf(b, "%.770Le", h); chk_parse(b, atoi(strchr(b, 'e') + 1)); }
                            sprintf(b, "%.30Le", h); chk_parse(b, atoi(strchr(b, 'e') + 1));
                            sprintf(b, "%.19Le", h); chk_parse(b, atoi(strchr(b, 'e') + 1));
                        }
                    }
                    if (fabs(d) < 1e60 && (fabs(d) > 1e-60 || level)) { sprintf(b, "%.300f", d); chk_parse(b, 0); }
                }
            }
        }
    }
    else if (!strcmp(part, "print")) {  /* all exponents of the format */
        for (e = 0; e < 2048; e++) if (e % shards == shard) {
            for (i = 0; i < 52; i++) for (k = 0; k < (level ? 52 : 4); k++) {
                uint64_t v[4]; v[0] = 1ull << i; v[1] = (1ull << i) - 1; v[2] = 0xFFFFFFFFFFFFFull ^ (1ull << i); v[3] = (1ull << i) | (level ? 1ull << k : 0x10101010ull);
                if (level) { chk_print(dbl(v[0] | v[3] | (uint64_t)e << 52)); if (k < 4) chk_print(-dbl(v[k] | (uint64_t)e << 52)); }
                else { chk_print(dbl(v[k] | (uint64_t)e << 52)); chk_print(-dbl(v[k] | (uint64_t)e << 52)); }
            }
            chk_print(dbl((uint64_t)e << 52)); chk_print(-dbl((uint64_t)e << 52));
        }
        for (m = 0; m < (level ? 2000000 : 100000); m++) if (m % shards == shard) {
            static const double S[] = {1, 10, 100, 1000, 1e5, 1e10, 1e15};
            for (k = 0; k < 7; k++) { chk_print((double)m / S[k]); chk_print(-(double)m / S[k]); chk_print((double)m * S[k]); }
        }
        for (e = -324; e <= 308; e++) if ((e + 324) % shards == shard) for (m = 1; m < 1000; m++) { sprintf(b, "%lde%d", m, e); chk_print(strtod(b, 0)); }
    }
    else if (!strcmp(part, "integer")) { /* around the limits in every base, an underscore at every position */
        static const char *PRE[3][2] = {{"", ""}, {"0x", "0X"}, {"0b", "0B"}};
        int base[3] = {10, 16, 2}, r, s, x, pos; __int128 v;
        for (r = 0; r < 3; r++) for (k = 0; k <= 66; k++) for (i = -3; i <= 3; i++) {
            char dig[90], t[120]; int len = 0; unsigned __int128 u; int valid;
            v = ((__int128)1 << k) + i; if (v < 0) continue;
            u = (unsigned __int128)v; do { int c = (int)(u % (unsigned)base[r]); dig[89 - len++] = (char)(c < 10 ? '0' + c : (k & 1 ? 'a' : 'A') + c - 10); u /= (unsigned)base[r]; } while (u);
            for (s = 0; s < 3; s++) for (x = 0; x < 2; x++) for (pos = 0; pos <= len; pos++) {
                uint64_t w = (uint64_t)v;
                sprintf(t, "%s%s%.*s%s%.*s", s == 0 ? "" : s == 1 ? "-" : "+", PRE[r][x], pos, dig + 90 - len, pos && pos < len ? "_" : "", len - pos, dig + 90 - len + pos);
                if (r == 0) valid = s == 1 ? v <= ((__int128)1 << 63) : v < ((__int128)1 << 63);
                else valid = v < ((__int128)1 << 64);
                if (s == 1) w = 0 - w;
                chk_int(t, valid, w);
            }
        }
        for (m = 0; m < (level ? 3000000 : 300000); m++) if (m % shards == shard) {
            char t[80]; int q; sprintf(t, "%ld", m); chk_int(t, 1, (uint64_t)m); sprintf(t, "-%ld", m); chk_int(t, 1, 0 - (uint64_t)m);
            sprintf(t, "0x%lX", m); chk_int(t, 1, (uint64_t)m); sprintf(t, "0x%lx", m * 0x1234567); chk_int(t, 1, (uint64_t)(m * 0x1234567));
            t[0] = '0'; t[1] = 'b'; for (q = 0; q < 22; q++) t[2 + q] = (char)('0' + ((m >> (21 - q)) & 1)); t[24] = 0; chk_int(t, 1, (uint64_t)m & 0x3FFFFF);
        }
    }
    printf("OK %lu\n", n);
    return g_bad ? 1 : 0;
}
