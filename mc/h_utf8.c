/* Exhaustive comparison of the UTF-8 functions with a straightforward reference.
 * Space: all byte sequences up to 3 bytes, all 4-byte sequences with every lead byte over classes of continuation bytes, all valid
 * sequences of 4 bytes, each at alignments and after/before ASCII runs; all escape sequences over an alphabet up to a length. */
#include "inc/kos_utf8.h"
#include "inc/kos_error.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
static unsigned long long states, accepted, calls;
static int bad;
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* reference decoder: returns number of code points or -1 */
static int ref(const u8 *s, int n, int esc, uint32_t *out)
{
    int i = 0, k = 0;
    while (i < n) {
        uint32_t c = s[i]; int len, j;
        if (c < 0x80) len = 1;
        else if (c >= 0xC2 && c <= 0xDF) len = 2, c &= 0x1F;
        else if (c >= 0xE0 && c <= 0xEF) len = 3, c &= 0x0F;
        else if (c >= 0xF0 && c <= 0xF7) len = 4, c &= 7;
        else return -1;
        if (i + len > n) return -1;
        for (j = 1; j < len; j++) {
            if (s[i + j] < 0x80 || s[i + j] > 0xBF) return -1;
            c = c * 64 + (s[i + j] - 0x80);
        }
        i += len;
        if (esc && c == '\\') {
            if (i >= n) return -1;
            c = s[i++];
            switch (c) {
                case '"': case '\\': break;
                case '0': c = 0; break;
                case 'e': c = 27; break;
                case 'f': c = 12; break;
                case 'n': c = 10; break;
                case 'r': c = 13; break;
                case 't': c = 9; break;
                case 'v': c = 11; break;
                case 'u': c = 'u'; break;
                case 'x':
                    if (i < n && s[i] == '{') {
                        int d = 0;
                        c = 0; i++;
                        for (;;) {
                            if (i >= n) return -1;
                            if (s[i] == '}') { i++; break; }
                            if (hexv(s[i]) < 0) return -1;
                            c = c * 16 + (uint32_t)hexv(s[i++]); d++;
                            if (c > 0xFFFFFF) return -1;
                        }
                        if (!d) return -1;
                    }
                    else {
                        if (i + 2 > n || hexv(s[i]) < 0 || hexv(s[i + 1]) < 0) return -1;
                        c = (uint32_t)(hexv(s[i]) * 16 + hexv(s[i + 1])); i += 2;
                    }
                    break;
                default: c = '\\'; i--; break;      /* kept as is */
            }
        }
        out[k++] = c;
    }
    return k;
}
static void fail(const char *what, const u8 *s, int n, int esc)
{
    int i;
    if (bad++ > 20) return;
    printf("FAIL %s esc=%d bytes", what, esc);
    for (i = 0; i < n; i++) printf(" %02X", s[i]);
    printf("\n");
}
static void check(const u8 *s, int n, int esc)
{
    uint32_t want[64], got32[64], max = 0, m = 0xDEADBEEF; uint16_t got16[64]; u8 got8[64], enc[300];
    int k = ref(s, n, esc, want), i; unsigned len;
    states++; calls++;
    len = KOS_utf8_get_len((const char *)s, (unsigned)n, esc ? KOS_UTF8_WITH_ESCAPE : KOS_UTF8_NO_ESCAPE, &m);
    if (k < 0) { if (len != ~0U) fail("malformed accepted", s, n, esc); return; }
    accepted++;
    if (len != (unsigned)k) { fail(len == ~0U ? "valid rejected" : "wrong length", s, n, esc); return; }
    for (i = 0; i < k; i++) if (want[i] > max) max = want[i];
    /* the maximum decides the width: it must select the same width */
    if ((max > 0xFF) != (m > 0xFF) || (max > 0xFFFF) != (m > 0xFFFF) || (max > 0x7F) != (m > 0x7F)) fail("wrong maximum", s, n, esc);
    KOS_utf8_decode_32((const char *)s, (unsigned)n, esc ? KOS_UTF8_WITH_ESCAPE : KOS_UTF8_NO_ESCAPE, got32);
    if (memcmp(got32, want, sizeof(uint32_t) * (size_t)k)) fail("decode 32", s, n, esc);
    if (max <= 0xFFFF) {
        KOS_utf8_decode_16((const char *)s, (unsigned)n, esc ? KOS_UTF8_WITH_ESCAPE : KOS_UTF8_NO_ESCAPE, got16);
        for (i = 0; i < k; i++) if (got16[i] != want[i]) { fail("decode 16", s, n, esc); break; }
    }
    if (max <= 0xFF) {
        KOS_utf8_decode_8((const char *)s, (unsigned)n, esc ? KOS_UTF8_WITH_ESCAPE : KOS_UTF8_NO_ESCAPE, got8);
        for (i = 0; i < k; i++) if (got8[i] != want[i]) { fail("decode 8", s, n, esc); break; }
    }
    /* encode back */
    if (max <= 0x1FFFFF) {
        uint32_t w2[64]; unsigned sz = KOS_utf8_calc_buf_size_32(want, (unsigned)k), j, exp = 0;
        for (i = 0; i < k; i++) exp += want[i] < 0x80 ? 1 : want[i] < 0x800 ? 2 : want[i] < 0x10000 ? 3 : 4;
        if (sz != exp) fail("size 32", s, n, esc);
        memset(enc, 0xEE, sizeof enc);
        KOS_utf8_encode_32(want, (unsigned)k, enc);
        for (j = exp; j < sizeof enc; j++) if (enc[j] != 0xEE) { fail("encode 32 writes too much", s, n, esc); break; }
        if (ref(enc, (int)exp, 0, w2) != k || memcmp(w2, want, sizeof(uint32_t) * (size_t)k)) fail("encode 32", s, n, esc);
        if (max <= 0xFFFF) {
            uint16_t w[64]; u8 e2[300];
            for (i = 0; i < k; i++) w[i] = (uint16_t)want[i];
            if (KOS_utf8_calc_buf_size_16(w, (unsigned)k) != exp) fail("size 16", s, n, esc);
            memset(e2, 0xEE, sizeof e2);
            KOS_utf8_encode_16(w, (unsigned)k, e2);
            if (memcmp(enc, e2, sizeof enc)) fail("encode 16", s, n, esc);
        }
        if (max <= 0xFF) {
            u8 w[64], e2[300];
            for (i = 0; i < k; i++) w[i] = (u8)want[i];
            if (KOS_utf8_calc_buf_size_8(w, (unsigned)k) != exp) fail("size 8", s, n, esc);
            memset(e2, 0xEE, sizeof e2);
            KOS_utf8_encode_8(w, (unsigned)k, e2);
            if (memcmp(enc, e2, sizeof enc)) fail("encode 8", s, n, esc);
        }
    }
    else {
        if (KOS_utf8_calc_buf_size_32(want, (unsigned)k) != ~0U) fail("too large code has a size", s, n, esc);
    }
}
static u8 mem[128] __attribute__((aligned(16)));
static void at(const u8 *s, int n, int align, int pre, int post)
{
    u8 *p = mem + align; int i;
    for (i = 0; i < pre; i++) p[i] = (u8)('a' + i);
    memcpy(p + pre, s, (size_t)n);
    for (i = 0; i < post; i++) p[pre + n + i] = (u8)('A' + i);
    p[pre + n + post] = 0x80;       /* out of bounds: must not matter */
    check(p, pre + n + post, 0);
}
int main(int argc, char **argv)
{
    int part = argc > 1 ? atoi(argv[1]) : 0, parts = argc > 2 ? atoi(argv[2]) : 1, depth = argc > 3 ? atoi(argv[3]) : 6, n, i, a, b;
    static const u8 cls[] = { 0, 0x41, 0x5C, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
    const int nc = (int)sizeof cls;
    u8 s[16];
    for (a = part; a < 256; a += parts) {
        s[0] = (u8)a;
        at(s, 1, 0, 0, 0);
        for (i = 0; i < 65536; i++) {
            s[1] = (u8)(i >> 8); s[2] = (u8)i;
            if (!(i & 255)) at(s, 2, 0, 0, 0);
            at(s, 3, 1, 0, 0);
        }
        for (i = 0; i < nc; i++) for (b = 0; b < nc; b++) for (n = 0; n < nc; n++) {
            s[1] = cls[i]; s[2] = cls[b]; s[3] = cls[n];
            at(s, 4, 2, 0, 0);
        }
        if (a >= 0xF0 && a <= 0xF7)
            for (i = 0; i < 64 * 64 * 64; i++) { s[1] = (u8)(0x80 | i >> 12); s[2] = (u8)(0x80 | (i >> 6 & 63)); s[3] = (u8)(0x80 | (i & 63)); at(s, 4, 0, 0, 0); }
        /* around the word-wise path: every alignment and run lengths */
        for (i = 0; i < nc; i++) for (b = 0; b < nc; b++) {
            int al, pre, post;
            s[1] = cls[i]; s[2] = cls[b];
            for (al = 0; al < 8; al++) for (pre = 0; pre <= 17; pre++) for (post = 0; post < 18; post += post < 2 || post > 6 ? 1 : 3) {
                at(s, 1 + (i + b) % 3, al, pre, post);
            }
        }
    }
    /* escapes: all strings over the alphabet, with runs around */
    {
        static const char al[] = "\\x{}\"0fn1Gu(\xC3";
        const int na = (int)sizeof al - 1;
        for (n = 1; n <= depth; n++) {
            long tot = 1, t;
            for (i = 0; i < n; i++) tot *= na;
            for (t = part; t < tot; t += parts) {
                long x = t; u8 *p; int j = 0, al8, len = 0;
                for (al8 = 0; al8 < (n < depth ? 3 : 1); al8++) {
                    p = mem + al8 * 3; x = t; len = 0;
                    for (i = 0; i < al8 * 4; i++) p[len++] = (u8)('a' + i);
                    for (i = 0; i < n; i++) { p[len++] = (u8)al[x % na]; if (p[len - 1] == 0xC3) p[len++] = 0xA9; x /= na; }
                    p[len] = '}';
                    check(p, len, 1);
                    (void)j;
                }
            }
        }
    }
    printf("states=%llu accepted=%llu calls=%llu bad=%d\n", states, accepted, calls, bad);
    return bad ? 1 : 0;
}
