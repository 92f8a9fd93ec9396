/* Outgoing text filter: server/strutil.c filtertext(), server/utf8.c decode()
 * @unit name=utf8_decode prop=C05 mode=plain under=decode def=U_DECODE,N=4 unwind=6
 * @unit name=filtertext prop=C05 enforce=filtertext def=U_FILTER,N=6 unwind=14 tier=quick level=bounded bound=texts_of_up_to_6_bytes,_every_limit_0..10
 * @unit name=filtertext_8 prop=C05 enforce=filtertext def=U_FILTER,N=8 unwind=18 tier=thorough level=bounded bound=texts_of_up_to_8_bytes,_every_limit_0..12
 */
#include "vp.h"
#include "vp_log.h"
#include "server/utf8.h"
struct vp_in { char s[N + 1]; unsigned char len; uint32_t state, codep; uint8_t byte; unsigned char k; char fill; };
#include "vp_in.h"

#define DMAX (N + 4)
static char src[N + 1];
static char dst[DMAX + 1];
static uint32_t g_state, g_codep;

/* RFC 3629 by ranges, independent of the table in utf8.c: length of the well-formed
 * sequence starting with b0 whose next bytes are b1,b2,b3; 0 if ill-formed;
 * *sub = length of the maximal ill-formed prefix to be replaced by one mark */
static bool cont(unsigned char b) { return b >= 0x80 && b <= 0xBF; }
static int utf8_len(unsigned char b0)
{
    if (b0 <= 0x7F) return 1;
    if (b0 >= 0xC2 && b0 <= 0xDF) return 2;
    if (b0 >= 0xE0 && b0 <= 0xEF) return 3;
    if (b0 >= 0xF0 && b0 <= 0xF4) return 4;
    return 0;
}
static bool second_ok(unsigned char b0, unsigned char b1)
{
    if (b0 == 0xE0) return b1 >= 0xA0 && b1 <= 0xBF;
    if (b0 == 0xED) return b1 >= 0x80 && b1 <= 0x9F;
    if (b0 == 0xF0) return b1 >= 0x90 && b1 <= 0xBF;
    if (b0 == 0xF4) return b1 >= 0x80 && b1 <= 0x8F;
    return cont(b1);
}

/* the specification: what the filter must produce for IN.s with limit `len` */
static char want[DMAX + 1];
static void spec_filter(size_t len)
{
    int i = 0, o = 0;
    for (int j = 0; j <= DMAX; j++) want[j] = 0;
    while (i < N && IN.s[i] != 0 && (size_t)i < len) {
        unsigned char b0 = IN.s[i];
        int k = utf8_len(b0);
        if (k == 0) { want[o++] = '?'; i++; continue; }
        if (k == 1) { if (b0 >= 0x20) want[o++] = b0; i++; continue; }
        int m = 1;                       /* bytes of this sequence that are acceptable */
        while (m < k && (size_t)(i + m) < len && i + m < N && IN.s[i + m] != 0 &&
               (m == 1 ? second_ok(b0, IN.s[i + 1]) : cont(IN.s[i + m]))) m++;
        if (m == k) {
            for (int q = 0; q < k; q++) want[o + q] = IN.s[i + q];
            o += k; i += k;
        } else if ((size_t)(i + m) >= len || i + m >= N || IN.s[i + m] == 0) {
            break;                       /* cut off by the limit or the end: dropped */
        } else { want[o++] = '?'; i += m; }
    }
}

static bool pre_filter(const char *s, const char *d, size_t len)
{ return s == src && d == dst && src[N] == 0 && len <= DMAX; }

/* result equals the specification, and no byte from dst[len] on is written */
static bool post_filter(size_t len)
{
    for (int j = 0; j < DMAX + 1; j++)
        if ((size_t)j < len ? dst[j] != want[j] : dst[j] != IN.fill) return false;
    for (int j = 0; j <= N; j++) if (src[j] != IN.s[j]) return false;
    return true;
}

void filtertext(const char *s, char *d, size_t len)
REQUIRES(pre_filter(s, d, len)) ASSIGNS(__CPROVER_object_upto(d, len)) ENSURES(post_filter(len));

/* decode(): one enforced step.  Abstract state: the byte string seen since the last boundary
 * (IN.s[0..m-1], an acceptable but incomplete prefix), which determines the automaton state. */
static uint32_t cp_of(int k)
{
    unsigned char a = IN.s[0], b = IN.s[1], c = IN.s[2], d = IN.s[3];
    if (k == 1) return a;
    if (k == 2) return ((a & 0x1Fu) << 6) | (b & 0x3Fu);
    if (k == 3) return ((a & 0x0Fu) << 12) | ((b & 0x3Fu) << 6) | (c & 0x3Fu);
    return ((a & 0x07u) << 18) | ((b & 0x3Fu) << 12) | ((c & 0x3Fu) << 6) | (d & 0x3Fu);
}
static bool prefix_ok(int m)      /* IN.s[0..m-1] is an acceptable proper prefix or complete sequence */
{
    int k = utf8_len(IN.s[0]);
    if (m > k) return false;
    for (int i = 1; i < m; i++)
        if (!(i == 1 ? second_ok(IN.s[0], IN.s[1]) : cont(IN.s[i]))) return false;
    return true;
}
static int g_m;                   /* bytes of the sequence consumed so far */
static bool post_decode(uint32_t r)
{
    if (r != g_state || r > 8) return false;
    if (!prefix_ok(g_m + 1)) return r == UTF8_REJECT;
    if (g_m + 1 == utf8_len(IN.s[0])) return r == UTF8_ACCEPT && g_codep == cp_of(g_m + 1);
    return r != UTF8_ACCEPT && r != UTF8_REJECT;
}
uint32_t decode(uint32_t *state, uint32_t *codep, uint8_t byte)
REQUIRES(state == &g_state && codep == &g_codep && *state <= 8)
ASSIGNS(*state, *codep)
ENSURES(post_decode(RV));

#include "server/strutil.c"
#include "server/utf8.c"

#ifdef U_DECODE
void harness(void)
{
    HARNESS_IN();
    g_state = UTF8_ACCEPT; g_codep = IN.codep;
    /* longest sequence is 4 bytes and every outcome but "more" ends it: 4 steps are complete */
    for (g_m = 0; g_m < 4; g_m++) {
        uint32_t r = decode(&g_state, &g_codep, (uint8_t)IN.s[g_m]);
        POST(post_decode(r));
        REACH(g_m == 3 && r == UTF8_ACCEPT, "4-byte character");
        if (r == UTF8_ACCEPT || r == UTF8_REJECT) break;
    }
}
#else
void harness(void)
{
    HARNESS_IN();
    IN.s[N] = 0;
    size_t len = IN.len;
    ASSUME(len <= DMAX);
    for (int i = 0; i <= N; i++) src[i] = IN.s[i];
    for (int i = 0; i <= DMAX; i++) dst[i] = IN.fill;
    spec_filter(len);
    PRE(pre_filter(src, dst, len));
    filtertext(src, dst, len);
    POST(post_filter(len));
    REACH(len > 8 && (unsigned char)dst[0] == 0xF4 && dst[4] == '?' && dst[5] == 'A', "4-byte character then ill-formed then ASCII");
}
#endif
VP_MAIN
