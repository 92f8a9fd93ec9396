/* Packet field parsing: server/strutil.c split(), getword(), get_tail(), filterfmt()
 * @unit name=split prop=C07 enforce=split def=U_SPLIT,N=9,VP_FIELDS=4 unwind=11 level=bounded bound=packets_of_up_to_9_bytes_in_a_configuration_with_MAX_FIELDS=4
 * @unit name=split_20 prop=C07 enforce=split def=U_SPLIT,N=20 unwind=22 tier=thorough level=bounded bound=packets_of_up_to_20_bytes
 * @unit name=getword prop=C07 enforce=getword def=U_GETWORD,N=254 unwind=256
 * @unit name=get_tail prop=C07 enforce=get_tail def=U_TAIL,N=64 unwind=66 tier=quick level=bounded bound=strings_of_up_to_64_bytes
 * @unit name=get_tail_254 prop=C07 enforce=get_tail def=U_TAIL,N=254 unwind=256 tier=thorough
 */
#include "vp.h"
#include "vp_log.h"
#ifdef VP_FIELDS
#undef MAX_FIELDS
#define MAX_FIELDS VP_FIELDS
#endif
struct vp_in { char s[N + 1]; unsigned char k; };
#include "vp_in.h"

static char buf[N + 1];
extern char *fields[MAX_FIELDS];

static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool unchanged(void) { for (int i = 0; i <= N; i++) if (buf[i] != IN.s[i]) return false; return true; }
static bool pre(const char *t) { return t == buf && buf[N] == 0; }

/* --- split: the packet is cut at every ^A into at most MAX_FIELDS fields, in order; fields the
 * packet does not have read as empty strings inside the packet; nothing else changes */
static int nsep(void) { int c = 0; for (int i = 0; i < N && IN.s[i]; i++) c += IN.s[i] == 1; return c; }
static int want_fields(void) { int c = nsep() + 1; return c > MAX_FIELDS ? MAX_FIELDS : c; }
static bool post_split(int n)
{
    if (n != want_fields()) return false;
    int f = 0;
    bool ended = false, start = true;
    for (int i = 0; i <= N; i++) {
        if (!ended && start) { if (fields[f] != buf + i) return false; start = false; }
        if (ended) { if (buf[i] != IN.s[i]) return false; }
        else if (IN.s[i] == 0) { if (buf[i] != 0) return false; ended = true; }
        else if (IN.s[i] == 1 && f + 1 < MAX_FIELDS) { if (buf[i] != 0) return false; f++; start = true; }
        else if (IN.s[i] != 1 && buf[i] != IN.s[i]) return false;
    }
    return f + 1 == n;
}
static bool post_split_rest(int n)
{
    for (int f = 0; f < MAX_FIELDS; f++)
        if (f >= n && !(fields[f] >= buf && fields[f] <= buf + N && fields[f][0] == 0)) return false;
    return true;
}
int split(char *s)
REQUIRES(pre(s)) ASSIGNS(__CPROVER_object_whole(buf), __CPROVER_object_whole(fields))
ENSURES(post_split(RV)) ENSURES(post_split_rest(RV));

/* --- getword: the first blank-delimited word, cut to what its 64-byte buffer holds */
static int wordlen(void) { int i = 0; while (i < N && IN.s[i] && !blank(IN.s[i])) i++; return i; }
static bool post_getword(const char *w)
{
    int l = wordlen();
    if (l > 63) l = 63;
    for (int i = 0; i < 64; i++) {
        if (i < l) { if (w[i] != IN.s[i]) return false; }
        else if (i == l && w[i] != 0) return false;
    }
    return unchanged();
}
char *getword(char *s)
REQUIRES(pre(s)) ENSURES(post_getword(RV));

/* --- get_tail: what follows the first word and the blanks behind it */
static int tailoff(void)
{
    int i = 0;
    while (i < N && IN.s[i] && !blank(IN.s[i])) i++;
    while (i < N && blank(IN.s[i])) i++;
    return i;
}
static bool post_tail(const char *t) { return t == buf + tailoff() && unchanged(); }
char *get_tail(char *s)
REQUIRES(pre(s)) ASSIGNS() ENSURES(post_tail(RV));

#include "server/strutil.c"

void harness(void)
{
    HARNESS_IN();
    IN.s[N] = 0;
    for (int i = 0; i <= N; i++) buf[i] = IN.s[i];
    PRE(pre(buf));
#if defined(U_SPLIT)
    static char stale[1] = { 'x' };
    for (int i = 0; i < MAX_FIELDS; i++) fields[i] = stale;
    int n = split(buf);
    POST(post_split(n)); POST(post_split_rest(n));
    REACH(n == MAX_FIELDS, "maximum number of fields");
    REACH(n == 1 && buf[0] == 0, "empty packet");
#elif defined(U_GETWORD)
    char *w = getword(buf);
    POST(post_getword(w));
    REACH(w[62] != 0, "63-character word");
#else
    char *t = get_tail(buf);
    POST(post_tail(t));
    REACH(t == buf + N - 1 && *t, "long tail");
#endif
}
VP_MAIN
