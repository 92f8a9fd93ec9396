/* Name filters and case folding: server/strutil.c
 * @unit name=filternickname prop=C06 enforce=filternickname def=U_NICK,N=32 unwind=34 tier=quick
 * @unit name=filtergroupname prop=C06 enforce=filtergroupname def=U_GROUP,N=32 unwind=34 tier=quick
 * @unit name=lcaseit prop=C06 enforce=lcaseit def=U_LCASE,N=64 unwind=66 tier=quick
 * @unit name=ucaseit prop=C06 enforce=ucaseit def=U_UCASE,N=64 unwind=66 tier=quick
 */
#include "vp.h"
#include "vp_log.h"
struct vp_in { char s[N + 1]; };
#include "vp_in.h"

static char buf[N + 1];

static bool alnum7(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
static bool punct_common(char c)
{ return c == '-' || c == '.' || c == '!' || c == '\'' || c == '$' || c == '+' || c == ',' || c == '/' || c == '?' || c == '_'; }
static bool nick_ok(char c) { return alnum7(c) || punct_common(c) || c == '@'; }
static bool group_ok(char c) { return alnum7(c) || punct_common(c) || c == '~'; }
static char lower7(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static char upper7(char c) { return (c >= 'a' && c <= 'z') ? (char)(c - 32) : c; }
static char nick_map(char c) { return nick_ok(c) ? c : c == ' ' ? '_' : '?'; }
static char group_map(char c) { return group_ok(c) ? c : c == ' ' ? '_' : '?'; }

#if defined(U_NICK)
#define MAP nick_map
#elif defined(U_GROUP)
#define MAP group_map
#elif defined(U_LCASE)
#define MAP lower7
#else
#define MAP upper7
#endif

static bool pre(const char *t) { return t == buf && buf[N] == '\0'; }

/* every character before the terminator is mapped, the terminator stays where it was,
 * and nothing behind it is touched */
static bool post(void)
{
    bool ended = false;
    for (int i = 0; i <= N; i++) {
        if (IN.s[i] == '\0') ended = true;
        if (ended ? buf[i] != IN.s[i] : buf[i] != MAP(IN.s[i])) return false;
    }
    return true;
}

void filternickname(char *txt)
REQUIRES(pre(txt)) ASSIGNS(__CPROVER_object_whole(buf)) ENSURES(post());
void filtergroupname(char *txt)
REQUIRES(pre(txt)) ASSIGNS(__CPROVER_object_whole(buf)) ENSURES(post());
void lcaseit(char *s)
REQUIRES(pre(s)) ASSIGNS(__CPROVER_object_whole(buf)) ENSURES(post());
void ucaseit(char *s)
REQUIRES(pre(s)) ASSIGNS(__CPROVER_object_whole(buf)) ENSURES(post());

#include "server/strutil.c"

void harness(void)
{
    HARNESS_IN();
    IN.s[N] = '\0';
    for (int i = 0; i <= N; i++) buf[i] = IN.s[i];
    PRE(pre(buf));
#if defined(U_NICK)
    filternickname(buf);
#elif defined(U_GROUP)
    filtergroupname(buf);
#elif defined(U_LCASE)
    lcaseit(buf);
#else
    ucaseit(buf);
#endif
    POST(post());
    REACH(IN.s[0] != buf[0] && IN.s[N - 1] != buf[N - 1], "first and last character rewritten");
    REACH(buf[0] == '\0', "empty string");
}
VP_MAIN
