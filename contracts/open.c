/* Open messages: s_send_group(), s_exclude(), s_status_group() of server/s_group.c and openmsg() of server/msgs.c.
 * The lookups (users.c, groups.c) and word splitting (strutil.c) are the real ones; name lists (C10) and the send functions (C03) are contracts.
 * @assume time() does not go back
 * @unit name=s_send_group prop=C18 under=s_send_group def=VP_USERS=4,VP_GROUPS=3,F=1 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_group_names_of_2_characters
 * @unit name=s_status_group prop=C18 under=s_status_group def=VP_USERS=4,VP_GROUPS=3,F=2 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_group_names_of_2_characters
 * @unit name=s_exclude prop=C18 under=s_exclude def=VP_USERS=4,VP_GROUPS=3,F=3 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_5_arguments
 * @unit name=openmsg_00 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=0,GRP=0 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 * @unit name=openmsg_01 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=0,GRP=1 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 * @unit name=openmsg_03 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=0,GRP=3 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 * @unit name=openmsg_20 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=2,GRP=0 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 * @unit name=openmsg_21 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=2,GRP=1 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 * @unit name=openmsg_23 prop=C18 under=openmsg def=VP_USERS=4,VP_GROUPS=3,F=4,WHO=2,GRP=3 unwind=72 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users,_3_groups
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
struct vp_in { unsigned char login[4], grp[4], echo[4], pres[64], away, reg, vol, ctl, recv, moved, k; int n, mod, argc, cnt; long now, last; };
#include "vp_in.h"
static void on_list(const char *name, int id, int op);
static void on_status(int to, const char *c, const char *s);
#define ON_LIST on_list
#define ON_STATUS on_status
#include "vp_srv.h"
int restart;
static int nopen[MAX_USERS], nstg, nsend, nchange; static char opentext[4][8];
/* 5 names, two of them the same group */
static const char *const gname[5] = { "1", "Ab", "aB", "c", "" };
static int grp_of(int u) { return IN.grp[u] == 2 ? 1 : IN.grp[u]; }
void sendopen(int from, int to, const char *s)
{
    CHECK(from == IN.n, "from the sender"); CHECK(to >= 0 && to < MAX_USERS, "to a user");
    int i = 0; for (; i < 7 && s[i]; i++) opentext[to][i] = s[i]; opentext[to][i] = 0;
    nopen[to]++;
}
#if F == 4
#define time(p) ((time_t)IN.now)
int is_booting;
int s_change(int n, int argc)
{
    CHECK(n == IN.n && argc == 2, "moves the sender"); CHECK(eqs(fields[1], "ICB") && is_booting, "to the group for it"); nchange++;
    if (IN.moved) cpy(u_tab[n].group, "c");
    return IN.moved ? 0 : -1;
}
int s_status_group(int k, int tellme, int n, const char *c, const char *s) { CHECK(k == 1 && n == IN.n && eqs(c, "Boot"), "tells the group"); nstg++; return 0; }
int s_send_group(int n) { CHECK(n == IN.n, "of the sender"); CHECK(eqs(fields[0], "hi"), "exactly the text"); nsend++; return 0; }
#include "server/msgs.c"
#else
#include "server/s_group.c"
#endif
#include "server/users.c"
#include "server/groups.c"
#include "server/strutil.c"
#include "server/utf8.c"
static void on_list(const char *name, int id, int op)
{
    int u = id / NUL, k = id % NUL;
#if F == 4
    CHECK(op == 'p' && (id == GID(IN.vol >> 4, N_TALK) || id == GID(IN.vol >> 4, NR_TALK)) , "the talk lists of the group");
    CHECK(name == u_tab[IN.n].nickname, "asks for the sender");
#else
#if F == 3
    if (op == 'p') { CHECK(id >= MAX_USERS * NUL && ((id - MAX_USERS * NUL) % NGL == N_TALK || (id - MAX_USERS * NUL) % NGL == NR_TALK), "the talk lists"); CHECK(name == u_tab[IN.n].nickname, "asks for the sender"); return; }
#endif
    CHECK(op == 'm' && u < MAX_REAL_USERS && (k == PUB_S || k == PUB_N), "the list of open-message refusals");
    CHECK(k == PUB_N ? eqs(name, "NA") : eqs(name, "ID@HOST"), "asks for the sender, in capitals");
#endif
}
static int excl, inform; static const char *want;
static void on_status(int to, const char *c, const char *s)
{
#if F == 3
    CHECK(eqs(c, "Exclude"), "announces the exclusion"); inform++;
    CHECK(nstat[to] == nopen[to], "before the message");
    static const char h[] = "Na's next message excludes "; int i = 0; for (; h[i]; i++) CHECK(s[i] == h[i], "says who excludes"); 
#elif F == 2
    CHECK(eqs(c, "Class") && eqs(s, "text"), "exactly the text");
#else
    (void)c; (void)s; (void)to;
#endif
}
static bool same(int u, int g) { return grp_of(u) == g; }
static void setup(void)
{
    tables();
    for (int i = 0; i < MAX_GROUPS; i++) cpy(g_tab[i].name, i == 0 ? "1" : i == 1 ? "AB" : "C");
    for (int i = 0; i < MAX_USERS; i++) {
        ASSUME(IN.login[i] <= 2 && IN.grp[i] <= 4 && IN.echo[i] <= 2);
        ASSUME(IN.login[i] != 2 || IN.grp[i] != 4);          /* a logged-in user is in a group (C17) */
        u_tab[i].login = IN.login[i]; u_tab[i].echoback = IN.echo[i];
        const char *g = gname[0];
        for (int j = 1; j < 5; j++) if (IN.grp[i] == j) g = gname[j];
        u_tab[i].group[0] = g[0]; u_tab[i].group[1] = g[0] ? g[1] : 0;
        u_tab[i].nickname[0] = "NBcs"[i]; u_tab[i].nickname[1] = 'a';
    }
    ASSUME(IN.n >= 0 && IN.n < MAX_REAL_USERS);
    for (int i = 0; i < MAX_USERS * NUL + MAX_GROUPS * NGL && i < 64; i++) { ASSUME(IN.pres[i] <= 1); pres[i] = IN.pres[i]; }
}
static void me(int n) { cpy(u_tab[n].nickname, "Na"); cpy(u_tab[n].loginid, "id"); cpy(u_tab[n].nodeid, "Host"); }
static bool wants(int i) { return (i != IN.n || IN.echo[i]) && i < MAX_REAL_USERS && grp_of(i) == grp_of(IN.n) && IN.login[i] == LOGIN_COMPLETE && !IN.pres[UID(i, PUB_N)] && !IN.pres[UID(i, PUB_S)]; }
static void go(void)
{
    setup();
#if F == 1
    me(IN.n);
    ASSUME(IN.login[IN.n] == 2);
    static char t[] = "hello"; fields[0] = t;
    s_send_group(IN.n);
    for (int i = 0; i < MAX_USERS; i++) {
        CHECK(nopen[i] == wants(i), "every member of the group who accepts it gets it once, and no one else");
        if (nopen[i]) CHECK(eqs(opentext[i], "hello"), "exactly the text");
    }
    CHECK(sum(nstat) == 0 && sum(nerr) == 0, "nothing else is sent");
    REACH(nopen[0] && nopen[2] && !nopen[1] && grp_of(1) == grp_of(0), "some"); REACH(nopen[IN.n], "echo");
#elif F == 2
    ASSUME(IN.k <= 1 && IN.argc >= 1 && IN.argc <= 2);
    int g = IN.argc == 1 ? grp_of(IN.n) : IN.cnt == 2 ? 3 : IN.cnt;
    ASSUME(g != 4);
    s_status_group(IN.argc, IN.k, IN.argc == 1 ? IN.n : IN.cnt, "Class", "text");
    for (int i = 0; i < MAX_USERS; i++)
        CHECK(nstat[i] == (i < MAX_REAL_USERS && grp_of(i) == g && (IN.argc == 2 || IN.k || i != IN.n)), "every member of the group is told once, and no one else");
    REACH(nstat[0] && nstat[1] && IN.argc == 1, "told"); REACH(nstat[0] && IN.argc == 2, "by group");
#elif F == 3
    int n = IN.n, g = grp_of(n) == 3 ? 2 : grp_of(n);
    ASSUME(IN.login[n] == 2);
    ASSUME(IN.vol >= QUIET && IN.vol <= LOUD && IN.ctl >= PUBLIC && IN.ctl <= CONTROLLED && IN.mod >= -1 && IN.mod < MAX_REAL_USERS && IN.reg <= 1);
    g_tab[g].volume = IN.vol; g_tab[g].control = IN.ctl; g_tab[g].mod = IN.mod;
    if (IN.reg) cpy(u_tab[n].realname, "registered");
    s_exclude(n, IN.argc);
    bool may = IN.ctl != CONTROLLED || IN.mod == n || IN.pres[GID(g, N_TALK) % 64] || (IN.reg && IN.pres[GID(g, NR_TALK) % 64]);
    bool ok = IN.argc == 2 && want[0] && IN.vol != QUIET && may;
    for (int i = 0; i < MAX_USERS; i++) {
        CHECK(nopen[i] == (ok && wants(i) && i != excl), "everyone who would get it but the one excluded, and no one else");
        CHECK(nstat[i] >= nopen[i], "and is told of the exclusion");
        if (nopen[i]) CHECK(eqs(opentext[i], want), "exactly the text");
    }
    CHECK(IN.argc != 2 || ok || sum(nerr) == 1, "a refusal is told"); CHECK(only(nerr, n), "to the sender only");
    REACH(ok && nopen[2] && excl == 1, "sent"); REACH(IN.argc == 2 && want[0] && IN.vol != QUIET && !may, "may not talk");
#elif F == 4
    int n = IN.n, g = grp_of(n) == 3 ? 2 : grp_of(n) == 4 ? 0 : grp_of(n);
    if (IN.login[n] == 2 && g == 0 && IN.moved) ASSUME(IN.moved == 1);
    ASSUME((IN.vol & 15) >= QUIET && (IN.vol & 15) <= LOUD && IN.ctl >= PUBLIC && IN.ctl <= CONTROLLED && IN.mod >= -1 && IN.mod < MAX_REAL_USERS && IN.reg <= 1 && IN.moved <= 1);
    static char t[12]; t[0] = 'h'; t[1] = 'i'; if (IN.k & 1) { t[2] = '\001'; t[3] = 'x'; }
    static char f1[4]; fields[1] = f1;
    if (IN.away) cpy(u_tab[n].awaymsg, "gone");
    u_tab[n].t_recv = IN.last; ASSUME(IN.now >= IN.last && IN.last >= 0 && IN.now < 1000000); ASSUME(IN.cnt >= 0 && IN.cnt < 1000);
    u_recv_count[n] = IN.cnt;
    bool in = IN.login[n] == 2, spam = in && g == 0 && IN.now == IN.last && IN.cnt + 1 > 2;
    int g2 = spam && IN.moved ? 2 : g;
    IN.vol = (IN.vol & 15) | g2 << 4;
    g_tab[g2].volume = IN.vol & 15; g_tab[g2].control = IN.ctl; g_tab[g2].mod = IN.mod;
    if (IN.reg) cpy(u_tab[n].realname, "registered");
    openmsg(n, t);
    if (!in) { CHECK(nsend == 0 && nchange == 0 && nstg == 0 && sum(nstat) == 0 && sum(nerr) == 0 && u_tab[n].t_recv == IN.last, "nothing happens before the login is complete"); return; }
    bool may = IN.ctl != CONTROLLED || IN.mod == n || IN.pres[GID(g2, N_TALK) % 64] || (IN.reg && IN.pres[GID(g2, NR_TALK) % 64]);
    int members = 0;
    for (int i = 0; i < MAX_USERS; i++) members += i == n ? 1 : (grp_of(i) == 3 ? 2 : grp_of(i)) == g2;
    bool ok = !(IN.k & 1) && (IN.vol & 15) != QUIET && may && members > 1;
    CHECK(nsend == ok, "sent to the group exactly if allowed");
    CHECK(nerr[n] == (!ok && !(IN.k & 1)) && only(nerr, n), "a refusal is told to the sender");
    CHECK(only(nstat, n) && sum(nimp) == 0, "nothing to others");
    CHECK(nchange == spam && nstg == spam, "moved only for spamming");
    CHECK(u_tab[n].t_recv == IN.now, "counts as activity");
    
#if GRP == 0
    REACH(ok && spam, "spam");
#endif
    REACH(ok && IN.ctl == CONTROLLED && IN.mod != n, "talker"); REACH(!may && IN.mod == -1, "no moderator"); REACH(!ok && may && members == 1, "alone");
#endif
}
void harness(void)
{
    HARNESS_IN();
#if F == 3
    static const char *const a[5] = { "Ba hi", "cA  a b", "zz hi", "Ba", "" }; static const int ex[5] = { 1, 2, -1, -1, -1 }; static const char *const w[5] = { "hi", "a b", "hi", "", "" };
    static char b[12];
    for (int k = 0; k < 5; k++) if (IN.k == k && IN.argc == 2 && IN.n == 0) { IN.n = 0; IN.argc = 2; for (int i = 0; a[k][i]; i++) b[i] = a[k][i]; fields[1] = b; excl = ex[k]; want = w[k]; 
        setup(); me(0); go(); return; }
    if (IN.argc != 2) { IN.n = 2; fields[1] = b; want = ""; excl = -1; go(); }
#elif F == 4
    { int n = WHO; if (IN.n == n && grp_of(n) == GRP) { IN.n = n; IN.grp[n] = GRP; go(); return; } }
#elif F == 2
    for (int n = 0; n < MAX_GROUPS; n++) if (IN.n == n && IN.argc == 1) { IN.n = n; IN.argc = 1; go(); return; } else if (IN.cnt == n && IN.argc == 2) { IN.cnt = n; IN.argc = 2; IN.n = 0; go(); return; }
#else
    for (int n = 0; n < MAX_REAL_USERS; n++) if (IN.n == n) { IN.n = n; go(); return; }
#endif
}
VP_MAIN
