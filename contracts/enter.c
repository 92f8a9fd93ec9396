/* Entering a group: s_change() of server/s_group.c with the real s_status_group(), lookups (users.c, groups.c) and filters (strutil.c).
 * @assume a user in a group is in one that exists, and every group has members (kept by s_change itself and C21); name lists by their contract (C10), check_auth by C14
 * @unit name=existing_none prop=C17 under=s_change,s_status_group,find_group,count_users_in_group,clear_group_item def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=1,MD=-1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_short_texts
 * @unit name=existing_0 prop=C17 under=s_change,s_status_group def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=1,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_short_texts
 * @unit name=existing_me prop=C17 under=s_change,s_status_group def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=1,MD=1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_short_texts
 * @unit name=existing_2 prop=C17 under=s_change,s_status_group def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=1,MD=2 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_short_texts
 * @unit name=new prop=C17 under=s_change,find_empty_group,filtergroupname def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=2,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_enumerated_names
 * @unit name=refused prop=C17 under=s_change,find_user def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=3,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_3_groups,_enumerated_arguments
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
struct vp_in { unsigned char pres[72], auth, reg, vol, ctl, vis, vol2, k, size, boot, full, argc3, ovis; signed char old; int now; };
#include "vp_in.h"
static void on_list(const char *name, int id, int op);
static void on_status(int to, const char *c, const char *s);
#define ON_LIST on_list
#define ON_STATUS on_status
#include "vp_srv.h"
#include "server/access.h"
#define time(p) ((time_t)IN.now)
enum { ME = 1 };        /* who enters; user 0 is in group 0, "Ab" */
static int narr[MAX_USERS], ndep[MAX_USERS], nprobe[MAX_USERS], nst[MAX_USERS]; static const char *aclass;
int check_auth(int n) { CHECK(n == ME, "of the one who enters"); return IN.auth; }
void add_item(int n, const char *item, char *buf) { (void)n; (void)item; (void)buf; }
char *nlget(NAMLIST *nl) { (void)nl; return ""; }
int restart; char *status_table[] = { 0 };
int lookup(char *s, char *t[]) { (void)s; (void)t; return -1; }
#include "server/s_group.c"
#include "server/users.c"
#include "server/groups.c"
#include "server/strutil.c"
#include "server/utf8.c"
static void on_list(const char *name, int id, int op)
{
    if (op == '+' || op == '-') { CHECK(0, "lists stay"); return; }
    if (id < MAX_USERS * NUL) {
        CHECK(MD >= 0 && (id == UID(MD, PRI_N) || id == UID(MD, PRI_S)) && op == 'm', "what the moderator hushes");
        CHECK(id % NUL == PRI_N ? eqs(name, "NB") : eqs(name, "ID@HO"), "asks for the one who enters, in capitals");
    } else {
        int k = (id - MAX_USERS * NUL) % NGL;
        CHECK(k <= SR_INV, "the invitations"); CHECK(k <= NR_INV ? op == 'p' && eqs(name, "Nb") : op == 'm' && eqs(name, "ID@HO"), "asks for the one who enters");
    }
}
static void on_status(int to, const char *c, const char *s)
{
    (void)s;
    if (eqs(c, aclass) || (F == 1 && IN.k == 1 && eqs(c, "Arrive"))) narr[to]++; else if (eqs(c, "Depart")) ndep[to]++; else if (eqs(c, "Probe")) nprobe[to]++; else if (eqs(c, "Status")) nst[to]++; else CHECK(0, "nothing else is announced");
}
static bool in(int u, const char *g) { return eqs(u_tab[u].group, g); }
/* old: 0 not in a group yet, 1 alone in "c", 2 with user 2 in "c" */
static void setup(const char *g0)
{
    tables();
    ASSUME(IN.vol >= QUIET && IN.vol <= LOUD && IN.vol2 >= QUIET && IN.vol2 <= LOUD && IN.ctl >= PUBLIC && IN.ctl <= CONTROLLED && IN.vis >= VISIBLE && IN.vis <= SUPERSECRET && IN.auth <= 1 && IN.now > 0 && IN.size <= 4 && IN.boot <= 1);
    cpy(g_tab[0].name, g0); g_tab[0].mod = MD; g_tab[0].control = IN.ctl; g_tab[0].volume = IN.vol; g_tab[0].visibility = IN.vis; g_tab[0].size = IN.size;
    if (IN.old) { cpy(g_tab[1].name, "c"); g_tab[1].mod = ME; g_tab[1].control = MODERATED; g_tab[1].volume = IN.vol2; }
    if (IN.full) { cpy(g_tab[2].name, "z"); if (!IN.old) cpy(g_tab[1].name, "c"); }
    for (int i = 0; i < MAX_USERS; i++) {
        u_tab[i].login = LOGIN_COMPLETE; cpy(u_tab[i].nickname, i == 0 ? "Na" : i == 1 ? "Nb" : i == 2 ? "Nc" : "Server"); cpy(u_tab[i].loginid, "id"); cpy(u_tab[i].nodeid, "Ho");
    }
    cpy(u_tab[0].group, g0); if (IN.old) cpy(u_tab[ME].group, "c"); else u_tab[ME].login = 1;
    if (IN.old == 2) cpy(u_tab[2].group, "c");
    if (IN.reg & 1) u_tab[ME].realname[0] = 'R';
    for (int i = 0; i < NLISTS && i < 72; i++) { ASSUME(IN.pres[i] <= 1); pres[i] = IN.pres[i]; }
    is_booting = IN.boot;
    aclass = IN.old == 0 || (IN.argc3 & 1) ? "Sign-on" : "Arrive";
}
static char arg[40];
static int call(const char *a) { cpy(arg, a); fields[1] = arg; return s_change(ME, 2 + (IN.argc3 & 1)); }
static void stayed(int r, bool told)
{
    CHECK(r == -1, "fails"); CHECK(in(ME, IN.old ? "c" : ""), "and stays where he is");
    CHECK(nerr[ME] == 1 && only(nerr, ME) && told, "and is told"); CHECK(sum(narr) == 0 && sum(ndep) == 0 && sum(nst) == 0, "nobody else is");
    if (IN.old) CHECK(eqs(g_tab[1].name, "c") && g_tab[1].mod == ME, "his group stays");
}
/* he is in group g now */
static void moved(int r, int g, bool quiet)
{
    CHECK(r == 0 && sum(nerr) == 0, "succeeds"); CHECK(in(ME, g_tab[g].name) && find_group(u_tab[ME].group) == g, "he is in that group"); CHECK(u_tab[ME].t_group == IN.now, "since now");
    CHECK(nst[ME] == 1 && only(nst, ME), "he is told");
    for (int i = 0; i < MAX_USERS; i++) CHECK(narr[i] == (i == 0 && g == 0 && !quiet), "the group is told once, unless it is quiet");
    for (int i = 0; i < MAX_USERS; i++) CHECK(ndep[i] == (i == 2 && IN.old == 2 && IN.vol2 != QUIET), "so is the one he left");
    if (IN.old == 2) CHECK(eqs(g_tab[1].name, "c") && g_tab[1].mod == ME && in(2, "c"), "which stays, as long as it has members"); else if (IN.old == 1) CHECK(g_tab[1].name[0] == 0 && g_tab[1].mod == -1, "or vanishes");
    CHECK(nimp[ME] == (IN.old == 2 && IN.vol2 != QUIET) && only(nimp, ME), "its moderator is reminded");
    CHECK(sum(nprobe) == 0, "no attempt is reported");
}
static void kept(const char *g0) { CHECK(eqs(g_tab[0].name, g0) && in(0, g0) && g_tab[0].mod == MD && g_tab[0].control == IN.ctl && g_tab[0].visibility == IN.vis && g_tab[0].volume == IN.vol && g_tab[0].size == IN.size, "the group entered is as it was"); }
static void count(void) { for (int g = 0; g < MAX_GROUPS; g++) if (!(IN.full && g > 0)) { int c = 0; for (int i = 0; i < MAX_USERS; i++) if (g_tab[g].name[0] && find_group(u_tab[i].group) == g) c++; CHECK((c > 0) == (g_tab[g].name[0] != 0), "exactly the groups with members exist"); } }
#if F == 1
#define NK 2
static void go(int k)
{
    const char *g0 = "Ab";
    setup(g0);
    int r = call(k == 0 ? "aB" : "@nA");
    if (k > 0 && IN.vis != VISIBLE) { stayed(r, sum(nprobe) == 0); kept(g0); return; }
    const unsigned char *p = IN.pres + MAX_USERS * NUL;
    bool inv = p[N_INV] || p[S_INV] || ((IN.reg & 1) && (p[NR_INV] || p[SR_INV]));
    bool may = IN.ctl != RESTRICTED || IN.auth || MD == ME || inv || IN.boot, full = IN.ctl != RESTRICTED && IN.ctl != PUBLIC && IN.size == 1 && MD != ME;
    if (may && !full) moved(r, 0, IN.vol == QUIET);
    else {
        bool probe = false;
        if (MD >= 0) probe = IN.vol == LOUD && !IN.pres[UID(MD, PRI_N)] && !IN.pres[UID(MD, PRI_S)];
        if (MD == 0) probe = probe && nprobe[0];        /* descriptor 0 is never a client's: left open whether he is told */
        stayed(r, true);
        for (int i = 0; i < MAX_USERS; i++) { CHECK(nprobe[i] == (probe && i == MD), "the moderator is told of the attempt if he wants to hear"); CHECK(lpriv_id[i] == (probe && i == MD ? ME : -1), "and may answer"); }
    }
    kept(g0); count();
#if MD == 0
    REACH(full && may, "full");
#elif MD == 2
    REACH(!may && nprobe[2], "probe");
#elif MD == 1
    REACH(may && IN.ctl == RESTRICTED, "moderator");
#endif
    REACH(may && !full && IN.old == 2, "entered"); REACH(k == 1 && may && !full, "by user");
}
#elif F == 2
#define NK 9
static const char *const args[NK] = { "new", ".sec", "..top", "1", "~reseda~", "~IDLE~", "abcdefghijkl", "a%n", "..abcdefghijkl" };
static const char *const names[NK] = { "new", "sec", "top", "1", "~reseda~", "~IDLE~", "abcdefgh", NULL, "abcdefgh" };
static void go(int k)
{
    setup("Ab");
    int r = call(args[k]);
    if (IN.full) { stayed(r, true); kept("Ab"); CHECK(eqs(g_tab[2].name, "z"), "no group is lost"); return; }
    int g = IN.old ? 2 : 1;
    CHECK(names[k] ? eqs(g_tab[g].name, names[k]) : g_tab[g].name[0] == 'a' && g_tab[g].name[1] && g_tab[g].name[2] == 'n' && g_tab[g].name[1] != '%', "a new group of that name");
    CHECK(g_tab[g].visibility == (k == 1 || k == 4 ? SECRET : k == 2 || k == 8 ? SUPERSECRET : VISIBLE), "as visible as asked");
    bool pub = k >= 3 && k <= 5;
    CHECK(g_tab[g].control == (pub ? PUBLIC : MODERATED) && g_tab[g].mod == (pub ? -1 : ME), "moderated by who made it, unless it belongs to all");
    CHECK((g_tab[g].volume == QUIET) == (k == 5), "quiet for the idlers"); CHECK(g_tab[g].size == 0, "for any number");
    moved(r, g, g_tab[g].volume == QUIET); kept("Ab"); count();
    REACH(k == 1, "secret"); REACH(k == 5, "idlers"); REACH(k == 8, "long");
}
#else
#define NK 8
static const char *const args[NK] = { "", ".", "..", "@zz", "@Nc", "c", "@Nb", "@" };
static void go(int k)
{
    setup("Ab");
    if (k == 4) { ASSUME(IN.old != 2); u_tab[2].login = 1; }
    if ((k == 5 || k == 6) && !IN.old) return;
    if (k == 5 || k == 6) g_tab[1].size = IN.size;
    stayed(call(args[k]), sum(nprobe) == 0); kept("Ab"); count();
    REACH(k == 4, "no group"); REACH(k == 5, "same");
}
#endif
#ifdef VP_NATIVE
#define DONE return
#else
#define DONE __CPROVER_assume(0)
#endif
void harness(void)
{
    HARNESS_IN();
    for (int o = 0; o < 3; o++) for (int k = 0; k < NK; k++) for (int f = 0; f < (F == 2 ? 2 : 1); f++) {
        if (!(IN.old == o && IN.k == k && IN.full == f) || (f && k > 0) || (MD == ME && o == 0)) continue;
        IN.old = o; IN.k = k; IN.full = f; go(k); DONE;
    }
}
VP_MAIN
