/* The end of a connection and the housekeeping between packets: server/ipcf.c with the real users.c and groups.c.
 * @assume a group with a moderator has a name and members (kept by s_change, s_lost_user, s_didpoll); mbuf holds any message (its text is not modelled here)
 * @unit name=s_lost_user_00 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=0,M=0 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_01 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=0,M=1 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_02 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=0,M=2 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_03 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=0,M=3 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_10 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=1,M=0 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_11 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=1,M=1 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_12 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=1,M=2 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=s_lost_user_13 prop=C21 under=s_lost_user,clear_user_item,clear_group_item,check_mods def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=1,WHO=1,M=3 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups,_short_texts,_3_orders_of_activity
 * @unit name=dispatch prop=C21 under=dispatch def=VP_USERS=4,VP_GROUPS=3,F=2 unwind=30 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=s_didpoll_kill prop=C21 under=s_didpoll def=VP_SMALL,VP_USERS=3,VP_GROUPS=3,F=3 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users
 * @unit name=s_didpoll_idle prop=C22 under=s_didpoll def=VP_SMALL,VP_USERS=3,VP_GROUPS=3,F=4 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_3_groups
 * @unit name=s_didpoll_mods_none prop=C22 under=s_didpoll def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=5,MD=-1 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups
 * @unit name=s_didpoll_mods_0 prop=C22 under=s_didpoll def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=5,MD=0 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups
 * @unit name=s_didpoll_mods_1 prop=C22 under=s_didpoll def=VP_SMALL,VP_USERS=3,VP_GROUPS=2,F=5,MD=1 unwind=80 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=2_users_and_the_server,_2_groups
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
struct vp_in { unsigned char login[4], grp[4], away[4], pres[64], reg, vol[3], vis[3], ctl[3], kill[4]; int n, loginres; signed char mod[3]; int recv[4], idle[3], idlem[3]; int now, mto[3]; int moved; unsigned char type, pkt1; };
#include "vp_in.h"
static void on_list(const char *name, int id, int op);
static void on_status(int to, const char *c, const char *s);
#define ON_LIST on_list
#define ON_STATUS on_status
#include "vp_srv.h"
#undef sprintf
#undef snprintf
#include "server/access.h"
/* texts for mbuf are not modelled; the user's address is */
#ifndef VP_NATIVE
#define sprintf(d, f, ...) ((f)[0] == '%' && (f)[2] == '@' ? vp_sprintf(d, f, __VA_ARGS__) : ((d)[0] = 't', (d)[1] = 0, 1))
#define snprintf(d, n, ...) ((d)[0] = 't', (d)[1] = 0, 1)
#endif
static int ncut[MAX_USERS], nexit[MAX_USERS], ntime, nsg, sg_group[8], sg_kind[8], nlogin, nopen, ncmd, npong; static char *hpkt; static bool stepped;
int is_booting, restart;
#define time(p) ((time_t)IN.now)
int pktserv_disconnect(int s) { CHECK(s >= 0 && s <= MAX_USERS, "a connection"); if (s < MAX_USERS) ncut[s]++; else ntime = 100; return 0; }
void icbexit(int s) { CHECK(0, "the server does not end"); }
int nickwritetime(int forWhom, int class, DBM *db) { CHECK(forWhom == IN.n && class == 1, "sign-off time of the user"); CHECK(u_tab[IN.n].nickname[0] == 'N', "under his name"); ntime++; return 0; }
int s_status_group(int k, int tellme, int n, const char *c, const char *s)
{
    (void)tellme; (void)c; (void)s;
    CHECK(k == 1 ? n >= 0 && n < MAX_USERS : n >= 0 && n < MAX_GROUPS, "a user or a group"); CHECK(k == 1 || g_tab[n].name[0], "a group that exists");
    if (nsg < 8) { sg_kind[nsg] = k; sg_group[nsg] = n; }
    nsg++; return 0;
}
/* one combination of memberships and moderators; the rest of the state is symbolic */
static int cg[MAX_USERS], cm[MAX_GROUPS];
static const char *const gn[4] = { "", "1", "Ab", IDLE_GROUP };
static int nchg[MAX_USERS];
int s_change(int n, int argc)
{
    CHECK(n >= 0 && n < MAX_REAL_USERS && argc == 2, "a user"); CHECK(eqs(fields[1], IDLE_GROUP) && is_booting, "moved to the idlers");
    nchg[n]++;
    if (IN.moved) { for (int i = 0; IDLE_GROUP[i]; i++) u_tab[n].group[i] = IDLE_GROUP[i]; }
    return 0;
}
#if F == 2
void sendexit(int to) { CHECK(to == IN.n, "told to the client"); nexit[0]++; }
int loginmsg(int n, char *p) { CHECK(n == IN.n && p == hpkt + 1, "the packet's data"); nlogin++; return IN.loginres; }
void openmsg(int n, char *p) { CHECK(n == IN.n && p == hpkt + 1, "the packet's data"); nopen++; }
void cmdmsg(int n, char *p) { CHECK(n == IN.n && p == hpkt + 1, "the packet's data"); ncmd++; }
void pong(int n, char *p) { CHECK(n == IN.n && (p == hpkt || p == hpkt + 1), "the packet's data"); npong++; }
#include "server/dispatch.c"
#else
#include "server/ipcf.c"
void dispatch(int n, char *p) { (void)n; (void)p; }
#endif
#include "server/users.c"
#include "server/groups.c"
#include "server/strutil.c"
#include "server/utf8.c"
static int nnot[MAX_USERS];
static void on_list(const char *name, int id, int op)
{
    if (op != 'm') return;
    int k = id % NUL;
    CHECK(id < MAX_USERS * NUL && (k == NOT_N || k == NOT_S), "the list of notifications");
    CHECK(k == NOT_N ? eqs(name, "NA") : eqs(name, "ID@HOST"), "asks for the user lost, in capitals");
}
static void on_status(int to, const char *c, const char *s) { (void)s; if (eqs(c, "Notify-Off")) nnot[to]++; }
static int grp(int u) { return IN.grp[u] == 0 ? -1 : IN.grp[u] - 1; }
static USER_ITEM u0[MAX_USERS]; static GROUP_ITEM g0[MAX_GROUPS];
static void setup(void)
{
    tables();
    bool any[MAX_GROUPS] = { 0 };
    ASSUME(IN.now > 300 && IN.now < 1000000);
    for (int i = 0; i < MAX_USERS; i++) {
        IN.grp[i] = cg[i];
        ASSUME(IN.login[i] <= 2 && IN.recv[i] >= 0 && IN.recv[i] <= IN.now);
        if (cg[i]) { ASSUME(IN.login[i] == 2); u_tab[i].login = 2; any[cg[i] - 1] = true; cpy(u_tab[i].group, gn[cg[i]]); if (cg[i] == 2 && i == 2) u_tab[i].group[1] = 'B'; }
        else { ASSUME(IN.login[i] < 2); u_tab[i].login = IN.login[i]; }
        u_tab[i].t_recv = IN.recv[i];
        u_tab[i].awaymsg[0] = IN.away[i] & 1 ? 'a' : 0;
        cpy(u_tab[i].nickname, i == 0 ? "Na" : i == 1 ? "Nb" : i == 2 && MAX_USERS > 3 ? "Nc" : "server"); cpy(u_tab[i].loginid, "id"); cpy(u_tab[i].nodeid, "Host");
        S_kill[i] = IN.kill[i] & 1;
    }
    for (int i = 0; i < MAX_GROUPS; i++) {
        ASSUME(IN.vol[i] >= QUIET && IN.vol[i] <= LOUD && IN.vis[i] >= VISIBLE && IN.vis[i] <= SUPERSECRET && IN.ctl[i] >= PUBLIC && IN.ctl[i] <= CONTROLLED);
        IN.mod[i] = cm[i];
        g_tab[i].mod = cm[i]; g_tab[i].volume = IN.vol[i]; g_tab[i].visibility = IN.vis[i]; g_tab[i].control = IN.ctl[i];
        ASSUME(IN.idle[i] >= 0 && IN.idle[i] < 100000 && IN.idlem[i] >= 0 && IN.idlem[i] < 100000 && IN.mto[i] >= 0 && IN.mto[i] < 2000000);
        g_tab[i].idleboot = IN.idle[i]; g_tab[i].idlemod = IN.idlem[i];
        if (any[i]) cpy(g_tab[i].name, gn[i + 1]); else IN.mto[i] = 0;
        if (cm[i] >= 0) IN.mto[i] = 0;
        g_tab[i].modtimeout = IN.mto[i];
    }
    for (int i = 0; i < NLISTS && i < 64; i++) { ASSUME(IN.pres[i] <= 1); pres[i] = IN.pres[i]; }
}
#if F == 1
static void lost(int n)
{
    setup();
    cpy(u_tab[n].nickname, "Na");
    if (IN.reg) cpy(u_tab[n].realname, "Re");
    u_tab[n].password[0] = 'p'; u_tab[n].perms = 2; u_tab[n].echoback = 1; u_tab[n].nobeep = 1; u_tab[n].secure = 1; u_tab[n].t_on = 5; u_tab[n].lastaway = 2;
    for (int g = 0; g < MAX_GROUPS; g++) ASSUME(IN.login[n] != 0 || IN.mod[g] != n);
    int o = n == 0 ? 1 : 0;
    lpriv_id[0] = n; lpriv_id[1] = o; pong_req[2] = n; pong_req[0] = o;
    int left[MAX_GROUPS] = { 0 }, best[MAX_GROUPS];
    for (int g = 0; g < MAX_GROUPS; g++) {
        best[g] = -1;
        for (int i = 0; i < MAX_USERS; i++) if (i != n && grp(i) == g) { left[g]++; if (IN.login[i] == 2 && (best[g] < 0 || IN.recv[i] > IN.recv[best[g]])) best[g] = i; }
    }
    s_lost_user(n);
    /* the user is gone */
    bool zero = u_tab[n].nickname[0] == 0 && u_tab[n].loginid[0] == 0 && u_tab[n].nodeid[0] == 0 && u_tab[n].password[0] == 0 && u_tab[n].realname[0] == 0 && u_tab[n].group[0] == 0 && u_tab[n].awaymsg[0] == 0;
    CHECK(zero && u_tab[n].login == LOGIN_FALSE && u_tab[n].perms == 0 && u_tab[n].echoback == 0 && u_tab[n].nobeep == 0 && u_tab[n].secure == 0 && u_tab[n].t_on == 0 && u_tab[n].t_recv == 0 && u_tab[n].lastaway == 0, "nothing of the user is left");
    for (int k = 0; k < NUL; k++) CHECK(nclears[UID(n, k)] > 0, "nor of his lists");
    CHECK(S_kill[n] == 0, "nor a request to drop him");
    for (int i = 0; i < MAX_USERS; i++) CHECK(lpriv_id[i] != n && pong_req[i] != n, "nobody's answer goes to the next user of the connection");
    CHECK(lpriv_id[1] == (n == 1 ? -1 : o) && pong_req[0] == (n == 0 ? -1 : o), "others are kept");
    CHECK(ntime == (IN.login[n] > 0), "the sign-off time of a logged-in user is recorded");
    for (int i = 0; i < MAX_USERS; i++) if (i != n) {
        CHECK(u_tab[i].login == IN.login[i] && u_tab[i].nickname[0] && (u_tab[i].group[0] != 0) == (IN.grp[i] != 0), "nobody else is affected");
        for (int k = 0; k < NUL; k++) CHECK(nclears[UID(i, k)] == 0, "nor his lists");
        bool vis = grp(n) < 0;
        for (int g = 0; g < MAX_GROUPS; g++) if (grp(n) == g && IN.vis[g] != SUPERSECRET) vis = true;
        CHECK(nnot[i] == (IN.login[n] > 0 && IN.login[i] > 0 && vis && (IN.pres[UID(i, NOT_N)] || IN.pres[UID(i, NOT_S)])), "who asked for it is notified once, and no one else");
    }
    for (int g = 0; g < MAX_GROUPS; g++) {
        bool mine = grp(n) == g;
        CHECK(g_tab[g].mod != n, "he moderates nothing any more");
        CHECK((g_tab[g].name[0] != 0) == (left[g] > 0), "a group lives as long as it has members");
        if (left[g] == 0) CHECK(g_tab[g].mod == -1 && g_tab[g].modtimeout == 0, "an empty group has no moderator");
        else if (IN.mod[g] != n) CHECK(g_tab[g].mod == IN.mod[g] && g_tab[g].modtimeout == IN.mto[g], "other groups keep their moderator");
        else if (IN.reg) CHECK(g_tab[g].mod == -1 && g_tab[g].modtimeout == IN.now + MOD_TIMEOUT && eqs(g_tab[g].missingmod, "Na"), "the group is kept for its registered moderator");
        else CHECK(g_tab[g].mod == best[g], "the moderation passes to the least idle member");
        if (mine && left[g] > 0 && IN.vol[g] != QUIET && IN.login[n] > 0) {
            bool told = false;
            for (int i = 0; i < 8 && i < nsg; i++) if (sg_kind[i] == 2 && sg_group[i] == g) told = true;
            CHECK(told, "the group is told");
        }
    }
#if M == 0
    REACH(nsg == 1 && left[0], "left"); REACH(grp(n) == 0 && !left[0], "group gone"); REACH(grp(n) < 0 && IN.login[n] == 1, "no group");
#else
    REACH(IN.login[n] == 1 && IN.mod[M == 2] == n, "moderator without a group"); REACH(!IN.reg && left[M == 2] > 0 && g_tab[M == 2].mod >= 0, "passed"); REACH(IN.reg && left[M == 2] > 0, "kept");
#endif
}
#endif
#if F == 1
#define NG 3        /* none, and two groups */
#elif F == 3
#define NG 1
#elif F == 4
#define NG 4
#elif F == 5
#define NG 3
#endif
#ifdef VP_NATIVE
#define DONE return
#else
#define DONE __CPROVER_assume(0)
#endif
static void poll_(void);
void harness(void)
{
    HARNESS_IN();
#if F == 2
    static char p[3]; hpkt = p;
    ASSUME(IN.n >= 0 && IN.n <= MAX_USERS && (IN.loginres == -1 || IN.loginres == 0 || IN.loginres == 1)); ASSUME(IN.pkt1 < 128);
    p[0] = IN.type; p[1] = IN.pkt1;
    for (int n = 0; n <= MAX_USERS; n++) if (IN.n == n) {
        IN.n = n;
        ASSUME(n < MAX_USERS || IN.type == 'a');
        if (n == MAX_USERS) IN.n = n = MAX_REAL_USERS;
        int k0 = S_kill[n];
        dispatch(n, p);
        bool login = IN.type == 'a', full = login && n >= MAX_REAL_USERS;
        CHECK(nlogin == (login && !full), "a login is handled once, if there is room"); CHECK(nopen == (IN.type == 'b'), "an open message once"); CHECK(ncmd == (IN.type == 'h'), "a command once"); CHECK(npong == (IN.type == 'm'), "a pong once");
        CHECK(ncut[n] == full, "dropped if there is no room"); CHECK((S_kill[n] > k0) == (login && !full && IN.loginres < 0), "and if the login failed, and for nothing else");
        CHECK(nexit[0] == (full || (login && IN.loginres < 0)), "the client is told to leave");
        for (int i = 0; i < MAX_USERS; i++) CHECK(i == n || (ncut[i] == 0 && S_kill[i] == 0 && nerr[i] == 0), "nobody else is concerned");
        CHECK(nerr[n] == (full || !(IN.type == 'a' || IN.type == 'b' || IN.type == 'h' || IN.type == 'm' || IN.type == 'n')), "anything else is refused");
        REACH(full, "full"); REACH(login && IN.loginres < 0, "failed"); REACH(IN.type == 'z', "unknown");
        return;
    }
#else
    for (int a = 0; a < NG; a++) for (int b = 0; b < NG; b++) for (int c = 0; c < (MAX_USERS > 3 ? NG : 1); c++) for (int d = 0; d < NG && d < 2; d++) {
        if (!(IN.grp[0] == a && IN.grp[1] == b && (MAX_USERS == 3 || IN.grp[2] == c) && IN.grp[MAX_USERS - 1] == d)) continue;
        cg[0] = a; cg[1] = b; if (MAX_USERS > 3) cg[2] = c; cg[MAX_USERS - 1] = d;
        for (int g = 0; g < MAX_GROUPS; g++) cm[g] = -1;
#if F == 1
        for (int n = WHO; n <= WHO; n++) for (int m = M; m <= M; m++) if (IN.n == n && (IN.mod[0] == n) == (m & 1) && (IN.mod[1] == n) == m >> 1) {
            IN.n = n; cm[0] = m & 1 ? n : -1; cm[1] = m >> 1 ? n : -1;
            bool any[2] = { a == 1 || b == 1 || d == 1, a == 2 || b == 2 };
            if (!((cm[0] < 0 || any[0]) && (cm[1] < 0 || any[1]))) DONE;
            if (m == 0) { lost(n); DONE; }
            if (IN.reg == 1) { IN.reg = 1; lost(n); DONE; }
            ASSUME(IN.reg == 0); IN.reg = 0;
            /* who was active last: in this order, the other way round, or all at once */
            static const int ord[3][3] = { { 1, 2, 3 }, { 3, 2, 1 }, { 2, 2, 2 } };
            for (int o = 0; o < 3; o++) if (IN.recv[0] == ord[o][0] && IN.recv[1] == ord[o][1] && IN.recv[2] == ord[o][2]) { for (int i = 0; i < 3; i++) IN.recv[i] = ord[o][i]; lost(n); DONE; }
            DONE;
        }
#elif F == 5
        for (int m = MD; m <= MD; m++) if (IN.mod[0] == m) {
            cm[0] = m;
            if (m < 0 || a == 1 || b == 1 || d == 1) poll_();
            DONE;
        }
#else
        poll_();
        DONE;
#endif
    }
#endif
}
#if F >= 3
static void poll_(void)
{
    static char f1[MAX_GROUPLEN + 1]; fields[1] = f1;
    setup();
    TimeToDie = 0;
#if F == 3      /* no groups */
    for (int i = 0; i < MAX_USERS; i++) ASSUME(IN.login[i] < 2 && IN.grp[i] == 0);
    s_didpoll(0);
    for (int i = 0; i < MAX_REAL_USERS; i++) CHECK(ncut[i] == ((IN.kill[i] & 1) != 0), "exactly the connections to be dropped are dropped");
    CHECK(sum(nstat) == 0 && sum(nerr) == 0 && nsg == 0, "nothing else happens");
    REACH(ncut[0] && IN.login[0] == 0, "failed login"); REACH(ncut[1] && IN.login[1] == 1, "killed");
#elif F == 4    /* idle users; no moderators */
    for (int g = 0; g < MAX_GROUPS; g++) ASSUME(IN.mod[g] == -1 && IN.mto[g] == 0);
    for (int i = 0; i < MAX_USERS; i++) ASSUME(IN.kill[i] == 0);
    s_didpoll(0);
    for (int i = 0; i < MAX_REAL_USERS; i++) {
        bool idle = false;
        for (int g = 0; g < 2; g++) if (grp(i) == g && IN.login[i] == 2 && IN.idle[g] > 0 && IN.now - IN.recv[i] > IN.idle[g]) idle = true;
        CHECK(nchg[i] == idle, "exactly those idle for longer than their group allows are moved to the idlers, once");
        CHECK(nstat[i] == idle, "and told");
        CHECK(ncut[i] == 0, "nobody is dropped");
    }
    CHECK(!is_booting, "only for the move");
    REACH(nchg[0] && !nchg[1] && grp(0) == grp(1), "one of two");
#elif F == 5    /* moderators; no idle users */
    for (int g = 0; g < MAX_GROUPS; g++) ASSUME(IN.idle[g] == 0);
    for (int i = 0; i < MAX_USERS; i++) ASSUME(IN.kill[i] == 0);
    int want[MAX_GROUPS];
    for (int g = 0; g < MAX_GROUPS; g++) {
        int best = -1; bool other = false; int m = IN.mod[g];
        for (int i = 0; i < MAX_USERS; i++) {
            if (grp(i) == g && IN.login[i] == 2 && !(IN.away[i] & 1) && (best < 0 || IN.recv[i] > IN.recv[best])) best = i;
            if (i < MAX_REAL_USERS && i != m && grp(i) == g && IN.login[i] == 2 && !(IN.away[i] & 1)) for (int j = 0; j < MAX_USERS; j++) if (j == m && IN.recv[i] > IN.recv[j]) other = true;
        }
        bool idle = false;
        for (int j = 0; j < MAX_USERS; j++) if (j == m && IN.now - IN.recv[j] > IN.idlem[g]) idle = true;
        bool give = (m >= 0 && IN.ctl[g] != PUBLIC && idle && other) || (IN.mto[g] > 0 && IN.mto[g] < IN.now);
        want[g] = give && best >= 0 ? best : m;
    }
    s_didpoll(0);
    for (int g = 0; g < MAX_GROUPS; g++) {
        CHECK(g_tab[g].mod == want[g], "moderation passes to the least idle member present exactly when the moderator is idle for longer than the group allows or his time is up");
        CHECK(g_tab[g].mod == IN.mod[g] ? g_tab[g].modtimeout == IN.mto[g] || g_tab[g].modtimeout <= 1 : g_tab[g].modtimeout == 0, "the timeout goes with it");
#if MD >= 0
        REACH(want[g] != IN.mod[g] && IN.mod[g] >= 0, "idle");
#endif
        REACH(want[g] != IN.mod[g] && IN.mto[g] > 0, "timeout");
    }
    for (int i = 0; i < MAX_REAL_USERS; i++) CHECK(ncut[i] == 0 && nchg[i] == 0, "nobody is moved or dropped");
#endif
}
#endif
VP_MAIN
