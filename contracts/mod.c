/* What a moderator may do: s_pass(), s_boot(), s_topic(), s_invite(), s_cancel(), s_talk(), s_status() of server/s_group.c
 * with the real s_change(), s_status_group(), lookups (users.c, groups.c, lookup.c), word splitting and filters (strutil.c); for s_talk also the real name lists.
 * @assume malloc() succeeds in s_talk's units; a user whose command is handled is in a group that exists (C17, C21)
 * @unit name=s_pass prop=C20 under=s_pass def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_boot prop=C20 under=s_boot,filterfmt,s_change,s_status_group def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=2 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_topic prop=C20 under=s_topic def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=3 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_invite_0 prop=C20 under=s_invite def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=4,MD=-1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_invite_1 prop=C20 under=s_invite def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=4,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_invite_2 prop=C20 under=s_invite def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=4,MD=1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_cancel prop=C20 under=s_cancel def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=5 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_talk_0 prop=C20 under=s_talk,talk_delete def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=6,MD=-1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300,--no-malloc-may-fail level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_talk_1 prop=C20 under=s_talk,talk_delete def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=6,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300,--no-malloc-may-fail level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_talk_2 prop=C20 under=s_talk,talk_delete def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=6,MD=1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300,--no-malloc-may-fail level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_status_0 prop=C20 under=s_status,set_name,lookup def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=7,MD=-1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_status_1 prop=C20 under=s_status,set_name,lookup def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=7,MD=0 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_status_2 prop=C20 under=s_status,set_name,lookup def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=7,MD=1 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 * @unit name=s_status_3 prop=C20 under=s_status,set_name,lookup def=VP_SMALL,VP_USERS=4,VP_GROUPS=3,F=7,MD=2 unwind=130 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_users_and_the_server,_2_groups,_enumerated_arguments,_short_texts
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
struct vp_in { unsigned char pres[64], auth, reg[4], vol, ctl, vis, k; signed char mod, gn; int mto, now, argc; };
#include "vp_in.h"
static void on_list(const char *name, int id, int op);
static void on_status(int to, const char *c, const char *s);
#define ON_LIST on_list
#define ON_STATUS on_status
#if F == 6
#define OWN_LISTS
#endif
#include "vp_srv.h"
#include "server/access.h"
#define time(p) ((time_t)IN.now)
enum { ME = 1 };        /* who asks; users 0 and ME are in group 0, user 2 in group 1 */
static const char *lname, *wclass, *wtext; static int nadd, ncl[MAX_USERS];
int check_auth(int n) { CHECK(n == ME || n == 0, "a user"); return n == ME && IN.auth; }
void add_item(int n, const char *item, char *buf) { CHECK(n == ME && item != NULL && buf != NULL, "to the one who asks"); nadd++; }
int restart;
#if F != 6
static char lx[] = "x"; char *nlget(NAMLIST *nl) { (void)nl; return lx; }
#endif
char *status_table[] = { "r", "m", "p", "i", "s", "v", "q", "n", "l", "name", "?", "c", "#", "b", "idlebootmsg", "im", 0 };
#include "server/s_group.c"
#include "server/users.c"
#include "server/groups.c"
#include "server/strutil.c"
#include "server/utf8.c"
#include "server/lookup.c"
#if F == 6
#include "server/strlist.c"
#include "server/namelist.c"
#endif
static void on_list(const char *name, int id, int op)
{
    if (op == '+' || op == '-') CHECK(lname == NULL || eqs(name, lname), "exactly the name given");
}
static void on_status(int to, const char *c, const char *s) { if (wclass && eqs(c, wclass) && (to != 0 || wtext == NULL || F != 2)) { ncl[to]++; if (wtext) CHECK(eqs(s, wtext), "the text announced"); } }
static GROUP_ITEM g0;
#define G g_tab[0]
static int gsum(const int *a, int g) { int s = 0; for (int k = 0; k < NGL; k++) s += a[GID(g, k)]; return s; }
static int lchanges(void)
{
#if F == 6
    return 0;
#else
    int s = 0; for (int i = 0; i < NLISTS; i++) s += nputs[i] + nclears[i]; return s;
#endif
}
static bool in(int u, const char *g) { return eqs(u_tab[u].group, g); }
static void unchanged(void)
{
    CHECK(eqs(G.name, g0.name) && eqs(G.topic, g0.topic) && G.mod == g0.mod && G.control == g0.control && G.volume == g0.volume && G.visibility == g0.visibility && G.size == g0.size && G.idleboot == g0.idleboot && G.idlemod == g0.idlemod && G.modtimeout == g0.modtimeout && G.idleboot_msg[0] == g0.idleboot_msg[0], "nothing of the group changes");
    CHECK(in(0, g0.name) && in(ME, g0.name) && in(2, "c"), "nobody is moved"); CHECK(lchanges() == 0, "the lists stay");
}
static void setup(const char *name, const char *u0)
{
    tables();
    ASSUME(IN.vol >= QUIET && IN.vol <= LOUD && IN.ctl >= PUBLIC && IN.ctl <= CONTROLLED && IN.vis >= VISIBLE && IN.vis <= SUPERSECRET && IN.auth <= 1 && IN.mto >= 0 && IN.mto < 1000 && (IN.mto == 0 || IN.mod < 0) && IN.now > 0);
    cpy(G.name, name); G.mod = IN.mod; G.control = IN.ctl; G.volume = IN.vol; G.visibility = IN.vis; G.modtimeout = IN.mto; G.size = 3; G.idleboot = 7; G.idlemod = 5; cpy(G.topic, "old");
    cpy(g_tab[1].name, "c"); g_tab[1].mod = 2; g_tab[1].control = MODERATED;
    for (int i = 0; i < MAX_USERS; i++) {
        u_tab[i].login = LOGIN_COMPLETE; cpy(u_tab[i].nickname, i == 0 ? u0 : i == 1 ? "Nb" : i == 2 ? "Nc" : "Server"); cpy(u_tab[i].loginid, "id"); cpy(u_tab[i].nodeid, "Ho");
        if (i < 3) cpy(u_tab[i].group, i < 2 ? name : "c");
        if (IN.reg[i] & 1) u_tab[i].realname[0] = 'R';
    }
#if F != 6
    for (int i = 0; i < NLISTS && i < 64; i++) { ASSUME(IN.pres[i] <= 1); pres[i] = IN.pres[i]; }
#endif
    g0 = G;
}
static char arg[200];
static void call(int (*f)(int, int), const char *a) { cpy(arg, a); fields[1] = arg; f(ME, 2); }
#define REG(u) (IN.reg[u] & 1)
#if F == 1
#define NK 7
static const char *const args[NK] = { "", "Nc", "nA x", "zz", "server", "Nb", "SERVER x" }; static const int who[NK] = { -1, 2, 0, -1, -1, 1, -1 };
static void go(int k)
{
    setup("Ab", "Na"); wclass = "Pass";
    call(s_pass, args[k]);
    bool may = IN.auth || IN.mod == ME, loud = IN.vol != QUIET;
    if (!may || (k > 0 && who[k] < 0)) { unchanged(); CHECK(nerr[ME] == 1 && only(nerr, ME) && sum(nstat) == 0, "refused"); return; }
    CHECK(sum(nerr) == 0, "no error");
    CHECK(G.mod == who[k], "the moderation passes to the one named, or to nobody");
    CHECK(G.control == (k == 0 && IN.ctl == CONTROLLED ? PUBLIC : IN.ctl), "a controlled group without moderator becomes public");
    CHECK(lchanges() == 0 && in(0, "Ab") && in(ME, "Ab") && in(2, "c") && eqs(G.topic, "old") && G.volume == IN.vol && G.visibility == IN.vis, "nothing else changes");
    CHECK(g_tab[1].mod == 2, "nor another group");
    for (int i = 0; i < MAX_USERS; i++) CHECK(ncl[i] == ((i < 2 && loud) + (k > 0 && i == who[k])), "the group and the new moderator are told");
    REACH(k == 2, "passed"); REACH(k == 0 && IN.ctl == CONTROLLED, "given up");
}
#elif F == 2
#define NK 11
static const char *const args[NK] = { "Na", "nA", "Nc", "zz", "Na out", "Na put %s out", "Na %d", "Na %s %s", "Na 100%", "Na 5%% %s", "Admin" };
static const char *const text[NK] = { "Na was booted.", "Na was booted.", NULL, NULL, "Na out", "put Na out", NULL, NULL, NULL, "5% Na", NULL };
static void go(int k)
{
    setup("Ab", k == 10 ? "Admin" : "Na"); wclass = "Boot"; wtext = text[k];
    call(s_boot, args[k]);
    bool may = IN.auth || IN.mod == ME, loud = IN.vol != QUIET, ok = may && text[k] != NULL;
    CHECK(in(ME, "Ab") && in(2, "c"), "nobody else is moved");
    CHECK(G.mod == IN.mod && G.control == IN.ctl && eqs(G.name, "Ab"), "the group stays");
    if (!ok) { unchanged(); CHECK(in(0, "Ab"), "not booted"); CHECK((nerr[ME] == 1) != (nstat[ME] == 1) && only(nerr, ME), "refused"); CHECK(nstat[0] == (may && k == 10) && nstat[2] == 0, "only the admin is told"); return; }
    CHECK(in(0, BOOT_GROUP), "the one named is put out of the group"); CHECK(find_group(BOOT_GROUP) >= 0, "into one that exists"); CHECK(is_booting == 0, "by this command only");
    CHECK(ncl[ME] == loud && ncl[2] == 0, "the group is told why"); CHECK(nstat[0] >= 1, "and the one booted");
    CHECK(ndels[GID(0, N_INV)] == 1 && (!IN.pres[GID(0, N_INV)] ? ndels[GID(0, NR_INV)] == 1 : 1), "and is not invited any more");
    CHECK(sum(nerr) == 0 && gsum(nputs, 0) == 0, "no error");
    REACH(k == 5, "text"); REACH(k == 1 && IN.auth && IN.mod != ME, "admin");
}
#elif F == 3
#define NK 3
static const char *const args[NK] = { "", "new", "longer topic" };
static void go(int k)
{
    static const char *const gn[4] = { "Ab", "1", BOOT_GROUP, IDLE_GROUP };
    setup(gn[IN.gn], "Na"); wclass = "Topic";
    call(s_topic, args[k]);
    bool ok = k > 0 && IN.gn == 0 && (IN.mod == ME || IN.mod < 0);
    CHECK(eqs(G.topic, !ok ? "old" : k == 1 ? "new" : "longer"), "the topic is set exactly by the moderator, or by anyone without one");
    CHECK(eqs(g_tab[1].topic, ""), "of this group"); CHECK(nout[ME] == (k == 0) && only(nout, ME), "or told");
    CHECK(nerr[ME] == (k > 0 && !ok) && only(nerr, ME), "refused otherwise");
    for (int i = 0; i < MAX_USERS; i++) CHECK(ncl[i] == (ok && IN.vol != QUIET && i < 2), "the group is told");
    cpy(G.topic, "old"); unchanged();
    REACH(ok && IN.mod < 0 && k == 2, "no moderator"); REACH(!ok && k == 1 && IN.gn == 0, "refused");
}
#elif F == 4
#define NK 12
static const char *const args[NK] = { "Nc", "-n nc", "-q Nc", "-r Nc", "-s a@B", "-sr a@B", "-q -s a@B", "-x Nc", "-nn Nc", "", "zz", "-n -s x" };
static const int list[NK] = { N_INV, N_INV, N_INV, NR_INV, S_INV, SR_INV, S_INV, -1, -1, -2, N_INV, -1 }; static const char *const ln[NK] = { "Nc", "nc", "Nc", "Nc", "A@B", "A@B", "A@B", NULL, NULL, NULL, "zz", NULL };
static void go(int k)
{
    setup("Ab", "Na"); lname = ln[k]; wclass = "RSVP";
    call(s_invite, args[k]);
    bool res = IN.ctl == RESTRICTED, mod = IN.mod == ME;
    for (int i = 0; i < NLISTS; i++) CHECK(nputs[i] == (res && mod && list[k] >= 0 && i == GID(0, list[k] >= 0 ? list[k] : 0)) && ndels[i] == 0 && nclears[i] == 0, "the moderator of a restricted group invites exactly the one named");
    bool tell = list[k] >= 0 && list[k] <= NR_INV && (!res || mod) && k != 10;
    CHECK(ncl[2] == (tell && (list[k] == N_INV || REG(2))) && only(ncl, 2), "who is told");
    CHECK(only(nerr, ME) && (nerr[ME] > 0) == (list[k] == -1 || (list[k] >= 0 && ((res && !mod) || (!res && list[k] >= S_INV)))), "refused otherwise");
    CHECK(sum(nimp) == 0 && nstat[0] == 0 && nstat[MAX_USERS - 1] == 0, "nobody else hears of it");
    for (int i = 0; i < NLISTS; i++) nputs[i] = 0;
    unchanged();
#if MD == 1
    REACH(k == 5 && res && mod, "address");
#else
    REACH(k == 0 && res && !mod, "refused");
#endif
    REACH(k == 3 && ncl[2], "registered");
}
#elif F == 5
#define NK 9
static const char *const args[NK] = { "Nc", "-n nc", "-q Nc", "-s a@B", "-qs a@B", "-x Nc", "-nn Nc", "zz", "-n -s x" };
static const int list[NK] = { N_INV, N_INV, N_INV, S_INV, S_INV, -1, -1, N_INV, -1 }; static const char *const ln[NK] = { "Nc", "nc", "Nc", "A@B", "A@B", NULL, NULL, "zz", NULL };
static void go(int k)
{
    setup("Ab", "Na"); lname = ln[k];
    call(s_cancel, args[k]);
    bool res = IN.ctl == RESTRICTED, mod = IN.mod == ME, ok = res && mod && list[k] >= 0;
    for (int i = 0; i < NLISTS; i++) CHECK(ndels[i] == 0 || (ok && (i == GID(0, list[k]) || i == GID(0, list[k] + 1))), "the moderator of a restricted group takes back exactly that invitation");
    if (ok) CHECK(ndels[GID(0, list[k])] == 1 && (IN.pres[GID(0, list[k])] || ndels[GID(0, list[k] + 1)] == 1), "wherever it is");
    CHECK(only(nerr, ME) && (nerr[ME] > 0) == !ok, "refused otherwise"); CHECK(only(nstat, ME), "nobody else hears of it");
    unchanged();
    REACH(k == 3 && ok, "address"); REACH(k == 0 && res && !mod, "refused");
}
#elif F == 6
#define NK 10
static const char *const args[NK] = { "Nc", "-a Nc", "-r Nc", "-a -r zz", "-d nA", "-d zz", "-q -d Na", "-x Nc", "", "-q Na" };
static void go(int k)
{
    setup("Ab", "Na"); wclass = "TALK";
    for (int i = 0; i < MAX_GROUPS; i++) { nlinit(g_tab[i].n_talk, 50); nlinit(g_tab[i].nr_talk, 50); }
    nlput(G.n_talk, "Na"); nlput(G.n_talk, "yy"); nlput(G.nr_talk, "Nc"); nlput(G.nr_talk, "xx");
    call(s_talk, args[k]);
    bool ok = IN.ctl != PUBLIC && IN.mod == ME && k != 7 && k != 8, add = k == 1 || k == 3, del = k >= 4 && k <= 6, reg = k == 2 || k == 3;
    bool keep = !ok || add || del;
    bool n_na = ok && k == 9 ? 1 : keep && !(ok && (k == 4 || k == 6)), n_nc = ok && k <= 1, r_nc = (ok && k == 2) || keep, r_zz = ok && k == 3;
    CHECK(!nlpresent("Na", *G.n_talk) == !n_na && !nlpresent("yy", *G.n_talk) == !keep && !nlpresent("Nc", *G.n_talk) == !n_nc && !nlpresent("zz", *G.n_talk), "exactly those named may talk");
    CHECK(!nlpresent("Nc", *G.nr_talk) == !r_nc && !nlpresent("xx", *G.nr_talk) == !keep && !nlpresent("zz", *G.nr_talk) == !r_zz && !nlpresent("Na", *G.nr_talk), "or, if registered");
    CHECK(nlcount(*G.n_talk) == n_na + keep + n_nc && nlcount(*G.nr_talk) == r_nc + keep + r_zz, "and nobody else");
    CHECK(only(nerr, ME) && (nerr[ME] > 0) == (!ok || k == 5), "refused otherwise");
    if (!ok) CHECK(sum(nstat) == 0, "nobody hears of it");
    CHECK(ncl[0] == (ok && (k == 0 || k == 2 || k == 4 || k == 6) ? 1 : ok && k == 9 ? 2 : 0), "who could talk before is told"); (void)reg;
    CHECK(ncl[2] == (!ok ? 0 : k == 0 ? 1 + REG(2) : k == 1 ? 1 : k == 2 ? 2 * REG(2) : k == 9 ? REG(2) : 0), "and who can now"); CHECK(ncl[1] == 0 && ncl[3] == 0, "and nobody else");
    unchanged();
#if MD == 1
    REACH(ok && k == 0, "replaced"); REACH(ok && k == 6, "deleted");
#else
    REACH(IN.mod != ME && k == 0, "refused");
#endif
    nlclear(G.n_talk); nlclear(G.nr_talk);
}
#elif F == 7
#define LONG "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"      /* 49 */
/* option, does it need a moderator, is it an error */
#define NK 27
static const struct { const char *a; int mod, err; } o[NK] = { { "r", 1 }, { "m", 1 }, { "p" }, { "i" }, { "s" }, { "v" }, { "q", 1 }, { "n" }, { "l" }, { "name Xy" }, { "name 1", 0, 1 }, { "name C", 0, 1 }, { "name", 0, 1 }, { "c", 1 }, { "# 2" }, { "# 9", 0, 1 }, { "# 0" },
    { "b 2", 1 }, { "b -1", 1, 1 }, { "b 71582789", 1, 1 }, { "idlebootmsg %s " LONG, 0 }, { "idlebootmsg %s x" LONG "x", 0, 1 }, { "idlebootmsg %d", 0, 1 }, { "im 3", 1 }, { "im 999999999", 1, 1 }, { "zz", 0, 1 }, { "name a+b-c*d" } };
static void go(int k)
{
    static const char *const gn[4] = { "Ab", "1", BOOT_GROUP, IDLE_GROUP };
    setup(gn[IN.gn], "Na"); wclass = "Change";
    call(s_status, o[k].a);
    bool mod = IN.mod >= 0 || IN.mto > 0, may = IN.gn == 0 && (IN.mod == ME || !mod || IN.ctl == PUBLIC), ok = may && (mod || !o[k].mod) && !o[k].err;
    CHECK(only(nerr, ME) && (nerr[ME] > 0) == !ok, "refused exactly if not allowed");
    CHECK(G.control == (!ok ? IN.ctl : k == 0 ? RESTRICTED : k == 1 ? MODERATED : k == 2 ? PUBLIC : k == 13 ? CONTROLLED : IN.ctl), "the control given");
    CHECK(G.visibility == (!ok ? IN.vis : k == 3 ? SUPERSECRET : k == 4 ? SECRET : k == 5 ? VISIBLE : IN.vis), "the visibility given");
    CHECK(G.volume == (!ok ? IN.vol : k == 6 ? QUIET : k == 7 ? NORMAL : k == 8 ? LOUD : IN.vol), "the volume given");
    CHECK(G.size == (!ok ? 3 : k == 14 ? 2 : k == 16 ? 0 : 3), "the size given"); CHECK(G.idleboot == (ok && k == 17 ? 120 : 7), "the idle limit given"); CHECK(G.idlemod == (ok && k == 23 ? 180 : 5), "the moderator's idle limit given");
    CHECK((G.idleboot_msg[0] != 0) == (ok && k == 20) && (!(ok && k == 20) || eqs(G.idleboot_msg, "%s " LONG)), "the message given, if it names the user once");
    const char *nm = ok && k == 9 ? "Xy" : ok && k == 26 ? "a?b-c?d" : gn[IN.gn];
    if (ok && k == 26) nm = G.name;
    CHECK(eqs(G.name, nm) && in(0, nm) && in(ME, nm) && in(2, "c"), "the name given, for all members");
    CHECK(find_group(G.name) == 0 && find_group("c") == 1 && G.mod == IN.mod && g_tab[1].mod == 2, "names stay unique");
    for (int i = 0; i < MAX_USERS; i++) {
        int f = k == 0 && ok ? nstat[i] - ncl[i] : 0;
        CHECK(ncl[i] == (ok && i < 2 && (k != 20 || i == ME) && k != 25), "the group is told");
        if (k == 0 && ok && !(i == 0 && IN.mod == 0)) CHECK(f == (i < 2) + (i == IN.mod ? 2 : 0), "members and the moderator are told who is invited");
    }
    if (k == 0 && ok) { CHECK(nputs[GID(0, N_INV)] + nputs[GID(0, NR_INV)] == 2 && nputs[GID(0, NR_INV)] == REG(0) + REG(ME), "its members are invited"); nputs[GID(0, N_INV)] = nputs[GID(0, NR_INV)] = 0; }
    CHECK(lchanges() == 0 && eqs(G.topic, "old") && G.modtimeout == IN.mto, "nothing else changes");
#if MD == 0
    REACH(k == 0 && ok && IN.mod == MD, "as anyone");
#elif MD == 1
    REACH(k == 20 && ok, "message"); REACH(k == 0 && ok, "restricted");
#endif
    REACH(k == 0 && !ok, "refused");
}
#endif
#ifdef VP_NATIVE
#define DONE return
#else
#define DONE __CPROVER_assume(0)
#endif
void harness(void)
{
    HARNESS_IN();
#ifdef MD
    for (int m = MD; m <= MD; m++)
#else
    for (int m = -1; m < 3; m++)
#endif
        for (int k = 0; k < NK; k++) for (int g = 0; g < (F == 3 || F == 7 ? 4 : 1); g++) {
            if (F == 7 && g > 0 && k % 9 != 0) continue;
            if (!(IN.mod == m && IN.k == k && IN.gn == g)) continue;
            IN.mod = m; IN.k = k; IN.gn = g;
            if (IN.mto == 0) {
                IN.mto = 0;
                if (F == 6 && m == ME) { for (int c = PUBLIC; c <= CONTROLLED; c++) if (IN.ctl == c) { IN.ctl = c; go(k); DONE; } }
                else { go(k); DONE; }
            } else if (m < 0) { ASSUME(IN.mto == 500); IN.mto = 500; go(k); DONE; }
            DONE;
        }
}
VP_MAIN
