/* Administrative commands: server/s_admin.c over the contracts of check_auth (unit check_auth), valuser (C15),
 * find_user (C16) and the send functions (C03).
 * @assume time() is the current time; fork(), execve(), icbdump() and the log files are stand-ins; memory does not run out; getword()/get_tail() are the real ones (C07)
 * @unit name=s_drop prop=C14 under=s_drop def=VP_USERS=4,F=1 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=9_forms_of_the_argument,_4_users
 * @unit name=s_shutdown prop=C14 under=s_shutdown def=VP_USERS=4,F=2 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=6_delays,_4_users
 * @unit name=s_restart prop=C14 under=s_restart def=VP_USERS=4,F=3 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=5_argument_vectors,_4_users
 * @unit name=s_wall prop=C14 under=s_wall def=VP_USERS=4,F=4 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_users
 * @unit name=s_log prop=C14 under=s_log def=VP_USERS=4,F=5 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=4_texts
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
struct vp_in { int n, argc, victim, val, k, oldlog; unsigned char auth, login[8]; char arg[9]; int forked; long ttd; };
#include "vp_in.h"
#include "server/server.h"
#include "server/externs.h"
#include "server/users.h"
#include "server/access.h"
#include "server/strutil.h"
#include "server/icbutil.h"
USER_ITEM u_tab[MAX_USERS]; GROUP_ITEM g_tab[MAX_GROUPS];
static char messagebuffer[1024]; char *mbuf = messagebuffer;
char thishost[MAXHOSTNAMELEN + 1] = "h"; time_t curtime; short S_kill[MAX_USERS]; char *fields[MAX_FIELDS];
int log_level, ShutdownNotify, restart_argc; char **restart_argv; long TimeToDie;
static bool eqs(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) ; return *a == *b; }
static int nerr, nauth, nval, nstat[MAX_USERS], nimp[MAX_USERS], ncut[MAX_USERS], nout, nopenlog, ncloselog, ndump, nexec; static bool exited;
void senderror(int to, const char *s) { CHECK(to == IN.n && s[0], "errors go to the asker"); nerr++; }
void sendstatus(int to, const char *c, const char *s) { CHECK(to >= 0 && to < MAX_USERS, "a user"); (void)c; (void)s; nstat[to]++; }
void sends_cmdout(int to, const char *s) { CHECK(to == IN.n, "output goes to the asker"); (void)s; nout++; }
void sendimport(int to, const char *c, const char *s)
{
    CHECK(to >= 0 && to < MAX_USERS, "a user"); (void)c;
    CHECK(IN.auth, "only the admin broadcasts");
#if F == 4
    CHECK(eqs(s, "hello all"), "exactly the text given");
#else
    CHECK(s[0] != 0, "a text");
#endif
    nimp[to]++;
}
int pktserv_disconnect(int s) { CHECK(s >= 0 && s < MAX_USERS, "a user"); ncut[s]++; return 0; }
int check_auth(int n) { CHECK(n == IN.n, "asks about the sender"); nauth++; return IN.auth; }
int find_user(char *name) { (void)name;
#if F == 1
    int i = 0; for (; i < 8 && IN.arg[i] && IN.arg[i] != ' '; i++) CHECK(name[i] == IN.arg[i], "looks for the user named"); CHECK(name[i] == 0, "and for no other");
#endif
    return IN.victim; }
int valuser(char *user, char *password, DBM *db)
{
    CHECK(IN.victim >= 0 && user == u_tab[IN.victim].nickname, "the victim's record"); CHECK(db == NULL, "no open database");
    int i = 0, j = 0;
    while (i < 8 && IN.arg[i] && IN.arg[i] != ' ') i++;
    while (i < 8 && IN.arg[i] == ' ') i++;
    for (; i + j < 8 && IN.arg[i + j] && IN.arg[i + j] != ' '; j++) CHECK(password[j] == IN.arg[i + j], "the password given");
    CHECK(password[j] == 0, "and nothing else");
    nval++;
    return IN.val;
}
void icbopenlogs(int s) { (void)s; CHECK(IN.auth, "only the admin changes the log"); nopenlog++; }
void icbcloselogs(int s) { (void)s; CHECK(IN.auth, "only the admin changes the log"); ncloselog++; }
void icbdump(int s) { (void)s; CHECK(IN.auth, "only the admin restarts the server"); ndump++; }
static int fork_(void) { CHECK(IN.auth, "only the admin restarts the server"); CHECK(ndump == 1, "the state is saved first"); return IN.forked; }
#if F == 3
static char *av[5]; static int mode_;
static int execve_(const char *p, char *const a[], char *const e[])
{
    CHECK(IN.auth && ndump == 1, "only the admin restarts the server");
    CHECK(eqs(p, "icbd") && eqs(a[0], "icbd"), "the same program"); CHECK(eqs(e[0], "RESTART=Y") && e[1] == NULL, "told to restart");
    int flag = 0, i = 1; bool seen = false;
    for (; a[i]; i++) { CHECK(i < 4, "terminated arguments"); if (eqs(a[i], "-R")) flag = 1; else if (eqs(a[i], "-Rq")) flag = 2; else if (eqs(a[i], "-x")) seen = true; else CHECK(0, "no other argument"); }
    CHECK(flag == (IN.k ? 2 : 1), "restores the state, quietly if asked"); CHECK(seen == (mode_ != 0), "with the arguments it was started with");
    nexec++;
    return -1;
}
#else
static int execve_(const char *p, char *const a[], char *const e[]) { (void)p; (void)a; (void)e; return -1; }
#endif
static char *strdup_(const char *s) { int l = 0; while (s[l]) l++; char *p = malloc(10); ASSUME(p != NULL); for (int i = 0; i <= l; i++) p[i] = s[i]; return p; }
#undef strdup
#define strdup strdup_
#define fork fork_
#define execve execve_
#undef fcntl
#define fcntl(a, b, c) 0
#define exit(x) do { exited = true; return 0; } while (0)
#define time(p) ((time_t)1000)
#include "server/s_admin.c"
#undef exit
#include "server/strutil.c"
#include "server/utf8.c"
static char pkt[32];
static void text(const char *s) { int i = 0; for (; s[i]; i++) pkt[i] = s[i]; pkt[i] = 0; }
static void common(void)
{
    for (int i = 0; i < MAX_USERS; i++) { u_tab[i].login = IN.login[i]; ASSUME(IN.login[i] <= 2); u_tab[i].nickname[0] = 'a' + i; }
    ASSUME(IN.n >= 0 && IN.n < MAX_REAL_USERS && IN.auth <= 1 && IN.argc >= 1 && IN.argc <= 3 && IN.victim >= -1 && IN.victim < MAX_USERS);
    fields[1] = pkt; TimeToDie = IN.ttd; log_level = IN.oldlog;
}
static int sum(const int *a) { int s = 0; for (int i = 0; i < MAX_USERS; i++) s += a[i]; return s; }
/* everyone logged in got it once, and no one else */
static void all_told(bool on) { for (int i = 0; i < MAX_USERS; i++) CHECK(nimp[i] == (on && i < MAX_REAL_USERS && u_tab[i].login > LOGIN_FALSE), "every user logged in is told once, and no one else"); }
#define NOTHING CHECK(sum(nimp) == 0 && sum(ncut) == 0 && sum(nstat) == 0 && nopenlog == 0 && ncloselog == 0 && ndump == 0 && nexec == 0 && !exited && TimeToDie == IN.ttd && log_level == IN.oldlog, "otherwise nothing happens")
#if F == 1
static void drop(void)
{
    s_drop(IN.n, IN.argc);
    bool ok = IN.argc == 2 && IN.victim >= 0 && (IN.auth || IN.val == 0);
    for (int i = 0; i < MAX_USERS; i++)
        CHECK((ncut[i] > 0 || S_kill[i] > 0) == (ok && i == IN.victim), "exactly the named user is dropped, only by the admin or with his password");
    if (IN.argc == 2 && IN.victim >= 0 && !IN.auth) CHECK(nval == 1, "the password is checked");
    CHECK(nerr == (IN.argc == 2 && !ok), "a refused request is answered");
    CHECK(sum(nimp) == 0 && nexec == 0 && TimeToDie == IN.ttd, "nothing else happens");
    REACH(ok && IN.auth, "dropped by the admin"); REACH(ok && !IN.auth && IN.arg[2], "dropped with the password"); REACH(!ok && nerr, "refused");
}
#endif
void harness(void)
{
    HARNESS_IN();
    common();
#if F == 1
    /* a name of 1 or 3 characters, none, one or two blanks, a password of 0, 1 or 3 characters */
    for (int a = 1; a < 4; a += 2) for (int b = 0; b < 3; b++) for (int c = 0; c < 4; c++) for (int v = -1; v < MAX_USERS; v++) for (int n = 0; n < MAX_REAL_USERS; n += 2)
        if (IN.k == a * 16 + b * 4 + c && c != 2 && (b || !c) && IN.victim == v && IN.n == n && (n == 0 ? v == 0 || (a == 3 && b == 1 && c == 3) : v == 0)) {
        IN.victim = v; IN.n = n;
        int j = 0;
        for (int i = 0; i < a; i++, j++) pkt[j] = IN.arg[j] = 'k' + j;
        for (int i = 0; i < b; i++, j++) pkt[j] = IN.arg[j] = ' ';
        for (int i = 0; i < c; i++, j++) pkt[j] = IN.arg[j] = 'k' + j;
        IN.arg[j] = 0;
        drop();
        return;
    }
#elif F == 2
    static const char *const d[6] = { "0", "1", "5", "6 tired", "299", "300" }; static const int dv[6] = { 0, 1, 5, 6, 299, 300 };
    ASSUME(IN.k >= 0 && IN.k < 6);
    for (int k = 0; k < 6; k++) if (IN.k == k) {
        text(d[k]);
        s_shutdown(IN.n, IN.argc);
        if (IN.auth && IN.argc == 2) { all_told(true); CHECK(TimeToDie == 1000 + 60L * dv[k], "the server ends after the minutes given"); CHECK(nerr == 0 && sum(ncut) == 0, "nothing else"); REACH(k == 3, "shutdown"); }
        else { NOTHING; CHECK(IN.auth || nerr == 1, "a refused request is answered"); REACH(k == 1 && !IN.auth, "refused"); }
        return;
    }
#elif F == 3
    ASSUME(IN.k == 0 || IN.k == 1); ASSUME(IN.forked == 0 || IN.forked == 7); ASSUME(IN.k == 0 || IN.argc == 2); ASSUME(IN.victim >= 0);
    static char a0[] = "icbd", ax[] = "-x";
    static const char *const r[2] = { "-R", "-Rq" };
    if (IN.k) text("Quiet"); else text("");
    mode_ = IN.victim % 4 != 0;
    /* main() leaves two free places at the end of the vector */
    av[0] = a0; restart_argc = 3;
    for (int m = 0; m < 4; m++) if (IN.victim == m) {
        char *f = malloc(4); ASSUME(f != NULL);
        if (m == 1) { av[1] = ax; restart_argc = 4; }
        if (m >= 2) { f[0] = '-'; f[1] = 'R'; f[2] = m == 3 ? 'q' : 0; f[3] = 0; av[1] = ax; av[2] = f; restart_argc = 5; }
        (void)r;
        restart_argv = av;
        IN.victim = m;
        s_restart(IN.n, IN.argc);
        if (IN.auth) { CHECK(ndump == 1, "the state is saved"); CHECK(exited == (IN.forked != 0) && nexec == !IN.forked, "the server is replaced"); CHECK(sum(ncut) == 0 && nerr == 0, "nothing else");
            for (int i = 0; i < MAX_USERS; i++) CHECK(IN.k ? nimp[i] == (i == IN.n) * (1 + !IN.forked) : nimp[i] == (i < MAX_REAL_USERS && u_tab[i].login > LOGIN_FALSE) * (1 + !IN.forked), "those concerned are told");
            REACH(m == 3 && IN.k, "quiet"); REACH(m == 2 && !IN.k, "loud"); }
        else { NOTHING; CHECK(nerr == 1, "a refused request is answered"); REACH(m == 0, "refused"); }
        return;
    }
#elif F == 4
    text("hello all");
    s_wall(IN.n, IN.argc);
    all_told(IN.auth && IN.argc == 2);
    CHECK(nerr == !IN.auth, "a refused request is answered"); CHECK(sum(ncut) == 0 && nexec == 0 && TimeToDie == IN.ttd, "nothing else happens");
    REACH(IN.auth && IN.argc == 2 && nimp[0], "announced"); REACH(!IN.auth, "refused");
#elif F == 5
    static const char *const d[5] = { "", "0", "2", "-4", "1 x" }; static const int dv[5] = { 0, 0, 2, 0, 1 };
    ASSUME(IN.k >= 0 && IN.k < 5); ASSUME(IN.oldlog >= 0 && IN.oldlog <= 2);
    for (int k = 0; k < 5; k++) for (int o = 0; o < 3; o++) if (IN.k == k && IN.oldlog == o) {
        IN.oldlog = log_level = o;
        text(d[k]);
        s_log(IN.n, IN.argc);
        if (IN.auth && IN.argc >= 2) {
            int want = k == 0 ? o : dv[k];
            CHECK(log_level == want, "the level asked for"); CHECK(nopenlog == (o == 0 && want > 0) && ncloselog == (o > 0 && want == 0), "the log is opened or closed accordingly");
            CHECK(nout == 1 && nerr == 0, "answered"); REACH(k == 2 && o == 0, "changed");
        } else { NOTHING; CHECK(nerr == (IN.argc >= 2), "a refused request is answered"); REACH(k == 2, "refused"); }
        return;
    }
#endif
}
VP_MAIN
