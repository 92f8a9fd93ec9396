/* Registration, passwords and left messages: server/access.c over the contract of icbdb.c (C13).
 * Attribute values come back in one shared buffer that the next request overwrites, as in icbdb_get().
 * @assume localtime()/strftime() give some text that fits its buffer; time only moves t_* fields
 * @unit name=valuser prop=C15 under=valuser def=VP_USERS=4,VP_GROUPS=3,F=1 unwind=24 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=nickwrite prop=C15 under=nickwrite,nickwritetime,nickckmsg def=VP_USERS=4,VP_GROUPS=3,F=2 unwind=24 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=3_groups_and_4_users
 * @unit name=nickchpass prop=C15 under=nickchpass def=VP_USERS=4,VP_GROUPS=3,F=3 unwind=30 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=nickdelete prop=C15 under=nickdelete def=VP_USERS=4,VP_GROUPS=3,F=4 unwind=30 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=setsecure prop=C15 under=setsecure def=VP_USERS=4,VP_GROUPS=3,F=5 unwind=24 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=autoauth prop=C15 under=nicklookup def=VP_USERS=4,VP_GROUPS=3,F=6 unwind=30 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=user_and_host_names_of_up_to_5_characters
 * @unit name=nickchinfo prop=C15 under=nickchinfo def=VP_USERS=4,VP_GROUPS=3,F=7 unwind=90 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=texts_of_up_to_24_characters,_limits_of_up_to_20
 * @unit name=check_auth prop=C14 under=check_auth def=VP_USERS=4,VP_GROUPS=3,F=11 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=proof
 * @unit name=leave_message prop=C24 under=nickwritemsg def=VP_USERS=4,VP_GROUPS=3,F=8 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=message_texts_of_up_to_5_characters,_mailboxes_of_0,1,9,19_and_20_messages
 * @unit name=read_messages prop=C24 under=nickreadmsg def=VP_USERS=4,VP_GROUPS=3,F=9 unwind=66 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=mailboxes_of_up_to_3_messages_and_the_full_one
 * @unit name=whois prop=C25 under=nicklookup def=VP_USERS=4,VP_GROUPS=3,F=10 unwind=260 mode=plain term=1 flags=--max-field-sensitivity-array-size,300 level=bounded bound=nicknames_of_1,_11_and_12_characters,_one_text_per_detail_at_its_greatest_length,_5_patterns_of_recorded_details
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
#include <time.h>
#include <sys/param.h>
struct vp_in {
    char pw[24], pw2[24], stored[14], reg, haspw, hasnick, hashome, hassecure, hasnum; int num, verify, sec;
    char home[14], text[26]; unsigned char max; char nick[14]; unsigned char tmo[3], missing[3], grp[4]; int lookup, online;
};
#include "vp_in.h"
#include "server/server.h"
#include "server/groups.h"
#include "server/users.h"
#include "server/externs.h"
#include "server/icbdb.h"
USER_ITEM u_tab[MAX_USERS]; GROUP_ITEM g_tab[MAX_GROUPS];
static char messagebuffer[1024]; char *mbuf = messagebuffer;
char thishost[MAXHOSTNAMELEN + 1] = "h"; time_t curtime; short S_kill[MAX_USERS]; int lpriv_id[MAX_USERS]; int pong_req[MAX_USERS];
struct timeval ping_time[MAX_USERS]; char *fields[MAX_FIELDS];
#define ME 1
#define NAME "nick"
static bool eqs(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) ; return *a == *b; }

/* ---- what is sent ---- */
static int nerr, nstat[MAX_USERS], nout, nstored, nreport;
void senderror(int to, const char *s) { CHECK(to == ME, "errors go to the asker"); (void)s; nerr++; }
void sendstatus(int to, const char *c, const char *s) { CHECK(to >= 0 && to < MAX_USERS, "a user"); (void)c; (void)s; nstat[to]++; }
#if F == 10
static char line0[120], lineb[120]; static int linelen[20];
void sends_cmdout(int to, const char *s)
{
    CHECK(to == ME, "output goes to the asker");
    int l = 0;
    for (; s[l]; l++) { CHECK(s[l] >= 32 && s[l] < 127, "only recorded text is shown"); if (nout == 0 && l < 119) line0[l] = s[l]; }
    if (nout < 20) linelen[nout] = l;
    nout++;
}
#else
void sends_cmdout(int to, const char *s) { CHECK(to == ME, "output goes to the asker"); (void)s; nout++; }
#endif
static char shown_from[4], shown_msg[4];
void send_person_stored(int to, const char *from, const char *s)
{ CHECK(to == ME, "left messages go to the reader"); if (nstored < 3) { shown_from[nstored] = from[0]; shown_msg[nstored] = s[0]; } nstored++; }
void talk_report(int n, int i) { CHECK(n == ME && i >= 0 && i < MAX_GROUPS, "a group"); nreport++; }
void gettime(void) {}
int find_user(char *s) { CHECK(eqs(s, "other"), "asks for the addressee"); return IN.online; }
void filtertext(const char *src, char *dest, size_t len) { size_t i = 0; for (; src[i] && i < len; i++) dest[i] = src[i]; if (i < len) dest[i] = 0; }
#ifndef VP_NATIVE
static struct tm the_tm;
struct tm *localtime(const time_t *t) { (void)t; return &the_tm; }
size_t strftime(char *d, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; CHECK(n >= 2, "room"); d[0] = 'T'; d[1] = 0; return 1; }
#endif

/* ---- contract of the attribute database (C13): the attributes of one nickname ---- */
enum { A_PW, A_NICK, A_HOME, A_SECURE, A_NUM, A_ON, A_OFF, A_REAL, A_EMAIL, A_PHONE, A_TEXT, A_ADDR, A_WWW, NA };
static const char *const an[NA] = { "password", "nick", "home", "secure", "nummsg", "signon", "signoff", "realname", "email", "phone", "text", "addr", "www" };
static bool has[NA]; static unsigned touched; static int nopen, nset, ndel; static char dbuf[256], dummy[2];
static char now_pw[26], now_home[26], now_text[30], now_nick[16]; static int now_num;
static const char *expect_cat = NAME;
/* messages: kind 0 header, 1 from, 2 message */
static bool mhas[3][MAX_WRITES + 2]; static char mval[3][MAX_WRITES + 2]; static unsigned mset;
static int attr(const char *cat, const char *a, int *num)
{
    CHECK(cat != NULL && strcasecmp(cat, expect_cat) == 0, "only the record in question is looked at or changed");
    for (int i = 0; i < NA; i++) if (eqs(a, an[i])) return i;
    static const char *const mk[3] = { "header", "from", "message" };
    for (int k = 0; k < 3; k++) {
        int j = 0;
        while (mk[k][j] && a[j] == mk[k][j]) j++;
        if (!mk[k][j]) {
            int v = 0, digits = 0;
            for (; a[j] >= '0' && a[j] <= '9'; j++) { v = 10 * v + (a[j] - '0'); digits++; }
            CHECK(!a[j] && digits > 0 && v >= 1 && v <= MAX_WRITES, "messages are numbered from 1 to the limit");
            *num = v;
            return NA + k;
        }
    }
    CHECK(0, "a known attribute");
    return -1;
}
int icbdb_open(void) { nopen++; return 1; }
void icbdb_close(void) { nopen--; CHECK(nopen >= 0, "closed no more often than opened"); }
int icbdb_get(const char *cat, const char *at, icbdb_type t, void *v)
{
    int num = 0, a = attr(cat, at, &num);
    if (a < 0) return 0;
    if (a >= NA) {
        if (!mhas[a - NA][num]) return 0;
        dbuf[0] = mval[a - NA][num]; dbuf[1] = 0;
        if (v) *(char **)v = dbuf;
        return 1;
    }
    if (!has[a]) return 0;
    if (t == ICBDB_INT) { CHECK(a == A_NUM, "a number"); *(int *)v = now_num; return 1; }
#if F == 10     /* details at the greatest length they can have */
    static const unsigned char dl[NA] = { 12, 12, 77, 7, 0, 21, 21, 25, 60, 14, 200, 79, 80 };
    int dn = a == A_NICK ? IN.lookup : dl[a];
    for (int i = 0; i < dn; i++) dbuf[i] = a == A_NICK ? 'N' : a == A_HOME ? 'H' : a == A_ADDR && i == 40 ? '|' : i % 9 == 8 ? ' ' : 'a' + a;
    dbuf[dn] = 0;
    if (v) *(char **)v = dbuf;
    return 1;
#endif
    const char *s = a == A_PW ? now_pw : a == A_HOME ? now_home : a == A_NICK ? now_nick : "x";
    int i = 0;
    for (; s[i]; i++) dbuf[i] = s[i];
    dbuf[i] = 0;
    if (v) *(char **)v = dbuf;
    return 1;
}
int icbdb_set(const char *cat, const char *at, icbdb_type t, const void *v)
{
    int num = 0, a = attr(cat, at, &num);
    nset++;
    if (a < 0) return 0;
    if (a >= NA) { CHECK(!mhas[a - NA][num], "no stored message is overwritten"); mhas[a - NA][num] = true; mval[a - NA][num] = *(const char *)v; mset++; return 0; }
    has[a] = true; touched |= 1u << a;
    if (t == ICBDB_INT) { CHECK(a == A_NUM, "a number"); now_num = *(const int *)v; return 0; }
    const char *s = v; char *d = a == A_PW ? now_pw : a == A_HOME ? now_home : a == A_NICK ? now_nick : a >= A_REAL ? now_text : NULL;
    if (d) { int i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; }
    return 0;
}
int icbdb_delete(const char *cat, const char *at)
{
    int num = 0, a = attr(cat, at, &num);
    ndel++;
    if (a < 0) return -1;
    if (a >= NA) { int r = mhas[a - NA][num] ? 0 : -1; mhas[a - NA][num] = false; return r; }
    int r = has[a] ? 0 : -1; has[a] = false;
    return r;
}
#include "server/access.c"

static int slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static bool samepw(const char *typed, const char *stored)    /* only the first MAX_PASSWDLEN characters count */
{
    for (int i = 0; i < MAX_PASSWDLEN; i++) { if (typed[i] != stored[i]) return false; if (!typed[i]) return true; }
    return stored[MAX_PASSWDLEN] == 0;
}
static void text(char *d, const char *s, int n) { for (int i = 0; i < n - 1; i++) d[i] = s[i]; d[n - 1] = 0; }
static void setup(void)
{
    u_tab[ME].nickname[0] = 'n'; u_tab[ME].nickname[1] = 'i'; u_tab[ME].nickname[2] = 'c'; u_tab[ME].nickname[3] = 'k'; u_tab[ME].nickname[4] = 0;
    u_tab[ME].loginid[0] = 'u'; u_tab[ME].loginid[1] = 0; u_tab[ME].nodeid[0] = 'H'; u_tab[ME].nodeid[1] = 'o'; u_tab[ME].nodeid[2] = 0;
    if (IN.reg & 1) { strcpy(u_tab[ME].realname, "registered"); }
    has[A_PW] = IN.haspw & 1; has[A_NICK] = IN.hasnick & 1; has[A_HOME] = IN.hashome & 1; has[A_SECURE] = IN.hassecure & 1; has[A_NUM] = IN.hasnum & 1;
    text(now_pw, IN.stored, MAX_PASSWDLEN + 1); text(now_home, IN.home, 14); now_nick[0] = 'N'; now_nick[1] = 0;
    now_num = IN.num;
    for (int i = 0; i < MAX_GROUPS; i++) g_tab[i].mod = -1;
}
static bool reg(void) { return u_tab[ME].realname[0] != 0; }
static void one(void)
{
    setup();
    char pw[24], pw2[24], old[14];
    text(pw, IN.pw, 24); text(pw2, IN.pw2, 24); text(old, IN.stored, MAX_PASSWDLEN + 1);
    bool known = has[A_PW], match = samepw(pw, old), was = reg();
    int n = 0;
    (void)n; (void)pw2; (void)old; (void)known; (void)match; (void)was;
#if F == 1
    int r = valuser(NAME, pw, NULL);
    CHECK(r == (pw[0] && known && match ? 0 : -1), "valid exactly with the right password");
    CHECK(nset == 0 && ndel == 0 && nopen == 0, "nothing changes");
    REACH(r == 0 && IN.pw[12] && IN.pw[13], "long"); REACH(r == -1 && known, "wrong");
#elif F == 2
    for (int i = 0; i < MAX_GROUPS; i++) {
        g_tab[i].name[0] = 'a' + i; g_tab[i].name[1] = 0; g_tab[i].modtimeout = IN.tmo[i] & 1;
        if (IN.missing[i] & 1) strcpy(g_tab[i].missingmod, "nick"); else if (IN.missing[i] & 2) strcpy(g_tab[i].missingmod, "nickel");
    }
    u_tab[2].group[0] = 'a' + (IN.grp[2] & 1); u_tab[2].group[1] = 0;
    ASSUME(IN.num >= 0 && IN.num <= MAX_WRITES);
    ASSUME(!known || old[0]);
    int r = nickwrite(ME, pw, IN.verify & 1, NULL);
    bool created = !known && pw[0] && !(IN.verify & 1), verified = known && pw[0] && match;
    CHECK(r == (created || verified ? 0 : -1), "accepted exactly for a new nickname or with the right password");
    CHECK(reg() == (r == 0 || (was && !pw[0]) || (was && !known)), "registered exactly if accepted; a wrong password unregisters");
    if (r == 0) CHECK(eqs(u_tab[ME].realname, "registered"), "marked registered");
    if (created) {
        CHECK(has[A_PW] && samepw(pw, now_pw) && slen(now_pw) <= MAX_PASSWDLEN, "a new nickname gets this password");
        CHECK(has[A_NICK] && eqs(now_nick, "nick"), "its name is recorded"); CHECK(has[A_HOME] && eqs(now_home, "u@Ho"), "its address is recorded");
    } else CHECK(!(touched & (1u << A_PW | 1u << A_NICK | 1u << A_HOME | 1u << A_SECURE)) && samepw(now_pw, old), "an existing record keeps its password and address");
    if (r != 0) CHECK(nset == 0, "a refusal changes nothing");
    CHECK(ndel == 0 && nopen == 0, "nothing is deleted; the database is released");
    if (r == 0) CHECK(samepw(pw, u_tab[ME].password) && slen(u_tab[ME].password) <= MAX_PASSWDLEN, "the password used is remembered");
    for (int i = 0; i < MAX_GROUPS; i++) {
        bool back = verified && i > 0 && (IN.tmo[i] & 1) && (IN.missing[i] & 1);
        CHECK((g_tab[i].mod == ME) == back && (g_tab[i].mod == ME || g_tab[i].mod == -1), "only the missing moderator gets the group back, on proving who they are");
        if (back) CHECK(g_tab[i].missingmod[0] == 0 && g_tab[i].modtimeout == 0, "and is missing no more");
    }
    REACH(created, "created"); REACH(verified && g_tab[2].mod == ME, "moderator again"); REACH(r == -1 && known && pw[0], "wrong");
#elif F == 3
    ASSUME(!known || old[0]);
    nickchpass(ME, pw, pw2, NULL);
    bool ok = known && match && pw2[0];
    if (ok) {
        CHECK(has[A_PW] && samepw(pw2, now_pw) && slen(now_pw) <= MAX_PASSWDLEN, "the new password is in force");
        CHECK(has[A_HOME] && eqs(now_home, "u@Ho"), "the address is recorded");
        CHECK((touched & ~(1u << A_PW | 1u << A_HOME)) == 0, "and nothing else changes");
    } else CHECK(nset == 0 && nerr > 0, "without the old password, or without a new one, nothing changes and the user is told");
    CHECK(ndel == 0 && nopen == 0 && reg() == was, "nothing is deleted; the database is released");
    REACH(ok, "changed"); REACH(known && !match, "wrong"); REACH(ok && pw2[13] && !pw2[14], "long");
#elif F == 4
    int k; for (k = 0; k < 3; k++) mhas[k][IN.num >= 1 && IN.num <= MAX_WRITES ? IN.num : 1] = true;
    for (int i = A_ON; i < NA; i++) has[i] = true;
    ASSUME(!known || old[0]);
    int r = nickdelete(ME, pw, NULL);
    bool ok = was && known && pw[0] && match;
    CHECK(r == (ok ? 0 : -1), "deleted exactly by its registered user with its password");
    if (ok) {
        for (int i = 0; i < NA; i++) CHECK(!has[i], "nothing of the record is left");
        for (k = 0; k < 3; k++) for (int i = 1; i <= MAX_WRITES; i++) CHECK(!mhas[k][i], "no message is left");
    } else CHECK(ndel == 0 && nerr > 0, "a refusal deletes nothing and is reported");
    CHECK(nset == 0 && nopen == 0, "nothing is written; the database is released");
    REACH(ok, "deleted"); REACH(was && known && !match && pw[0], "wrong");
#elif F == 5
    ASSUME(IN.sec == 0 || IN.sec == 1);
    bool before = has[A_SECURE];
    int r = setsecure(ME, IN.sec, NULL);
    CHECK(r == (was ? 0 : -1), "only a registered user sets security");
    CHECK(has[A_SECURE] == (was ? IN.sec == 1 : before), "as asked");
    CHECK((touched & ~(1u << A_SECURE)) == 0, "nothing else changes");
    for (int i = 0; i < NA; i++) if (i != A_SECURE) CHECK(has[i] == (i == A_PW ? IN.haspw & 1 : i == A_NICK ? IN.hasnick & 1 : i == A_HOME ? IN.hashome & 1 : i == A_NUM ? IN.hasnum & 1 : 0), "nothing else goes");
    REACH(was && IN.sec == 1, "on"); REACH(!was, "refused");
#elif F == 6
    ASSUME(has[A_NICK] || !has[A_HOME]);
    text(now_home, IN.home, 14);
    for (int i = 0; i < 6; i++) { u_tab[ME].loginid[i] = i < 5 ? IN.pw[i] : 0; u_tab[ME].nodeid[i] = i < 5 ? IN.pw2[i] : 0; }
    char id[16]; int p = 0;
    for (int i = 0; i < 5 && u_tab[ME].loginid[i]; i++) id[p++] = u_tab[ME].loginid[i];
    id[p++] = '@';
    for (int i = 0; i < 5 && u_tab[ME].nodeid[i]; i++) id[p++] = u_tab[ME].nodeid[i];
    id[p] = 0;
    int r = nicklookup(-ME, NAME, NULL);
    bool same = true;
    for (int i = 0; i < 13; i++) { int a = id[i], b = now_home[i]; if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; if (a != b) { same = false; break; } if (!a) break; }
    CHECK(r == (!has[A_HOME] ? -1 : same && !has[A_SECURE] ? 0 : -2), "recognised exactly from the recorded address, unless secured");
    CHECK(nset == 0 && ndel == 0 && nopen == 0 && nout == 0 && nerr == 0, "nothing changes, nothing is sent");
    REACH(r == 0, "recognised"); REACH(r == -2 && same, "secured"); REACH(r == -2 && !same, "elsewhere");
#elif F == 7
    char t[26]; text(t, IN.text, 26);
    ASSUME(IN.max >= 1 && IN.max <= 20);
    nickchinfo(ME, "email", t, IN.max, "E-Mail", NULL);
    if (!was) CHECK(nset == 0 && nerr == 1, "only a registered user sets their details");
    else {
        CHECK(touched == 1u << A_EMAIL, "only the detail in question changes");
        for (int i = 0; i < 20; i++) { if (i >= IN.max) { CHECK(now_text[i] == 0, "cut at its limit"); break; } CHECK(now_text[i] == t[i], "to the text given"); if (!t[i]) break; }
        if (IN.max == 20) CHECK(slen(now_text) <= 20, "cut at its limit");
    }
    CHECK(ndel == 0, "nothing is deleted");
    REACH(was && slen(t) > IN.max, "cut"); REACH(!was, "refused");
#elif F == 8
    expect_cat = "other";
    char t[8]; text(t, IN.text, 6);
    ASSUME(IN.num >= 0 && IN.num <= MAX_WRITES && IN.online >= -1 && IN.online < MAX_USERS);
    for (int i = 1; i <= MAX_WRITES; i++) for (int k = 0; k < 3; k++) mhas[k][i] = (has[A_NUM] ? i <= IN.num : false);
    int had = has[A_NUM] ? IN.num : 0;
    int r = nickwritemsg(ME, "other", t, NULL);
    bool ok = was && t[0] && has[A_NICK] && had < MAX_WRITES;
    CHECK(r == (ok ? 0 : -1), "left exactly by a registered user, for a registered one, while there is room");
    CHECK(nopen == 0 && ndel == 0, "the database is released");
    if (ok) {
        CHECK(now_num == had + 1 && has[A_NUM], "one more message waits");
        CHECK(mset == 3 && mhas[0][had + 1] && mhas[1][had + 1] && mhas[2][had + 1], "with header, sender and text");
        CHECK(mval[1][had + 1] == 'n' && mval[2][had + 1] == t[0], "it is this sender's text");
        if (IN.online > 0 && IN.online != ME) CHECK(nstat[IN.online] == 1, "an addressee who is here is told");
    } else CHECK(nset == 0, "a refusal stores nothing");
    REACH(ok && had == MAX_WRITES - 1, "last"); REACH(was && had == MAX_WRITES, "full");
#elif F == 9
    ASSUME(IN.num >= 0 && (IN.num <= 3 || IN.num == MAX_WRITES));
    int cnt = has[A_NUM] ? IN.num : 0;
    for (int i = 1; i <= MAX_WRITES; i++) for (int k = 0; k < 3; k++) { mhas[k][i] = i <= cnt; mval[k][i] = 'a' + i; }
    int r = nickreadmsg(ME, NULL);
    CHECK(r == (was ? 0 : -1), "only a registered user reads messages");
    CHECK(nopen == 0, "the database is released");
    if (!was) CHECK(nset == 0 && ndel == 0 && nstored == 0, "a refusal touches nothing");
    else {
        CHECK(nstored == cnt, "every message is shown once");
        for (int i = 0; i < 3; i++) if (i < cnt) CHECK(shown_msg[i] == 'a' + i + 1 && shown_from[i] == 'a' + i + 1, "in order, with its sender");
        for (int i = 1; i <= MAX_WRITES; i++) for (int k = 0; k < 3; k++) CHECK(!mhas[k][i], "and is gone");
        CHECK(has[A_NUM] && now_num == 0, "none waits");
    }
    REACH(was && cnt == MAX_WRITES, "full"); REACH(was && cnt == 0, "none");
#elif F == 10
    for (int i = A_ON; i < NA; i++) has[i] = IN.pw[i - A_ON] & 1;
    ASSUME(has[A_NICK] || !has[A_HOME]);
    int r = nicklookup(ME, NAME, NULL);
    CHECK(r == (has[A_HOME] ? 0 : -1), "found exactly if registered");
    CHECK(nset == 0 && ndel == 0 && nopen == 0, "nothing changes");
    if (r == 0) {
        static const char h[] = "Nickname:     ", ad[] = "Address:   ";
        for (int i = 0; i < 14; i++) CHECK(line0[i] == h[i], "begins with the nickname");
        for (int i = 0; i < 22; i++) CHECK(line0[14 + i] == (i < IN.lookup ? 'N' : ' '), "the recorded nickname and nothing else");
        for (int i = 0; i < 11; i++) CHECK(line0[36 + i] == ad[i], "then the address");
        for (int i = 47; i < 119; i++) CHECK(line0[i] == 'H', "the recorded address");
        CHECK(linelen[0] == 47 + 77, "and nothing else");
        int want = 3 + has[A_EMAIL] + has[A_WWW] + (has[A_ADDR] ? 3 : 0);
        CHECK(has[A_TEXT] ? nout > want : nout == want, "one line for each recorded detail");
        CHECK(nerr == 0, "no error");
    } else CHECK(nout == 0 && nerr == 1, "otherwise the asker is told");
    REACH(r == 0 && has[A_TEXT] && has[A_ADDR], "everything"); REACH(r == -1, "unknown");
#elif F == 11
    text(u_tab[ME].nickname, IN.nick, MAX_NICKLEN + 1); text(u_tab[ME].password, IN.pw, MAX_PASSWDLEN + 1);
    int r = check_auth(ME);
    CHECK(r == (strcasecmp(u_tab[ME].nickname, "ADMIN") == 0 && strcasecmp(u_tab[ME].password, ADMIN_PWD) == 0), "authorised exactly as admin with the admin password");
    CHECK(nset == 0 && ndel == 0, "nothing changes");
    REACH(r != 0, "authorised"); REACH(r == 0 && u_tab[ME].nickname[0] == 'a' && u_tab[ME].password[0] == 'c', "refused");
#endif
}
void harness(void)
{
    HARNESS_IN();
#if F == 8 || F == 9    /* the number of messages, one at a time */
    static const int nums[7] = { 0, 1, 2, 3, 9, MAX_WRITES - 1, MAX_WRITES };
    for (int i = 0; i < 7; i++) if (IN.num == nums[i] && (F == 8 ? nums[i] < 2 || nums[i] > 3 : nums[i] <= 3 || nums[i] == MAX_WRITES)) { IN.num = nums[i]; IN.hasnum = 1; one(); return; }
    if (IN.num == -1) { IN.num = 0; IN.hasnum = 0; one(); }
#elif F == 10
    static const int nl[3] = { 1, 11, 12 };
    static const unsigned char pat[5] = { 0, 0xff, 0x55, 0xaa, 0x20 };     /* which details are there */
    for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) for (int h = 0; h < 2; h++)
        if ((i == 2 || j == 0) && (h || (i == 0 && j == 0)) && IN.lookup == nl[i] && IN.online == j && IN.hashome == h) {
            IN.lookup = nl[i]; IN.hashome = IN.hasnick = h;
            for (int k = 0; k < 8; k++) IN.pw[k] = pat[j] >> k & 1;
            one();
            return;
        }
#else
    one();
#endif
}
VP_MAIN
