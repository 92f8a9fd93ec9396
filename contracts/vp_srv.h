/* The server's tables for the harnesses of its commands, and stand-ins for the contracts of its callees:
 * the send functions (C03) record to whom they send, the name lists (C10) answer whatever they like and record what is asked and changed.
 * struct vp_in has members: struct srv_in S;
 */
#pragma once
#include <sys/param.h>
#include <sys/time.h>
#include "server/server.h"
#include "server/groups.h"
#include "server/users.h"
#include "server/externs.h"
#include "server/s_stats.h"
USER_ITEM u_tab[MAX_USERS]; GROUP_ITEM g_tab[MAX_GROUPS];
static char messagebuffer[1024]; char *mbuf = messagebuffer;
char thishost[MAXHOSTNAMELEN + 1] = "h"; time_t curtime; short S_kill[MAX_USERS]; int lpriv_id[MAX_USERS]; int pong_req[MAX_USERS];
struct timeval ping_time[MAX_USERS]; long TimeToDie; int ShutdownNotify; struct _server_stats server_stats;
static bool eqs(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) ; return *a == *b; }
static void cpy(char *d, const char *s) { int i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; }
/* user lists */
enum { PRI_N, PUB_N, PRI_S, PUB_S, NOT_N, NOT_S, NUL };
/* group lists */
enum { N_INV, NR_INV, S_INV, SR_INV, N_BAR, NNR_BAR, S_BAR, SNR_BAR, N_TALK, NR_TALK, NGL };
static NAMLIST ul[MAX_USERS][NUL], gl[MAX_GROUPS][NGL];
#define UID(u, k) ((u) * NUL + (k))
#define GID(g, k) (MAX_USERS * NUL + (g) * NGL + (k))
#define NLISTS (MAX_USERS * NUL + MAX_GROUPS * NGL)
static void tables(void)
{
    for (int i = 0; i < MAX_USERS; i++) {
        for (int k = 0; k < NUL; k++) { ul[i][k].num = UID(i, k); ul[i][k].max = 50; }
        u_tab[i].pri_n_hushed = &ul[i][PRI_N]; u_tab[i].pub_n_hushed = &ul[i][PUB_N]; u_tab[i].pri_s_hushed = &ul[i][PRI_S]; u_tab[i].pub_s_hushed = &ul[i][PUB_S];
        u_tab[i].n_notifies = &ul[i][NOT_N]; u_tab[i].s_notifies = &ul[i][NOT_S];
        lpriv_id[i] = pong_req[i] = -1;
    }
    for (int i = 0; i < MAX_GROUPS; i++) {
        for (int k = 0; k < NGL; k++) { gl[i][k].num = GID(i, k); gl[i][k].max = 50; }
        g_tab[i].n_invites = &gl[i][N_INV]; g_tab[i].nr_invites = &gl[i][NR_INV]; g_tab[i].s_invites = &gl[i][S_INV]; g_tab[i].sr_invites = &gl[i][SR_INV];
        g_tab[i].n_bars = &gl[i][N_BAR]; g_tab[i].n_nr_bars = &gl[i][NNR_BAR]; g_tab[i].s_bars = &gl[i][S_BAR]; g_tab[i].s_nr_bars = &gl[i][SNR_BAR];
        g_tab[i].n_talk = &gl[i][N_TALK]; g_tab[i].nr_talk = &gl[i][NR_TALK];
        g_tab[i].mod = -1; g_tab[i].control = PUBLIC; g_tab[i].visibility = VISIBLE; g_tab[i].volume = LOUD;
    }
}
/* ---- what is sent ---- */
#ifndef ON_STATUS
#define ON_STATUS(to, c, s) ((void)0)
#endif
#ifndef ON_ERROR
#define ON_ERROR(to, s) ((void)0)
#endif
static int nerr[MAX_USERS], nstat[MAX_USERS], nimp[MAX_USERS], nout[MAX_USERS];
void senderror(int to, const char *s) { CHECK(to >= 0 && to < MAX_USERS && s != NULL, "to a user"); ON_ERROR(to, s); nerr[to]++; }
void sendstatus(int to, const char *c, const char *s) { CHECK(to >= 0 && to < MAX_USERS && s != NULL, "to a user"); ON_STATUS(to, c, s); nstat[to]++; }
void sendimport(int to, const char *c, const char *s) { CHECK(to >= 0 && to < MAX_USERS && s != NULL, "to a user"); (void)c; nimp[to]++; }
#ifndef OWN_CMDOUT
void sends_cmdout(int to, const char *s) { CHECK(to >= 0 && to < MAX_USERS && s != NULL, "to a user"); nout[to]++; }
#endif
static int sum(const int *a) { int s = 0; for (int i = 0; i < MAX_USERS; i++) s += a[i]; return s; }
static bool only(const int *a, int n) { for (int i = 0; i < MAX_USERS; i++) if (i != n && a[i]) return false; return true; }
/* ---- the name lists ---- */
#ifndef OWN_LISTS
static unsigned char pres[NLISTS]; static int nputs[NLISTS], ndels[NLISTS], nclears[NLISTS];
#ifndef ON_LIST
#define ON_LIST(name, id, op) ((void)0)
#endif
static int lid(NAMLIST nl) { CHECK(nl.num >= 0 && nl.num < NLISTS, "a list"); return nl.num; }
int nlpresent(char *name, NAMLIST nl) { int i = lid(nl); ON_LIST(name, i, 'p'); return pres[i]; }
int nlmatch(char *name, NAMLIST nl) { int i = lid(nl); ON_LIST(name, i, 'm'); return pres[i]; }
void nlput(NAMLIST *nl, char *name) { int i = lid(*nl); ON_LIST(name, i, '+'); nputs[i]++; }
int nldelete(NAMLIST *nl, char *name) { int i = lid(*nl); ON_LIST(name, i, '-'); ndels[i]++; if (pres[i]) { pres[i] = 0; return 0; } return -1; }
void nlclear(NAMLIST *nl) { int i = lid(*nl); nclears[i]++; pres[i] = 0; }
void nlinit(NAMLIST *nl, int max) { (void)nl; (void)max; }
unsigned int nlcount(NAMLIST nl) { return pres[lid(nl)]; }
#endif
