/* Outbound packets: server/send.c
 * Callee contracts: filtertext (proved in text.c), pktserv_send (netwrite.c), nlmatch (lists.c).
 * F selects the function; texts up to the full room of the packet, every length of both.
 * @unit name=send_error prop=C03 under=senderror,doSend def=VP_USERS=4,VP_GROUPS=2,F=1,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_status prop=C03 under=sendstatus,doSend def=VP_USERS=4,VP_GROUPS=2,F=2,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_important prop=C03 under=sendimport,doSend def=VP_USERS=4,VP_GROUPS=2,F=3,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_cmdend prop=C03 under=send_cmdend,doSend def=VP_USERS=4,VP_GROUPS=2,F=4,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_cmdout prop=C03 under=sends_cmdout,doSend def=VP_USERS=4,VP_GROUPS=2,F=5,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_stored prop=C03 under=send_person_stored,doSend def=VP_USERS=4,VP_GROUPS=2,F=6,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_open prop=C03 under=sendopen,doSend def=VP_USERS=4,VP_GROUPS=2,F=7,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_person prop=C03,C19 under=sendperson,doSend def=VP_USERS=4,VP_GROUPS=2,F=8,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_beep prop=C03,C19 under=sendbeep,doSend def=VP_USERS=4,VP_GROUPS=2,F=9,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_short prop=C03 under=sendping,sendexit,send_loginok,user_whead,doSend def=VP_USERS=4,VP_GROUPS=2,F=10,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_wline prop=C03 under=user_wline,doSend def=VP_USERS=4,VP_GROUPS=2,F=11,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_doSend prop=C03 under=doSend def=VP_USERS=4,VP_GROUPS=2,F=12,TXT1=21,PKT=40,TL=38 unwind=66 mode=plain term=1 level=bounded bound=a_configuration_with_40-byte_packets
 * @unit name=send_error_full prop=C03 under=senderror,doSend def=VP_USERS=4,VP_GROUPS=2,F=1,TXT1=21,TL=254 unwind=260 mode=plain term=1
 * @unit name=send_cmdend_full prop=C03 under=send_cmdend,doSend def=VP_USERS=4,VP_GROUPS=2,F=4,TXT1=21,TL=254 unwind=260 mode=plain term=1
 * @unit name=send_cmdout_full prop=C03 under=sends_cmdout,doSend def=VP_USERS=4,VP_GROUPS=2,F=5,TXT1=21,TL=254 unwind=260 mode=plain term=1
 */
#include "vp.h"
#include "vp_log.h"
#ifndef TL
#define TL 254
#endif
struct vp_in {
    unsigned char fl[2]; char f[2][TL + 2]; unsigned char w;      /* what the filter makes of the two texts */
    int to, from; unsigned char hushn, hushs, nobeep, kill; signed char sendres; char s1[14], s2[14];
};
#include "vp_in.h"
#include <sys/param.h>
#include "icb_config.h"
#ifdef PKT
#undef MAX_PKT_LEN
#define MAX_PKT_LEN PKT
#endif
#include "vp_fmt.h"
#include "server/server.h"
#include "server/groups.h"
#include "server/users.h"
#include "server/externs.h"

USER_ITEM u_tab[MAX_USERS]; GROUP_ITEM g_tab[MAX_GROUPS];
static char messagebuffer[64]; char *mbuf = messagebuffer;
#undef MSG_BUF_SIZE
#define MSG_BUF_SIZE 64
char thishost[MAXHOSTNAMELEN + 1] = "h"; time_t curtime; short S_kill[MAX_USERS]; int lpriv_id[MAX_USERS]; int pong_req[MAX_USERS];
struct timeval ping_time[MAX_USERS];
char *fields[MAX_FIELDS];
/* only the first character of a text matters: the filter stub answers for the rest */
static char T1[] = "1", T2[] = "2";
static size_t lim[2]; static int nfilt;

/* contract of filtertext: at most len bytes, printable, the rest of dest zeroed */
void filtertext(const char *src, char *dest, size_t len)
{
    if (src[0] != '1' && src[0] != '2') {                 /* a fixed text of the server's own */
        size_t j = 0;
        for (; j < len && src[j]; j++) dest[j] = src[j];
        if (j < len) dest[j] = 0;
        return;
    }
    int k = src[0] == '2';
    nfilt++;
    lim[k] = len;
    int n = IN.fl[k] < len ? IN.fl[k] : (int)len;
    for (int i = 0; i < TL + 2; i++) if ((size_t)i < len) dest[i] = i < n ? IN.f[k][i] : 0;
}
char *getword(char *s) { return s; }
char *get_tail(char *s) { return s; }
int split(char *s) { fields[1] = s + MAX_PKT_LEN - 1; return 2; }
static int nserver, nstatus, nmatch;
void cmdmsg(int n, char *p) { (void)n; (void)p; nserver++; }
void ucaseit(char *s) { for (; *s; s++) if (*s >= 'a' && *s <= 'z') *s -= 32; }
void nlclear(NAMLIST *nl) { (void)nl; }
static NAMLIST la, lb, lc, ld, le, lf;
int nlmatch(char name[], NAMLIST nl)
{
    nmatch++;
    if (nl.num == 7 || nl.num == 8) return 0;                /* the server's answer to a beep: who hushes the server */
    if (nl.num == 3) { CHECK(name[0] == '1' && name[1] == 'N' && name[2] == 0, "the nickname list is asked about the nickname, upper case"); return IN.hushn & 1; }
    CHECK(nl.num == 4, "only the hush lists are asked");
    CHECK(name[0] == 'L' && name[1] == '@' && name[2] == 'H' && name[3] == 0, "the address list is asked about login@host, upper case");
    return IN.hushs & 1;
}
#define TO 1
#define FROM 2
static int nsent, sento, nto[2], lastto[2]; static unsigned char frame[MAX_PKT_LEN + 1]; static size_t framelen;
/* contract of pktserv_send: takes one whole frame */
int pktserv_send(int s, char *pkt, size_t len)
{
    CHECK(s == TO || s == FROM, "sent to the addressee");
    CHECK(len >= 3 && len <= MAX_PKT_LEN, "a frame fits the packet size");
    CHECK((unsigned char)pkt[0] == len - 1, "the length byte announces what follows");
    CHECK(pkt[len - 1] == 0, "the frame ends with NUL");
    nsent++; sento = s; framelen = len;
    nto[s == FROM]++; lastto[s == FROM] = pkt[1];
    if (IN.w < len) frame[IN.w] = pkt[IN.w];           /* any one byte of it is looked at below */
    frame[1] = pkt[1];
    return IN.sendres < 0 ? IN.sendres : 0;
}
int pktserv_disconnect(int s) { (void)s; return 0; }
char *getremotename(int s) { (void)s; return "host"; }
#include "server/send.c"

/* expected: type, head (constant), then text 0, sep, text 1 */
static void expect(char type, const char *head, int hl, int k1, size_t max1, const char *sep, int sl, int k2, size_t max2)
{
    size_t l1 = 0, l2 = 0;
    if (k1 >= 0) { CHECK(lim[k1] >= max1, "the text is not cut short of the packet's room"); l1 = IN.fl[k1] < max1 ? IN.fl[k1] : max1; }
    if (k2 >= 0) { CHECK(lim[k2] >= max2, "the text is not cut short of the packet's room"); l2 = IN.fl[k2] < max2 ? IN.fl[k2] : max2; }
    CHECK(nsent == 1 && sento == TO, "exactly one frame, to the addressee");
    if (nsent != 1) return;
    size_t total = 2 + hl + l1 + sl + l2 + 1;
    CHECK(framelen == total, "nothing is added or lost");
    CHECK(frame[1] == (unsigned char)type, "the packet type");
    size_t w = IN.w;
    if (w < 2 || w >= total) return;
    w -= 2;
    unsigned char c = frame[w + 2];
    if (w < (size_t)hl) { CHECK(c == (unsigned char)head[w], "the fixed part"); return; }
    w -= hl;
    if (w < l1) { CHECK(c == (unsigned char)IN.f[k1][w], "the first text, unchanged"); return; }
    w -= l1;
    if (w < (size_t)sl) { CHECK(c == (unsigned char)sep[w], "the separator"); return; }
    w -= sl;
    if (w < l2) { CHECK(c == (unsigned char)IN.f[k2][w], "the second text, unchanged"); return; }
    CHECK(c == 0, "terminated");
}
#define NICKROOM (MAX_PKT_DATA - MAX_NICKLEN - 2)
#define STATROOM (MAX_PKT_DATA - 20 - 2)

void harness(void)
{
    HARNESS_IN();
    for (int k = 0; k < 2; k++) for (int i = 0; i < TL + 2; i++) {
        ASSUME(IN.fl[k] <= TL + 1);
        if (i < IN.fl[k]) ASSUME((unsigned char)IN.f[k][i] >= 0x20);
    }
    u_tab[FROM].nickname[0] = '1'; u_tab[FROM].nickname[1] = 'n'; u_tab[FROM].loginid[0] = 'l'; u_tab[FROM].nodeid[0] = 'h';
    la.num = 3; lb.num = 4; lc.num = 5; ld.num = 6;
    u_tab[TO].pri_n_hushed = &la; u_tab[TO].pri_s_hushed = &lb; u_tab[TO].pub_n_hushed = &lc; u_tab[TO].pub_s_hushed = &ld;
    le.num = 7; lf.num = 8; u_tab[FROM].pri_n_hushed = &le; u_tab[FROM].pri_s_hushed = &lf;
    u_tab[NICKSERV].nickname[0] = 's'; u_tab[NICKSERV].loginid[0] = 'i'; u_tab[NICKSERV].nodeid[0] = 'h';
    lpriv_id[TO] = -1;
    IN.fl[0] = IN.fl[0] <= TXT1 ? IN.fl[0] : TXT1;
#if F == 1
    senderror(TO, T2);
    expect('e', "", 0, -1, 0, "", 0, 1, MAX_PKT_DATA - 1);
#elif F == 2
    sendstatus(TO, T1, T2);
    expect('d', "", 0, 0, 20, "\1", 1, 1, STATROOM);
#elif F == 3
    sendimport(TO, T1, T2);
    expect('f', "", 0, 0, 20, "\1", 1, 1, STATROOM);
#elif F == 4
    send_cmdend(TO, T2);
    expect('i', "ec\1\1", 4, -1, 0, "", 0, 1, MAX_PKT_DATA - 5);
#elif F == 5
    sends_cmdout(TO, T2);
    expect('i', "co\1", 3, -1, 0, "", 0, 1, MAX_PKT_DATA - 4);
#elif F == 6
    send_person_stored(TO, T1, T2);
    expect('c', "", 0, 0, MAX_NICKLEN, "\1", 1, 1, NICKROOM);
#elif F == 7
    sendopen(FROM, TO, T2);
    expect('b', "", 0, 0, MAX_NICKLEN, "\1", 1, 1, NICKROOM);
#elif F == 8
    sendperson(FROM, TO, T2);
    if ((IN.hushn | IN.hushs) & 1) {
        CHECK(nsent == 1 && sento == FROM && frame[1] == 'd', "a hushed sender is told and nothing else is sent");
        CHECK(lpriv_id[TO] == -1, "a hushed message leaves no trace");
    } else {
        expect('c', "", 0, 0, MAX_NICKLEN, "\1", 1, 1, NICKROOM);
        CHECK(lpriv_id[TO] == FROM, "the receiver can answer");
    }
#elif F == 9
    ASSUME(IN.nobeep <= 2);
    u_tab[TO].nobeep = IN.nobeep;
    sendbeep(FROM, TO);
    if (IN.nobeep == 0) {
        CHECK(nsent == 1 && nto[0] == 1 && lastto[0] == 'k', "a beep goes to the receiver");
        CHECK(framelen == 5 && (IN.w != 2 || frame[2] == '1') && (IN.w != 3 || frame[3] == 'n'), "a beep names the sender");
    } else {
        CHECK(nto[1] == 1 && lastto[1] == 'e', "a refused beep is reported to the sender");
        CHECK(nto[0] == (IN.nobeep == 2) && (nto[0] == 0 || lastto[0] == 'd'), "whoever refuses beeps is not beeped");
    }
    REACH(IN.nobeep == 2 && nsent == 2, "verbose refusal");
#elif F == 10
    IN.f[1][IN.fl[1] < 20 ? IN.fl[1] : 20] = 0;
    if (IN.fl[1] > 20) IN.fl[1] = 20;
    lim[1] = 255;
    switch (IN.nobeep) {
    case 0: sendping(TO, IN.f[1]); expect('l', "", 0, -1, 0, "", 0, 1, MAX_PKT_DATA - 1); break;
    case 1: sendexit(TO); expect('g', "", 0, -1, 0, "", 0, -1, 0); break;
    case 2: send_loginok(TO); expect('a', "", 0, -1, 0, "", 0, -1, 0); break;
    default: user_whead(TO); expect('i', "wh", 2, -1, 0, "", 0, -1, 0); break;
    }
    REACH(nsent == 1 && IN.nobeep == 0 && framelen == 23, "ping");
#elif F == 11
    lim[0] = lim[1] = 255;
    if (IN.fl[0] > 6) IN.fl[0] = 6;
    if (IN.fl[1] > 6) IN.fl[1] = 6;
    IN.f[0][IN.fl[0]] = 0; IN.f[1][IN.fl[1]] = 0;
    IN.s1[1] = 0; IN.s2[1] = 0;
    ASSUME(IN.s1[0] >= 0x20 && IN.s2[0] >= 0x20);
    char hd[5] = { 'w', 'l', 1, ' ', 1 }, sp[12] = { 1, '0', 1, '-', '7', 1, '4', '2', 1, 0, 1, 0 };
    user_wline(TO, " ", IN.f[0], 0, -7, 42, IN.s1, IN.s2, IN.f[1]);
    sp[9] = IN.s1[0]; sp[11] = IN.s2[0];
    char sp2[13]; for (int i = 0; i < 12; i++) sp2[i] = sp[i]; sp2[12] = 1;
    expect('i', hd, 5, 0, 12, sp2, 13, 1, 64);
    REACH(nsent == 1 && IN.fl[0] == 6 && IN.fl[1] == 6, "long");
#elif F == 12
    ASSUME(IN.fl[1] >= 1 && IN.fl[1] <= MAX_PKT_LEN - 2);
    for (int i = 0; i < TL + 2; i++) if (1 + i < MAX_PKT_LEN) packetbuffer[1 + i] = i < IN.fl[1] ? IN.f[1][i] : 0;
    S_kill[TO] = IN.kill;
    unsigned char ty = IN.f[1][0];
    int to, r;
    if (IN.hushs == 1) { to = NICKSERV; r = doSend(FROM, NICKSERV); }
    else if (IN.hushs == 2) { to = -1; r = doSend(FROM, -1); }
    else { to = TO; r = doSend(FROM, TO); }
    if (to == -1) CHECK(r == -1 && nsent == 0 && nserver == 0, "nobody is addressed by a negative number");
    else if (to == NICKSERV) {
        CHECK(nserver == (ty == 'c' ? 1 : 0), "a personal message to the server is a command");
        CHECK(nsent == (ty == 'k' ? 1 : 0) && nto[0] == 0, "the server answers beeps and nothing else");
    } else if (IN.kill > 0) CHECK(nsent == 0 && r == -1, "nothing is sent to a connection that is being dropped");
    else {
        CHECK(nsent == 1 && sento == TO && framelen == (size_t)IN.fl[1] + 2, "the packet is sent whole");
        if (IN.w >= 1 && IN.w <= IN.fl[1]) CHECK(frame[IN.w] == (unsigned char)IN.f[1][IN.w - 1], "unchanged");
        CHECK(S_kill[TO] == (IN.sendres == -2 ? 1 : 0), "a connection is dropped only when it is gone");
    }
    REACH(nsent == 1 && IN.sendres == -2, "connection gone");
    REACH(nserver == 1, "server command");
#endif
#if F <= 8
    REACH(nsent == 1 && framelen == MAX_PKT_LEN, "longest packet");
    REACH(nsent == 1 && IN.fl[1] == 0, "empty text");
#endif
}
VP_MAIN
