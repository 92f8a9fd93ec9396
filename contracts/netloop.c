/* Connection life cycle and event loop: pktserv/pktserv.c
 * Callees in pktsocket.c are represented by their contracts (proved in netread.c, netwrite.c).
 * @unit name=client_event_a prop=C01,C04 under=pollfd_state_machine,handle_disconnect,handle_raw_disconnect,delete_pollfd,pktserv_disconnect,_msgbuf_free def=VP_USERS=4,U_EVENT,AT=0 unwind=7 mode=plain term=1 weight=9
 * @unit name=client_event_b prop=C01,C04 under=pollfd_state_machine,handle_disconnect,handle_raw_disconnect,delete_pollfd,pktserv_disconnect,_msgbuf_free def=VP_USERS=4,U_EVENT,AT=1 unwind=7 mode=plain term=1 weight=9
 * @unit name=pollset_add prop=C04 under=add_pollfd def=VP_USERS=64,U_ADD unwind=19 mode=plain term=1 level=bounded bound=up_to_17_connections,_across_the_first_growth_step
 * @unit name=pollset_del prop=C04 under=delete_pollfd def=VP_USERS=64,U_DEL unwind=19 mode=plain term=1 level=bounded bound=up_to_17_connections
 * @unit name=poll_events prop=C04 under=update_pollfd_events def=VP_USERS=8,U_UPD unwind=9 mode=plain term=1 level=bounded bound=a_table_of_8_connections
 * @unit name=poll_round_1 prop=C04 under=handle_pollfds,pollfd_state_machine,add_pollfd,delete_pollfd def=VP_USERS=6,U_ROUND,NC=4,LIS=1 unwind=28 mode=plain term=1 level=bounded bound=4_connections,_number_1_of_them_listening
 * @unit name=poll_round_2 prop=C04 under=handle_pollfds,pollfd_state_machine,add_pollfd,delete_pollfd def=VP_USERS=6,U_ROUND,NC=4,LIS=2 unwind=28 mode=plain term=1 level=bounded bound=4_connections,_number_2_of_them_listening
 * @unit name=poll_round_3 prop=C04 under=handle_pollfds,pollfd_state_machine,add_pollfd,delete_pollfd def=VP_USERS=6,U_ROUND,NC=4,LIS=3 unwind=28 mode=plain term=1 level=bounded bound=4_connections,_number_3_of_them_listening
 * @unit name=poll_round_4 prop=C04 under=handle_pollfds,pollfd_state_machine,add_pollfd,delete_pollfd def=VP_USERS=6,U_ROUND,NC=4,LIS=4 unwind=28 mode=plain term=1 level=bounded bound=4_connections,_number_4_of_them_listening
 * @assume new_client, dispatch, ok2read and lost_client act on the network layer only through pktserv_send() and pktserv_disconnect()
 */
#include "vp.h"
#include "vp_log.h"
struct vp_in {
    unsigned char st, newmsg, hasbuf, queued, listener, act;
    short revents; unsigned char ok2read;
    unsigned char rd[3], wr[3], sendres;
    /* pollset units */
    int n, max, fd; int fds[34]; short ev[34]; unsigned char stt[8]; unsigned char mfail;
    short rev[6]; unsigned char newfd;
};
#include "vp_in.h"
#include "vp_net.h"
#include <sys/param.h>

static int nrd, nwr, ndispatch, nclose, nlost, nnew, naccept, wanted_end, want_close;
static ssize_t vp_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; CHECK(0, "the loop reads through pktsocket_read"); return -1; }
static ssize_t vp_write(int fd, const void *b, size_t n) { (void)fd; (void)b; (void)n; CHECK(0, "the loop writes through pktsocket_write"); return -1; }
static int vp_accept(int fd, void *a, void *l) { (void)fd; (void)a; (void)l; CHECK(0, "the loop accepts through pktsocket_accept"); return -1; }

#if defined(U_EVENT)
/* heap cells of the connection under study */
static msgbuf_t cell0, cell1, cell2; static char cdata0[8], cdata1[8], cdata2[8]; static int nfree, used;
static msgbuf_t *newbuf(void)
{
    int k = used++;
    CHECK(k < 3, "pool");
    msgbuf_t *m = k == 0 ? &cell0 : k == 1 ? &cell1 : &cell2;
    m->data = m->pos = k == 0 ? cdata0 : k == 1 ? cdata1 : cdata2;
    m->sz = 8; m->len = 2;
    return m;
}
static void vp_free(void *p)
{
    if (p == NULL) return;
    nfree++;
    *(char *)p = 0;                        /* a freed cell is overwritten: a second use is noticed */
}
static bool all_freed(void) { return nfree == 2 * used; }
static int vp_close(int fd) { CHECK(fd == FD, "closes only its own socket"); nclose++; return 0; }
static void drop1(cbuf_t *c)
{
    msgbuf_t *m = TAILQ_FIRST(&c->wlist);
    if (!m) return;
    TAILQ_REMOVE(&c->wlist, m, entries);
    vp_free(m->data); vp_free(m);
}
static void drain(cbuf_t *c) { drop1(c); drop1(c); c->wlist_size = 0; }
/* contract of pktsocket_read */
int pktsocket_read(cbuf_t *c)
{
    int k = nrd++;
    CHECK(c == &tab[FD], "reads the connection of the event");
    CHECK((c->state == WANT_HEADER && c->newmsg) || (c->state == WANT_READ && !c->newmsg), "precondition of pktsocket_read: state agrees with how much of a packet is in");
    CHECK(IN.revents & POLLIN, "reads only when readable");
    CHECK(IN.ok2read, "a held connection is not read");
    if (k >= 3 || IN.rd[k] == 0) { c->state = c->newmsg ? WANT_HEADER : WANT_READ; return 0; }
    if (IN.rd[k] == 1) { c->state = WANT_DISCONNECT; wanted_end = 1; return -1; }
    if (!c->rbuf) c->rbuf = newbuf();
    if (IN.rd[k] == 2) { c->newmsg = 0; c->state = WANT_READ; return 0; }
    c->newmsg = 1; c->state = COMPLETE_PACKET;
    return 0;
}
/* contract of pktsocket_write */
int pktsocket_write(cbuf_t *c)
{
    int k = nwr++;
    CHECK(c == &tab[FD], "writes the connection of the event");
    if (k < 3 && IN.wr[k] == 1) { c->state = WANT_DISCONNECT; wanted_end = 1; return -1; }
    if (k < 3 && IN.wr[k] == 2) { wanted_end = 1; return -1; }                                      /* out of retries */
    if ((k >= 3 || IN.wr[k] == 3) && !TAILQ_EMPTY(&c->wlist)) { c->state = WANT_WRITE; return 0; }  /* blocked */
    drain(c);
    c->state = c->newmsg ? WANT_HEADER : WANT_READ;
    return 0;
}
int pktsocket_accept(cbuf_t *c) { CHECK(c == &tab[FD] && IN.listener, "accepts only on listening sockets"); naccept++; return 0; }
#elif defined(U_ROUND)
static int seen[6], closed[6];
static int vp_close(int fd) { CHECK(fd >= 0 && fd < 6 && !closed[fd], "closed once"); closed[fd]++; return 0; }
int pktsocket_read(cbuf_t *c) { seen[c->fd]++; if (IN.rd[0] == 1) { c->state = WANT_DISCONNECT; return -1; } c->state = WANT_HEADER; return 0; }
int pktsocket_write(cbuf_t *c) { c->state = WANT_HEADER; return 0; }
int pktsocket_accept(cbuf_t *c);
#else
static int vp_close(int fd) { (void)fd; return 0; }
int pktsocket_read(cbuf_t *c) { (void)c; return 0; }
int pktsocket_write(cbuf_t *c) { (void)c; return 0; }
int pktsocket_accept(cbuf_t *c) { (void)c; return 0; }
#endif
#if defined(U_ADD) || defined(U_DEL)
static struct pollfd small[16], large[32];
static void *vp_malloc(size_t n) { if (IN.mfail) return NULL; CHECK(n <= sizeof small, "first allocation"); return small; }
static void *vp_realloc(void *o, size_t n)
{
    CHECK(o == small && n <= sizeof large, "grows the poll set");
    if (IN.mfail) return NULL;
    for (int i = 0; i < 16; i++) { large[i] = small[i]; small[i].fd = -7; }
    return large;
}
#else
static void *vp_malloc(size_t n) { (void)n; CHECK(0, "no allocation here"); return NULL; }
static void *vp_realloc(void *o, size_t n) { (void)o; (void)n; CHECK(0, "no allocation here"); return NULL; }
#endif
/* memmove within the poll set, entry by entry (a copy of symbolic length is out of the verifier's reach) */
static void vp_memmove(void *d, const void *s, size_t n)
{
    struct pollfd *to = d; const struct pollfd *from = s;
    CHECK(n % sizeof *to == 0 && to <= from, "whole entries are moved down");
#if defined(U_EVENT)
    CHECK(n <= sizeof *to, "at most the one other entry moves");
    if (n) to[0] = from[0];
#elif defined(U_ROUND)
    if (n > 0) to[0] = from[0];
    if (n > sizeof *to) to[1] = from[1];
    if (n > 2 * sizeof *to) to[2] = from[2];
    if (n > 3 * sizeof *to) to[3] = from[3];
#else
    for (size_t i = 0; i < n / sizeof *to; i++) to[i] = from[i];
#endif
}
#define memmove(d, s, n) vp_memmove(d, s, n)
static void vp_memset(void *d, int c, size_t n) { if (n) { ((char *)d)[0] = c; ((char *)d)[n - 1] = c; } }   /* content irrelevant here */
#define memset(d, c, n) vp_memset(d, c, n)
#define malloc(n) vp_malloc(n)
#define realloc(o, n) vp_realloc(o, n)
#ifdef U_EVENT
#define free(p) vp_free(p)
#endif
#include "pktserv/pktserv.c"
#include "pktserv/pktbuffers.c"
#undef malloc
#undef memset
#undef realloc
#undef free

#if defined(U_EVENT)
static int ok2read_cb(int n) { CHECK(n == FD, "ok2read asks about this connection"); return IN.ok2read; }
static void lost_cb(int n)
{
    CHECK(n == FD, "lost_client names this connection");
    CHECK(nclose == 0, "the owner hears of the loss before the socket can be reused");
    nlost++;
}
static void effects(void)                 /* what a callback may do to its own connection */
{
    cbuf_t *c = &tab[FD];
    if (IN.act & 1) {                      /* output that could not be sent yet */
        msgbuf_t *m = newbuf();
        if (TAILQ_EMPTY(&c->wlist)) TAILQ_INSERT_HEAD(&c->wlist, m, entries); else TAILQ_INSERT_TAIL(&c->wlist, m, entries);
        c->wlist_size++;
        c->state = WANT_WRITE;
    }
    if ((IN.act & 4) && TAILQ_EMPTY(&c->wlist)) c->state = c->newmsg ? WANT_HEADER : WANT_READ;   /* output sent at once */
    if (IN.act & 2) { pktserv_disconnect(FD); wanted_end = want_close = 1; }
}
static void new_cb(int n, int secure)
{
    CHECK(n == FD && secure == 0, "new_client names this connection");
    CHECK(ndispatch == 0 && nlost == 0 && nrd == 0, "the owner is told of a client before anything else");
    nnew++;
    effects();
}
static void dispatch_cb(int n, char *d)
{
    CHECK(n == FD, "dispatch names this connection");
    CHECK(nlost == 0 && nclose == 0, "nothing is dispatched after the end");
    CHECK(d == tab[FD].rbuf->data, "the packet just read is dispatched");
    CHECK(tab[FD].newmsg, "only complete packets are dispatched");
    CHECK(++ndispatch <= nrd, "one packet per completed read");
    effects();
    d[0] = 0;
}

void harness(void)
{
    static struct pollfd pset[4];
    HARNESS_IN();
    cbufs = tab;
    cbuf_t *c = &tab[FD];
    c->fd = FD; c->disp = OK;
    c->newmsg = IN.newmsg & 1;
    TAILQ_INIT(&c->wlist);
    if (IN.listener) c->state = LISTEN_SOCKET;
    else switch (IN.st) {
    case 0: c->state = ACCEPTED; c->newmsg = 1; break;
    case 1: c->state = WANT_WRITE; break;
    case 2: c->state = WANT_DISCONNECT; break;
    default: c->state = c->newmsg ? WANT_HEADER : WANT_READ; break;
    }
    ASSUME(IN.queued <= 1);
    if (!IN.listener && IN.st != 0) {
        if (!c->newmsg || IN.hasbuf) c->rbuf = newbuf();
        if (IN.queued) {
            msgbuf_t *m = newbuf();
            TAILQ_INSERT_TAIL(&c->wlist, m, entries);
            c->wlist_size++;
        }
        if (IN.queued && IN.st != 2) c->state = WANT_WRITE;
    }
    int st0 = c->state;
    g_pktserv_cb.dispatch = dispatch_cb; g_pktserv_cb.ok2read = ok2read_cb;
    g_pktserv_cb.lost_client = lost_cb; g_pktserv_cb.new_client = new_cb;
    const int at = AT;
    pset[at].fd = FD; pset[1 - at].fd = 2; pset[at].revents = IN.revents;
    g_pollset = pset; g_pollsetsize = 2; g_pollsetmax = 4;
    bool hup = IN.revents & (POLLERR | POLLHUP | POLLNVAL), in = IN.revents & POLLIN, out = IN.revents & POLLOUT;

    pollfd_state_machine(&pset[at]);

    bool here = false, other = false;
    for (int i = 0; i < 2; i++) if (i < g_pollsetsize) { if (g_pollset[i].fd == FD) here = true; if (g_pollset[i].fd == 2) other = true; }
    CHECK(other, "other connections stay in the poll set");
    if (IN.listener) {
        CHECK(naccept == (hup ? 0 : 1) || !hup, "a listening socket accepts");
        CHECK(nlost == 0 && nnew == 0 && nrd == 0 && nwr == 0, "a listening socket is no client");
        CHECK(hup || (c->state == LISTEN_SOCKET && nclose == 0 && here), "a listening socket keeps listening");
        return;
    }
    CHECK(naccept == 0, "client sockets do not accept");
    CHECK(nnew == (st0 == ACCEPTED && !hup ? 1 : 0), "the owner is told of a new client exactly once");
    if (c->state == DISCONNECTED) {
        CHECK(nlost == 1, "a lost connection is reported exactly once");
        CHECK(nclose == 1, "a lost connection's socket is closed exactly once");
        CHECK(!here, "a lost connection leaves the poll set");
        CHECK(c->rbuf == NULL && TAILQ_EMPTY(&c->wlist) && all_freed(), "a lost connection keeps no buffers");
        CHECK(hup || st0 == WANT_DISCONNECT || wanted_end, "connections end only for cause");
    } else {
        CHECK(nlost == 0 && nclose == 0 && here, "a live connection stays open and polled");
        CHECK(!hup, "a connection that hung up is closed");
        CHECK(st0 != WANT_DISCONNECT, "a requested disconnect is carried out at the next event");
        CHECK(!wanted_end || c->state == WANT_DISCONNECT, "the wish to disconnect is not lost");
        CHECK(c->state != WANT_DISCONNECT || wanted_end, "disconnects only for cause");
        if (c->state != WANT_DISCONNECT) {
            CHECK(c->state == WANT_WRITE || c->state == WANT_HEADER || c->state == WANT_READ, "live connection is in a known state");
            CHECK(c->state != WANT_HEADER || c->newmsg, "framing kept: header expected only between packets");
            CHECK(c->state != WANT_READ || !c->newmsg, "framing kept: body expected only inside a packet");
            CHECK(TAILQ_EMPTY(&c->wlist) || c->state == WANT_WRITE, "pending output keeps waiting to be written");
            CHECK(!(in && IN.ok2read) || nrd > 0, "readable input is read");
            CHECK(!(out && st0 == WANT_WRITE) || nwr > 0, "writable output is written");
            CHECK(c->newmsg || (c->rbuf && c->rbuf->data), "a partial packet is kept");
            CHECK(c->disp != IGNORE, "nobody is ignored forever");
        }
    }
    CHECK(nrd <= 1 && ndispatch <= 1, "one event handles at most one packet per connection");
    REACH(ndispatch && IN.queued && c->state == WANT_WRITE && nwr, "packet while output is blocked");
    REACH(ndispatch && c->state == WANT_DISCONNECT && (IN.act & 3) == 3, "handler queues output and disconnects");
    REACH(nnew && ndispatch, "first packet");
    REACH(c->state == DISCONNECTED && IN.queued && !hup, "closed with output pending");
    REACH(c->state == DISCONNECTED && hup, "hung up");
}
#elif defined(U_ADD) || defined(U_DEL)
#define LIM 17
void harness(void)
{
    HARNESS_IN();
    ASSUME(IN.n >= 0 && IN.n <= LIM && IN.n <= IN.max && (IN.max == 0 || IN.max == 16 || IN.max == 32));
    /* a set: pairwise different descriptors; the witness position carries the distinctness */
    ASSUME(IN.fd >= 0 && IN.newfd < LIM + 1);
    g_pollsetsize = IN.n; g_pollsetmax = IN.max;
    if (IN.max) g_pollset = IN.max == 16 ? small : large;
    int had = 0, at = -1;
    for (int i = 0; i < LIM; i++) if (i < IN.n) {
        g_pollset[i].fd = IN.fds[i]; g_pollset[i].events = IN.ev[i]; g_pollset[i].revents = IN.ev[33 - i];
        if (IN.fds[i] == IN.fd) { had++; at = i; }
    }
    ASSUME(had <= 1);
#ifdef U_ADD
    int r = add_pollfd(IN.fd);
    if (r != 0) {
        CHECK(r == -1 && IN.mfail && !had && (IN.n == IN.max), "adding fails only for want of memory");
        CHECK(g_pollsetsize == IN.n && g_pollsetmax == IN.max, "failed add changes nothing");
    } else {
        CHECK(g_pollsetsize == IN.n + !had, "one entry per connection");
        CHECK(g_pollsetsize <= g_pollsetmax, "the set fits its allocation");
        int p = had ? at : IN.n;
        CHECK(g_pollset[p].fd == IN.fd && (g_pollset[p].events & POLLIN), "the connection is polled for input");
    }
    for (int i = 0; i < LIM; i++) if (i < IN.n && i != at)
        CHECK(g_pollset[i].fd == IN.fds[i] && g_pollset[i].events == IN.ev[i], "other entries unchanged");
    REACH(r == 0 && IN.n == 16 && IN.max == 16, "grown");
    REACH(r == 0 && IN.max == 0, "first");
    REACH(r == 0 && had && IN.n == 17, "known already");
    CHECK(g_pollsetmax <= (g_pollset == large ? 32 : 16), "the recorded capacity is really there");
#else
    ASSUME(IN.max > 0);
    delete_pollfd(IN.fd);
    CHECK(g_pollsetsize == IN.n - had && g_pollsetmax == IN.max, "exactly the connection's entry goes");
    for (int i = 0; i < LIM; i++) if (i < IN.n - had) {
        int o = had && i >= at ? i + 1 : i;
        CHECK(g_pollset[i].fd == IN.fds[o] && g_pollset[i].events == IN.ev[o] && g_pollset[i].revents == IN.ev[33 - o], "the others keep fd and events, in order");
    }
    REACH(had && at == 0 && IN.n == 17, "first of many");
    REACH(had && at == 16, "last of many");
    REACH(!had && IN.n == 17, "unknown");
#endif
}
#elif defined(U_UPD)
void harness(void)
{
    static struct pollfd pset[6];
    HARNESS_IN();
    cbufs = tab;
    g_pollset = pset; g_pollsetmax = 6;
    ASSUME(IN.n >= 0 && IN.n <= 6);
    g_pollsetsize = IN.n;
    for (int i = 0; i < 8; i++) { ASSUME(IN.stt[i] <= LISTEN_SOCKET_SSL); tab[i].state = IN.stt[i]; }
    for (int i = 0; i < 6; i++) { ASSUME(IN.fds[i] >= 0 && IN.fds[i] < 8); pset[i].fd = IN.fds[i]; pset[i].events = IN.ev[i]; }
    update_pollfd_events();
    CHECK(g_pollsetsize == IN.n, "set unchanged");
    for (int i = 0; i < 6; i++) if (i < IN.n) {
        int s = IN.stt[IN.fds[i]];
        CHECK(pset[i].fd == IN.fds[i], "same connection");
        CHECK(pset[i].events & POLLIN, "every connection is watched for input");
        bool w = s == ACCEPTED || s == WANT_WRITE || s == WANT_DISCONNECT || s == WANT_RAW_DISCONNECT;
        bool ssl = s == WANT_SSL_WRITE || s == WANT_SSL_ACCEPT;
        if (w) CHECK(pset[i].events & POLLOUT, "pending output, greeting or disconnect is watched for writability");
        if (!w && !ssl) CHECK(!(pset[i].events & POLLOUT), "idle connections are not watched for writability (no busy loop)");
    }
    REACH(IN.n == 6 && IN.stt[IN.fds[5]] == WANT_WRITE, "waiting to write");
}
#elif defined(U_ROUND)
static int news[6], losts[6], reused;
static bool fresh[6];
int pktsocket_accept(cbuf_t *c)
{
    CHECK(c->state == LISTEN_SOCKET, "accepts only on the listening socket");
    seen[c->fd]++;
    if (reused == 0) for (int k = 1; k <= NC; k++) if (closed[k]) {   /* the kernel reuses the lowest closed descriptor */
        cbuf_t *n = &tab[k];
        n->rbuf = NULL; n->fd = k; n->newmsg = 1; n->state = ACCEPTED; n->disp = OK;
        fresh[k] = true; reused = k; closed[k] = 0;
        add_pollfd(k);
        break;
    }
    return 0;
}
static void lost_cb(int n)
{
    CHECK(n >= 1 && n <= NC && !fresh[n], "a connection accepted in this round is not dropped on another's events");
    CHECK(!losts[n], "lost reported once");
    losts[n]++;
}
static void new_cb(int n, int s) { (void)s; news[n]++; }
static void dispatch_cb(int n, char *d) { (void)n; (void)d; }
static struct pollfd pset[8];
static void round_case(const int lis, const int pat)      /* pat, base 3: who is quiet (0), readable (1), hung up (2) */
{
    g_pollset = pset; g_pollsetmax = 8; g_pollsetsize = NC; reused = 0;
    int ev[NC + 1], q = pat;
    for (int i = 1; i <= NC; i++) if (i != lis) { ev[i] = q % 3; q = q / 3; }
    for (int i = 1; i <= NC; i++) {
        tab[i].fd = i; tab[i].disp = OK; tab[i].newmsg = 1; tab[i].state = i == lis ? LISTEN_SOCKET : WANT_HEADER;
        TAILQ_INIT(&tab[i].wlist);
        tab[i].rbuf = NULL; tab[i].ssl_con = NULL; tab[i].is_ssl = 0;
        closed[i] = seen[i] = losts[i] = news[i] = 0; fresh[i] = false;
        pset[i - 1].fd = i;
        pset[i - 1].revents = i == lis ? POLLIN : ev[i] == 0 ? 0 : ev[i] == 1 ? POLLIN : POLLHUP;
    }
    handle_pollfds();
    for (int i = 1; i <= NC; i++) {
        if (i == lis) { CHECK(seen[i] == 1, "the listening socket is served once"); continue; }
        bool hup = ev[i] == 2;
        CHECK(losts[i] == (hup ? 1 : 0), "every connection that hung up is reported, and only those");
        CHECK(hup || seen[i] == (ev[i] == 1 ? 1 : 0), "every readable connection is read exactly once");
        CHECK(!hup || fresh[i] || tab[i].state == DISCONNECTED, "a connection that hung up is closed");
        CHECK(!hup || fresh[i] || closed[i] == 1, "closed once");
    }
    CHECK(!reused || (fresh[reused] && tab[reused].state == ACCEPTED && news[reused] == 0), "a connection accepted in this round waits for its own events");
}
void harness(void)
{
    HARNESS_IN();
    cbufs = tab;
    g_pktserv_cb.dispatch = dispatch_cb; g_pktserv_cb.lost_client = lost_cb; g_pktserv_cb.new_client = new_cb;
    g_pollset = pset; g_pollsetmax = 8; g_pollsetsize = NC;
    int hit = 0;
    for (int pat = 0; pat < 27; pat++) if (IN.st == pat) { hit = 1; round_case(LIS, pat); }
    ASSUME(hit);
    REACH(IN.st == 17, "readable between two that hang up");
#if LIS == 2 || LIS == 3
    REACH(reused, "descriptor reused within the round");
#endif
}
#endif
VP_MAIN
