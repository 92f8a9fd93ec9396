/* Outbound queue: pktserv/pktserv.c pktserv_send(), pktserv/pktsocket.c pktsocket_write(), pktsocket_accept()
 * A connection with K queued packets (the first partly sent), every length, every retry count, every outcome of every
 * write.  The ghost variable `sent` is the position in the stream "queued packets back to back"; every write() must
 * offer exactly the next bytes of that stream, and what is left in the queue must be exactly the rest of it.
 * @unit name=write_0 prop=C02 under=pktsocket_write def=VP_USERS=4,U_WRITE,K=0 unwind=13 mode=plain term=1
 * @unit name=write_1 prop=C02 under=pktsocket_write def=VP_USERS=4,U_WRITE,K=1 unwind=13 mode=plain term=1
 * @unit name=write_3 prop=C02 under=pktsocket_write def=VP_USERS=4,U_WRITE,K=3 unwind=13 mode=plain term=1
 * @unit name=write_10 prop=C02 under=pktsocket_write def=VP_USERS=4,U_WRITE,K=10 unwind=13 mode=plain term=1
 * @unit name=send_0 prop=C02 under=pktserv_send,pktsocket_write,_msgbuf_alloc def=VP_USERS=4,U_SEND,K=0 unwind=13 mode=plain term=1
 * @unit name=send_2 prop=C02 under=pktserv_send,pktsocket_write,_msgbuf_alloc def=VP_USERS=4,U_SEND,K=2 unwind=13 mode=plain term=1
 * @unit name=send_9 prop=C02 under=pktserv_send,pktsocket_write,_msgbuf_alloc def=VP_USERS=4,U_SEND,K=9 unwind=13 mode=plain term=1 weight=9
 * @unit name=send_10 prop=C02 under=pktserv_send,pktsocket_write def=VP_USERS=4,U_SEND,K=10 unwind=13 mode=plain term=1
 * @unit name=accept prop=C04 under=pktsocket_accept def=VP_USERS=4,U_ACCEPT,K=0 unwind=13 mode=plain term=1
 */
#include "vp.h"
#include "vp_log.h"
struct vp_in {
    unsigned short len[11], off; unsigned char w[11], v[11];       /* a witness byte in every packet */
    int retries; unsigned char st, newmsg, mfail, last;
    unsigned char wk[12]; int wn[12];
    int ns; unsigned char sslport, nsfail, dirty;
};
#include "vp_in.h"
#include "vp_net.h"
#include <sys/queue.h>

static msgbuf_t cells[11]; static char cdata[11][MAX_PKT_LEN];
static int ncell = K, cur, nw, freedc[11], freedd[11]; static size_t off; static bool werr, blocked, accepted_bad; static int whole;
static ssize_t vp_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; CHECK(0, "a send does not read"); return -1; }
static ssize_t vp_write(int fd, const void *b, size_t n)
{
    int k = nw++;
    CHECK(fd == FD, "writes only to the connection's own socket");
    CHECK(!blocked && !werr, "no further write after one that did not complete");
    CHECK(cur < ncell, "writes only what was queued");
    if (cur >= ncell || k >= 12) { errno = EIO; return -1; }
    CHECK((const char *)b == cdata[cur] + off, "the next bytes of the stream are offered, none repeated or skipped");
    CHECK(n == IN.len[cur] - off, "up to the end of the packet, not beyond");
    CHECK((unsigned char)cdata[cur][IN.w[cur]] == IN.v[cur], "the bytes are those that were queued");
    if (n == 0) { cur++; off = 0; return 0; }
    if (IN.wk[k] == 1) { errno = EWOULDBLOCK; blocked = true; return -1; }
    if (IN.wk[k] == 2) { errno = EPIPE; werr = true; return -1; }
    ASSUME(IN.wn[k] >= 0);
    size_t c = (size_t)IN.wn[k] < n ? (size_t)IN.wn[k] : n;
    if (c < n) { blocked = true; off += c; }
    else { cur++; off = 0; whole++; }
    return (ssize_t)c;
}
static void vp_free(void *p)
{
    bool known = p == NULL;
    for (int i = 0; i < 11; i++) {
        if (p == (void *)&cells[i]) { CHECK(i < cur && !freedc[i]++, "a packet is released once, after it was sent"); known = true; }
        if (p == (void *)cdata[i]) { CHECK(i < cur && !freedd[i]++, "a packet's data is released once, after it was sent"); known = true; }
    }
    CHECK(known, "only packets are released");
}
static int nmh, nmd;
static void *vp_malloc_head(void) { CHECK(!nmh++, "one packet queued"); return IN.mfail ? NULL : &cells[K]; }
static void *vp_malloc_data(size_t n) { CHECK(!nmd++ && n >= IN.len[10], "room for the packet"); return IN.mfail ? NULL : cdata[K]; }
static void vp_memcpy(void *d, const void *s, size_t n)
{
    if (IN.w[10] < n) ((char *)d)[IN.w[10]] = ((const char *)s)[IN.w[10]];
    if (n) { ((char *)d)[0] = ((const char *)s)[0]; ((char *)d)[n - 1] = ((const char *)s)[n - 1]; }
}
static int nclosed, closedfd = -1;
static int vp_close(int fd) {
#ifdef U_ACCEPT
    nclosed++; closedfd = fd; return 0;
#else
    (void)fd; CHECK(0, "a send does not close"); return 0;
#endif
}
static int vp_accept(int fd, void *a, void *l) {
    (void)a; (void)l;
#ifdef U_ACCEPT
    CHECK(fd == FD, "accepts on the listening socket");
    if (IN.nsfail == 1) { errno = EWOULDBLOCK; return -1; }
    if (IN.nsfail == 2) { errno = EMFILE; return -1; }
    return IN.ns;
#else
    (void)fd; CHECK(0, "a send does not accept"); return -1;
#endif
}
#define malloc(n) (__builtin_constant_p(n) ? vp_malloc_head() : vp_malloc_data(n))   /* sizeof(msgbuf_t) or the packet's length */
#define free(p) vp_free(p)
#define memcpy(d, s, n) vp_memcpy(d, s, n)
#include "pktserv/pktbuffers.c"
#include "pktserv/pktsocket.c"
#ifdef U_SEND
#include "pktserv/pktserv.c"
#else
cbuf_t *cbufs;
static int polled = -1, npolled;
int add_pollfd(int fd) { polled = fd; npolled++; return 0; }
#endif
#undef malloc
#undef free
#undef memcpy

#ifdef U_ACCEPT
void harness(void)
{
    HARNESS_IN();
    cbufs = tab;
    ASSUME(IN.nsfail <= 2 && IN.ns >= 0);
    for (int i = 0; i < MAX_USERS; i++) tab[i].fd = i;
    cbuf_t *c = &tab[FD];
    c->state = IN.sslport ? LISTEN_SOCKET_SSL : LISTEN_SOCKET; c->disp = OK;
    ASSUME(IN.ns != FD);                                       /* the listening descriptor is in use */
    int lst = c->state;
    /* whatever an earlier connection left in the slot */
    if (IN.ns < MAX_USERS) { cbuf_t *o = &tab[IN.ns]; o->newmsg = IN.newmsg; o->retries = IN.retries; o->is_ssl = IN.st & 1; o->wlist_size = IN.last; o->state = DISCONNECTED; o->disp = BLOCKED; }
    int r = pktsocket_accept(c);
    CHECK(c->state == lst && c->fd == FD, "the listening socket keeps listening");
    if (IN.nsfail) { CHECK(npolled == 0 && nclosed == 0, "nothing accepted, nothing changed"); }
    else if (IN.ns >= MAX_USERS) { CHECK(r == -1 && npolled == 0 && nclosed == 1 && closedfd == IN.ns, "a descriptor the tables cannot hold is closed"); }
    else {
        cbuf_t *n = &tab[IN.ns];
        CHECK(r == 0 && nclosed == 0 && npolled == 1 && polled == IN.ns, "the new connection is polled");
        CHECK(n->fd == IN.ns && n->newmsg == 1 && n->rbuf == NULL && TAILQ_EMPTY(&n->wlist) && n->wlist_size == 0 && n->retries == 0, "it starts with empty queues, expecting a header");
        CHECK(n->disp == OK && n->state == (IN.sslport ? WANT_SSL_ACCEPT : ACCEPTED) && !n->is_ssl == !IN.sslport, "it starts as new, clear or TLS as its port");
#ifdef HAVE_SSL
        CHECK(n->ssl_con == NULL, "no TLS session of an earlier connection");
#endif
    }
    REACH(!IN.nsfail && IN.ns < MAX_USERS && IN.ns > FD && IN.sslport, "TLS");
    REACH(IN.ns >= MAX_USERS && r == -1, "too many");
}
#else
static char pkt[MAX_PKT_LEN];
void harness(void)
{
    HARNESS_IN();
    cbufs = tab;
    cbuf_t *c = &tab[FD];
    c->fd = FD; c->disp = OK; c->newmsg = IN.newmsg & 1;
    TAILQ_INIT(&c->wlist);
    for (int i = 0; i < 11; i++) {
        ASSUME(IN.len[i] >= 1 && IN.len[i] <= MAX_PKT_LEN && IN.w[i] < IN.len[i]);
        if (i >= K) continue;
        cells[i].data = cells[i].pos = cdata[i]; cells[i].sz = cells[i].len = IN.len[i];
        cdata[i][IN.w[i]] = IN.v[i];
        TAILQ_INSERT_TAIL(&c->wlist, &cells[i], entries);
    }
    c->wlist_size = K;
    if (K) { ASSUME(IN.off < IN.len[0]); off = IN.off; cells[0].pos = cdata[0] + IN.off; }
    ASSUME(IN.retries >= 0 && IN.retries <= 11);
    c->retries = IN.retries;
    switch (IN.st) {
    case 0: c->state = COMPLETE_PACKET; break;
    case 1: c->state = c->newmsg ? WANT_HEADER : WANT_READ; break;
#ifdef U_SEND
    case 2: c->state = WANT_DISCONNECT; break;
    case 3: c->state = WANT_RAW_DISCONNECT; break;
#endif
    default: c->state = WANT_WRITE; break;
    }
    int st0 = c->state;
    bool gone = st0 == WANT_DISCONNECT || st0 == WANT_RAW_DISCONNECT;
    bool last = IN.retries > MAX_SENDPACKET_RETRIES;
    int total = K;
#ifdef U_SEND
    pkt[IN.w[10]] = IN.v[10];
#if K < 10
    /* the new packet takes cell K; its length and witness are those of slot 10 */
    IN.len[K] = IN.len[10]; IN.w[K] = IN.w[10]; IN.v[K] = IN.v[10];
#endif
    bool queued = K < 10 && !gone && !IN.mfail;
    ncell = total = queued ? K + 1 : K;
    int r = pktserv_send(FD, pkt, IN.len[10]);
    CHECK((unsigned char)pkt[IN.w[10]] == IN.v[10], "the caller's packet is not changed");
    if (!queued) {
        CHECK(r == -1, "a refused packet is reported");
        CHECK(nw == 0, "nothing of a refused packet is sent");
        CHECK(c->wlist_size == K && cur == 0, "the queue is as it was");
        CHECK(c->state == st0 || (!gone && c->state == WANT_WRITE), "refusing a packet changes nothing else");
    } else {
        CHECK((r == -1) == (werr || last), "sending fails only for cause");
        CHECK(r == 0 || (r == -1 && c->state == WANT_DISCONNECT), "a connection that cannot be written is dropped");
    }
#else
    int r = pktsocket_write(c);
    bool queued = true;
    CHECK((r == -1) == (werr || last), "writing fails only for cause");
    CHECK(!werr || c->state == WANT_DISCONNECT, "a connection that cannot be written is dropped");
#endif
    CHECK(!(queued && last) || nw == 0, "nothing is sent after too many retries");
    /* what is left is exactly the rest of the stream, in order */
    CHECK(c->wlist_size == total - cur, "pending packets are counted");
    CHECK(c->wlist_size <= MAX_SENDPACKET_QUEUE, "the queue is bounded");
    msgbuf_t *m = TAILQ_FIRST(&c->wlist);
    for (int i = 0; i < 11; i++) if (i >= cur && i < total) {
        CHECK(m == &cells[i], "unsent packets stay, in order");
        if (m != &cells[i]) return;
        CHECK(m->data == cdata[i] && m->len == IN.len[i] && m->sz >= m->len && m->pos == cdata[i] + (i == cur ? off : 0), "the unsent rest is remembered exactly");
        CHECK((unsigned char)cdata[i][IN.w[i]] == IN.v[i], "unsent data unchanged");
        CHECK(!freedc[i] && !freedd[i], "unsent packets are kept");
        m = TAILQ_NEXT(m, entries);
    }
    CHECK(m == NULL, "nothing else is queued");
    for (int i = 0; i < 11; i++) if (i < cur) CHECK(freedc[i] == 1 && freedd[i] == 1, "sent packets are released");
    if (queued && !werr && !last) {
        if (cur < total) CHECK(c->state == WANT_WRITE && c->retries == (whole ? 1 : IN.retries + 1), "an incomplete write waits to be retried and is counted");
        else CHECK(c->state == (c->newmsg ? WANT_HEADER : WANT_READ) && (c->retries == 0 || K == 0), "all sent: reading goes on where it was");
        CHECK(cur == total || blocked, "writing goes on as long as the socket takes it");
    }
    CHECK(c->newmsg == (IN.newmsg & 1) && c->rbuf == NULL, "the read side is untouched");
#if K == 0 && defined(U_WRITE)
    REACH(r == 0, "nothing to do");
#elif K < 10 || defined(U_WRITE)
    REACH(total > 0 && cur == total, "everything sent");
    REACH(total > 0 && cur == total - 1 && off > 0, "partly sent");
    REACH(werr, "error");
#else
    REACH(r == -1, "queue full");
#endif
    REACH(last, "too many retries");
}
#endif
VP_MAIN
