/* Inbound framing: pktserv/pktsocket.c, pktserv/pktserv.c, pktserv/pktbuffers.c
 * pktsocket_read, called in any state the read invariant allows with any outcome of the two reads: the
 * invariant holds again, or the connection is to be dropped for cause, or the packet is complete and is
 * exactly the frame on the wire.  By induction this covers every segmentation of the stream.
 * @unit name=pktsocket_read prop=C01 under=pktsocket_read,_msgbuf_alloc def=VP_USERS=4 unwind=6 mode=plain
 */
#include "vp.h"
#include "vp_log.h"
struct vp_in {
    unsigned char f0;           /* first byte of the current frame: the length it announces */
    unsigned char w, fw;        /* any position of the frame and the byte the client sent there */
    unsigned char have, norbuf;
    unsigned char rdkind[4]; int rdn[4];
    unsigned char mfail, b[4], old[256];
};
#include "vp_in.h"
#include "vp_net.h"

static int nread, consumed, dead_cause;

static ssize_t vp_read(int fd, void *buf, size_t n)
{
    int k = nread++;
    CHECK(fd == FD, "reads only from the connection's own socket");
    CHECK(k < 4, "bounded number of reads per event");
    if (k >= 4) { errno = EWOULDBLOCK; return -1; }
    if (n == 0) { dead_cause = 1; return 0; }          /* only after a frame that announces no bytes */
    if (IN.rdkind[k] == 1) { errno = EWOULDBLOCK; return -1; }
    if (IN.rdkind[k] == 2) { errno = ECONNRESET; dead_cause = 1; return -1; }
    if (IN.rdkind[k] == 3) { dead_cause = 1; return 0; }
    ASSUME(IN.rdn[k] >= 1 && IN.rdn[k] <= 300);
    int c = (size_t)IN.rdn[k] < n ? IN.rdn[k] : (int)n;
    /* the bytes besides those of interest: first four and last; the rest keep the arbitrary old content */
    for (int i = 0; i < 4; i++) if (i < c) ((unsigned char *)buf)[i] = IN.b[i];
    ((unsigned char *)buf)[c - 1] = IN.b[3];
    if (consumed == 0) *(unsigned char *)buf = IN.f0;
    if (consumed <= IN.w && IN.w < consumed + c) ((unsigned char *)buf)[IN.w - consumed] = IN.fw;
    consumed += c;
    if (IN.f0 >= MAX_PKT_LEN - 1) dead_cause = 1;
    return c;
}
static ssize_t vp_write(int fd, const void *buf, size_t n) { (void)fd; (void)buf; (void)n; CHECK(0, "a read does not write"); return -1; }
static int vp_close(int fd) { (void)fd; CHECK(0, "a read does not close"); return 0; }
static int vp_accept(int fd, void *a, void *l) { (void)fd; (void)a; (void)l; CHECK(0, "a read does not accept"); return -1; }
static msgbuf_t mhead; static char mdata[MAX_PKT_LEN]; static int mused[2];
static void *vp_malloc(size_t n)
{
    if (IN.mfail) { dead_cause = 1; return NULL; }
    if (n == sizeof(msgbuf_t)) { CHECK(!mused[0]++, "one buffer head per connection"); return &mhead; }
    CHECK(n == MAX_PKT_LEN && !mused[1]++, "one packet buffer per connection");
    return mdata;
}

/* ---- invariant of a connection's read side ---- */
static bool same(const unsigned char *d, int n) { return (n < 1 || d[0] == IN.f0) && (IN.w >= n || d[IN.w] == IN.fw); }
static bool inv_read(void)
{
    cbuf_t *c = &tab[FD];
    if (c->state == WANT_HEADER && !c->newmsg) return false;
    if (c->state == WANT_READ && c->newmsg) return false;
    if (c->newmsg) return consumed == 0;
    if (!c->rbuf || !c->rbuf->data) return false;
    return consumed >= 1 && consumed <= IN.f0 && IN.f0 >= 1 && IN.f0 < MAX_PKT_LEN - 1
        && c->rbuf->sz == MAX_PKT_LEN && c->rbuf->len == (size_t)IN.f0 + 1
        && c->rbuf->pos == c->rbuf->data + consumed
        && same((unsigned char *)c->rbuf->data, consumed);
}
static bool frame_ok(const unsigned char *d)      /* the complete frame and nothing else, NUL terminated */
{
    return consumed == IN.f0 + 1 && IN.f0 >= 1 && IN.f0 < MAX_PKT_LEN - 1 && same(d, consumed) && d[consumed] == 0;
}
static cbuf_t *C;
static bool pre_read(cbuf_t *c)
{ return c == C && c == &tab[FD] && (c->state == WANT_HEADER || c->state == WANT_READ) && inv_read(); }
static bool post_read(int r)
{
    if (r != 0 && r != -1) return false;
    if (r == -1) return C->state == WANT_DISCONNECT && dead_cause;
    if (C->state == COMPLETE_PACKET) return C->newmsg && C->rbuf && frame_ok((unsigned char *)C->rbuf->data);
    if (C->state == WANT_HEADER || C->state == WANT_READ) return inv_read();
    return false;
}
int pktsocket_read(cbuf_t *cbuf)
REQUIRES(pre_read(cbuf))
ASSIGNS(__CPROVER_object_whole(tab), mhead, __CPROVER_object_whole(mdata), __CPROVER_object_whole(mused), nread, consumed, dead_cause, vp_errno)
ENSURES(post_read(RV));

#define malloc(n) vp_malloc(n)
#include "pktserv/pktbuffers.c"
#include "pktserv/pktsocket.c"
#undef malloc
int add_pollfd(int fd) { (void)fd; return 0; }
cbuf_t *cbufs;

void harness(void)
{
    HARNESS_IN();
    cbufs = tab;
    C = &tab[FD];
    memcpy(mdata, IN.old, sizeof mdata);
    ASSUME(IN.w != 0 || IN.fw == IN.f0);
    /* any state the invariant allows */
    C->fd = FD; C->disp = OK;
    ASSUME(IN.have <= MAX_PKT_LEN - 2);
    consumed = IN.have;
    C->newmsg = IN.have == 0;
    C->state = C->newmsg ? WANT_HEADER : WANT_READ;
    if (!(C->newmsg && IN.norbuf)) {
        C->rbuf = &mhead;
        C->rbuf->data = mdata;
        mused[0] = mused[1] = 1;
        C->rbuf->sz = MAX_PKT_LEN;
        if (IN.have) {
            ASSUME(IN.f0 >= 1 && IN.f0 < MAX_PKT_LEN - 1 && IN.have <= IN.f0);
            C->rbuf->data[0] = IN.f0;
            if (IN.w < IN.have) C->rbuf->data[IN.w] = IN.fw;
            C->rbuf->len = IN.f0 + 1;
            C->rbuf->pos = C->rbuf->data + IN.have;
        }
    }
    PRE(pre_read(C));
    int r = pktsocket_read(C);
    POST(post_read(r));
    REACH(C->state == COMPLETE_PACKET && IN.f0 == MAX_PKT_LEN - 2 && IN.have == 2, "longest frame completed");
    REACH(C->state == COMPLETE_PACKET && IN.f0 == 1 && IN.have == 0, "shortest frame in one go");
    REACH(C->state == WANT_READ && consumed == 4 && IN.have == 2, "still incomplete");
    REACH(C->state == WANT_HEADER, "nothing there");
    REACH(r == -1 && IN.f0 >= MAX_PKT_LEN - 1, "oversized frame");
    REACH(r == -1 && IN.f0 == 0 && IN.have == 0, "empty frame");
}
VP_MAIN
