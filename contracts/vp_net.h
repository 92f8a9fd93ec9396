/* Shared stand-ins of the network units: the socket calls pktserv makes, driven by IN.
 * @assume read()/write()/close()/accept()/fcntl()/setsockopt() are replaced by stand-ins that may return every outcome POSIX allows (any short count, EWOULDBLOCK, another error, EOF)
 * @assume sslsocket_*() are not reached: the units cover clear-text connections (is_ssl is 0); the TLS transport is excluded
 */
#pragma once
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/file.h>
#include <netinet/in.h>
#include <netdb.h>
#include <signal.h>
#include <sys/time.h>
#include "icb_config.h"
#ifdef PKT                         /* a smaller packet buffer: the code is parametric in it */
#undef MAX_PKT_LEN
#define MAX_PKT_LEN PKT
#endif
#undef errno
#define errno vp_errno
static int vp_errno;
#include "pktserv_internal.h"
#include "pktbuffers.h"

#define FD 1                       /* the connection under study */
static cbuf_t tab[MAX_USERS];      /* the connection table */

int sslsocket_accept(cbuf_t *c) { (void)c; CHECK(0, "TLS code reached without TLS"); return -1; }
int sslsocket_read(cbuf_t *c, void *b, size_t n) { (void)c; (void)b; (void)n; CHECK(0, "TLS code reached without TLS"); return -1; }
int sslsocket_write(cbuf_t *c, void *b, size_t n) { (void)c; (void)b; (void)n; CHECK(0, "TLS code reached without TLS"); return -1; }

static ssize_t vp_read(int fd, void *buf, size_t n);
static ssize_t vp_write(int fd, const void *buf, size_t n);
static int vp_close(int fd);
static int vp_accept(int fd, void *a, void *l);
static int vp_fcntl(int fd, int cmd, int arg) { (void)fd; (void)cmd; (void)arg; return 0; }
static int vp_setsockopt(int fd, int l, int o, const void *v, unsigned n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
#define read(fd, b, n) vp_read(fd, b, n)
#define write(fd, b, n) vp_write(fd, b, n)
#define close(fd) vp_close(fd)
#define accept(fd, a, l) vp_accept(fd, a, l)
#define fcntl(fd, c, x) vp_fcntl(fd, c, x)
#define setsockopt(fd, l, o, v, n) vp_setsockopt(fd, l, o, v, n)
#define poll(a, b, c) (-1)
#define signal(a, b) ((void)0)
