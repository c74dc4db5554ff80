/*
 * Stand-in for the part of OpenSSL (and of the sockets below it) tls.c uses.
 * SSL and BIO objects are plain heap blocks, so that any use after or double
 * release and any leak shows.  The outcome of each I/O call comes from the
 * harness, through hs_io().
 */
#ifndef H_SSL_H
#define H_SSL_H
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/bio.h>

struct bio_st { int fd; BIO *accepted; };
struct ssl_st { SSL_CTX *ctx; BIO *bio; void *app; int shut; SSL_psk_client_cb_func psk; };
struct ssl_ctx_st { SSL_psk_server_cb_func psk; };

enum { HS_ACCEPT = 1, HS_CONNECT, HS_READ, HS_WRITE, HS_SHUTDOWN };
static struct {
	int err;                /* what SSL_get_error() says about the last call */
	unsigned long queue;    /* what ERR_get_error() says */
	int wants;              /* I/O direction the last call waits for */
	int want_op;            /* and which call it was */
	int live_ssl, live_bio, closed;
	SSL *ssl;               /* the most recent connection */
	bool listening;
} HS;

/* Provided by the harness: the outcome of an I/O call.  A positive value is
 * success (the number of bytes); otherwise hs_fail() has set the details. */
static int hs_io(int op, SSL *s, void *buf, int n);
#ifndef HS_FD           /* descriptors of accepted connections */
# define HS_FD 7
# define HS_FDS 1
#endif
static int hs_accepted;
#ifndef HS_CFD          /* and of outgoing connections */
# define HS_CFD 7
#endif

static int hs_fail(int code, int err, unsigned long queue, int e)
{
	HS.err = err;
	HS.queue = queue;
	if (err == SSL_ERROR_SYSCALL)
		errno = e;
	return code;
}
#define HS_NFAIL 11
/* The ways an I/O call can fail to complete. */
static int hs_failure(int which)
{
	switch (which) {
	case 0: return hs_fail(-1, SSL_ERROR_WANT_READ, 0, 0);
	case 1: return hs_fail(-1, SSL_ERROR_WANT_WRITE, 0, 0);
	case 2: return hs_fail(-1, SSL_ERROR_SYSCALL, 0, EINTR);
	case 3: return hs_fail(0, SSL_ERROR_ZERO_RETURN, 0, 0);
	case 4: return hs_fail(-1, SSL_ERROR_SYSCALL, 0, ECONNRESET);
	case 5: return hs_fail(0, SSL_ERROR_SYSCALL, 0, 0);
	case 6: return hs_fail(-1, SSL_ERROR_SSL, 77, 0);
	case 7: return hs_fail(-1, SSL_ERROR_SYSCALL, 0, 0);
	case 8: return hs_fail(-1, SSL_ERROR_SYSCALL, 77, 0);
	case 9: return hs_fail(-1, SSL_ERROR_SSL, 0, 0);
	default: return hs_fail(-1, SSL_ERROR_WANT_X509_LOOKUP, 0, 0);
	}
}
static int hs_call(int op, SSL *s, void *buf, int n)
{
	int r;

	vp_check(s != NULL && s->bio != NULL, "I/O happens on a complete connection");
	HS.err = SSL_ERROR_NONE;
	HS.wants = 0;
	r = hs_io(op, s, buf, n);
	if (r <= 0 && HS.err == SSL_ERROR_WANT_READ)
		HS.wants = EV_READ;
	if (r <= 0 && HS.err == SSL_ERROR_WANT_WRITE)
		HS.wants = EV_WRITE;
	HS.want_op = op;
	return r;
}
int STUB(SSL_accept)(SSL *s) { return hs_call(HS_ACCEPT, s, NULL, 0); }
int STUB(SSL_connect)(SSL *s) { if (s->bio->fd == -1) s->bio->fd = HS_CFD; return hs_call(HS_CONNECT, s, NULL, 0); }
int STUB(SSL_shutdown)(SSL *s) { s->shut = 1; return hs_call(HS_SHUTDOWN, s, NULL, 0); }
int STUB(SSL_read)(SSL *s, void *buf, int n)
{
	vp_check(n > 0, "reads ask for at least one byte");
	((volatile unsigned char *)buf)[n - 1] = 0xEE; /* The whole buffer must be there. */
	return hs_call(HS_READ, s, buf, n);
}
int STUB(SSL_write)(SSL *s, const void *buf, int n)
{
	vp_check(n > 0, "writes hand over at least one byte");
	vp_check(!s->shut, "nothing is written after the shutdown began");
	return hs_call(HS_WRITE, s, (void *)buf, n);
}
int STUB(SSL_get_error)(const SSL *s, int code)
{
	(void)code;
	vp_check(s->bio != NULL, "the connection still exists");
	return HS.err;
}
unsigned long STUB(ERR_peek_error)(void) { return HS.queue; }
unsigned long STUB(ERR_get_error)(void) { unsigned long e = HS.queue; HS.queue = 0; return e; }
const char *STUB(ERR_reason_error_string)(unsigned long e) { (void)e; return "some reason"; }
void STUB(ERR_clear_error)(void) { HS.queue = 0; }
/* (A constant pointer that must not be dereferenced.) */
const SSL_METHOD *STUB(TLS_server_method)(void) { return (const SSL_METHOD *)&HS; }
const SSL_METHOD *STUB(TLS_client_method)(void) { return (const SSL_METHOD *)&HS; }
const SSL_METHOD *STUB(TLS_method)(void) { return (const SSL_METHOD *)&HS; }
SSL_CTX *STUB(SSL_CTX_new)(const SSL_METHOD *m) { (void)m; return calloc(1, sizeof(struct ssl_ctx_st)); }
int STUB(SSL_CTX_set_cipher_list)(SSL_CTX *c, const char *l) { (void)c; (void)l; return 1; }
uint64_t STUB(SSL_CTX_set_options)(SSL_CTX *c, uint64_t o) { (void)c; return o; }
long STUB(SSL_CTX_ctrl)(SSL_CTX *c, int cmd, long l, void *p) { (void)c; (void)cmd; (void)p; return l; }
void STUB(SSL_CTX_set_psk_server_callback)(SSL_CTX *c, SSL_psk_server_cb_func f) { c->psk = f; }
void STUB(SSL_CTX_free)(SSL_CTX *c) { free(c); }
void STUB(SSL_set_psk_client_callback)(SSL *s, SSL_psk_client_cb_func f) { s->psk = f; }
static BIO *hs_bio(int fd)
{
	BIO *b = calloc(1, sizeof(*b));

	b->fd = fd;
	HS.live_bio++;
	return b;
}
BIO *STUB(BIO_new_accept)(const char *s) { (void)s; return hs_bio(3); }
BIO *STUB(BIO_new_connect)(const char *s) { (void)s; return hs_bio(-1); }
const BIO_METHOD *STUB(BIO_s_accept)(void) { return (const BIO_METHOD *)&HS; }
BIO *STUB(BIO_new)(const BIO_METHOD *m) { (void)m; return hs_bio(-1); }
int STUB(BIO_free)(BIO *b)
{
	if (b == NULL)
		return 0;
	if (b->accepted != NULL)
		STUB(BIO_free)(b->accepted);
	HS.live_bio--;
	HS.closed++;
	free(b);
	return 1;
}
void STUB(BIO_free_all)(BIO *b) { STUB(BIO_free)(b); }
static int hs_accept(void);     /* provided by the harness: 1, or 0 for an error, -1 for nothing to accept */
static int hs_retry;
long STUB(BIO_ctrl)(BIO *b, int cmd, long l, void *p)
{
	(void)l;
	switch (cmd) {
	case BIO_C_DO_STATE_MACHINE:
		if (!HS.listening) {
			HS.listening = true;
			return 1;
		}
		vp_check(b->accepted == NULL, "accepted connections are taken before the next one");
		hs_retry = 0;
		switch (hs_accept()) {
		case 1:
			b->accepted = hs_bio(HS_FD + hs_accepted++ % HS_FDS);
			return 1;
		case 0:
			HS.queue = 77;
			return -1;
		default:
			hs_retry = 1;
			return -1;
		}
	case BIO_C_GET_FD:
		return b->fd;
	case BIO_CTRL_INFO: { /* (a memory BIO) */
		static char mem[12] = "c2/+ZXhB";

		*(char **)p = mem;
		return 8;
	}
	default:
		return 1;
	}
}
long STUB(BIO_int_ctrl)(BIO *b, int cmd, long l, int i)
{
	(void)l;
	if (cmd == BIO_C_SET_FD) {
		b->fd = i;
		HS.listening = true;
	}
	return 1;
}
int STUB(BIO_test_flags)(const BIO *b, int f) { (void)b; return hs_retry ? f : 0; }
BIO *STUB(BIO_pop)(BIO *b)
{
	BIO *a = b->accepted;

	vp_check(a != NULL, "an accepted connection is taken");
	b->accepted = NULL;
	return a;
}
static bool hs_ssl_new_fails(void);
SSL *STUB(SSL_new)(SSL_CTX *c)
{
	SSL *s;

	if (hs_ssl_new_fails()) {
		HS.queue = 77;
		return NULL;
	}
	s = calloc(1, sizeof(*s));
	s->ctx = c;
	HS.ssl = s;
	HS.live_ssl++;
	return s;
}
void STUB(SSL_set_bio)(SSL *s, BIO *r, BIO *w) { vp_check(r == w && r != NULL, "one BIO for both directions"); s->bio = r; }
void STUB(SSL_free)(SSL *s)
{
	if (s == NULL)
		return;
	if (s->bio != NULL)
		STUB(BIO_free)(s->bio);
	HS.live_ssl--;
	if (HS.ssl == s)
		HS.ssl = NULL;
	free(s);
}
int STUB(SSL_set_ex_data)(SSL *s, int i, void *p) { vp_check(i == 0, "application data"); s->app = p; return 1; }
void *STUB(SSL_get_ex_data)(const SSL *s, int i) { vp_check(i == 0, "application data"); return s->app; }
static bool hs_peer_fails(void);
int STUB(getpeername)(int fd, struct sockaddr * restrict sa, socklen_t * restrict len)
{
	vp_check(fd >= HS_FD && fd < HS_FD + HS_FDS, "the accepted socket is examined");
	if (hs_peer_fails()) {
		errno = ENOTCONN;
		return -1;
	}
	memset(sa, 0, *len);
	sa->sa_family = AF_INET;
	return 0;
}
const char *STUB(inet_ntop)(int af, const void * restrict a, char * restrict d, socklen_t n)
{
	(void)af; (void)a;
	vp_check(n > 7, "space for the address");
	memcpy(d, "1.2.3.4", 8);
	return d;
}
void (*STUB(signal)(int n, void (*f)(int)))(int) { (void)n; (void)f; return SIG_DFL; }

/* After each step: the loop waits for what the TLS layer waits for. */
static void hs_check_wants(void *listener)
{
	int i, seen = 0;

	if (HS.ssl == NULL || HS.wants == 0)
		return;
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && HE.tab[i].w != listener && (((ev_io *)HE.tab[i].w)->events & HS.wants))
			seen = 1;
	vp_check(seen, "the event loop waits for the direction the TLS layer needs");
}
/* The active watchers of the connection (not the listening one). */
static int hs_watchers(void *listener, ev_io **out, int max)
{
	int i, n = 0;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && HE.tab[i].w != listener && n < max)
			out[n++] = HE.tab[i].w;
	return n;
}
#endif
