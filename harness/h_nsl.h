/*
 * Stand-ins for what the Perl and Python client libraries use: OpenSSL, the
 * clock, locks -- and an NSCA-ng server at the other end of the connection.
 */
#ifndef H_NSL_H
#define H_NSL_H
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/bio.h>
#include "vp.h"
#include "client.h"

#ifndef FAULTS
# define FAULTS 1               /* TLS calls that fail */
#endif
#ifndef WAITS
# define WAITS 1                /* TLS calls that have to be repeated */
#endif
#ifndef CUTS
# define CUTS 1                 /* responses arriving in pieces */
#endif
#ifndef ODD
# define ODD 1                  /* requests the server does not simply accept */
#endif
#define TIMEOUT 5

struct bio_st { int live; char host[16], port[8]; int hset, pset; };
struct ssl_st { SSL_CTX *ctx; BIO *bio; SSL_psk_client_cb_func psk; int connect, used, session; struct conn *conn; };
struct ssl_ctx_st { int live; };

/* One connection as the server sees it. */
struct conn {
	int open, moined, closed, quit, bailed, down;
	int stuck;              /* the socket doesn't take anything any more */
	char line[80];          /* the request line being received */
	int nline;
	long want;              /* bytes of announced data still expected */
	char data[1200];
	int ndata;
	char resp[2400];        /* responses not yet read by the client */
	int nresp, rpos;
	char late[64];          /* a response the server is slow to send */
	int nlate;
	const void *retry_buf;  /* a write that must be repeated */
	int retry_len;
};
static struct {
	int faults, waits, cuts, odd, failed;
	time_t now, start;
	int late_calls;         /* attempts since the time was up */
	int up;
	int live_ssl, live_bio, live_ctx;
	int last_retry;
	int locks;
	int announced, accepted;/* server: submissions */
	long last_push;
	int fd;
	long random;
} N;

/* Provided by the harness. */
static void n_submission(struct conn *c, const char *data, int n); /* data arrived */
static bool n_respond(struct conn *c, int what); /* its own responses, if it returns true */
enum { N_MOIN, N_PUSH, N_DATA };

static void n_say(struct conn *c, const char *s)
{
	int n = (int)strlen(s);

	vp_harness(c->nresp + n <= (int)sizeof(c->resp), "the responses fit");
	memcpy(c->resp + c->nresp, s, n);
	c->nresp += n;
}
/* The server's decision on a request; true if it is accepted. */
static bool n_decide(struct conn *c, int what, const char *ok)
{
	int r = 0;

	if (c->nlate > 0) {
		c->late[c->nlate] = '\0';
		n_say(c, c->late);
		c->nlate = 0;
	}
	if (n_respond(c, what))
		return false;
	if (N.odd > 0 && (r = (int)vp_concrete(vp_upto(5))) != 0)
		N.odd--;
	switch (r) {
	case 0:
		n_say(c, ok);
		return true;
	case 1:
		n_say(c, vp_bool() ? "FAIL no\r\n" : "FAIL\r\n");
		return false;
	case 2:
		n_say(c, vp_bool() ? "BAIL out\r\n" : "BAIL\r\n");
		c->bailed = 1;
		return false;
	case 3:                 /* Accepted, but nobody hears of it in time. */
		c->nlate = (int)strlen(ok);
		memcpy(c->late, ok, c->nlate);
		return true;
	case 4:                 /* Refused, but nobody hears of it in time. */
		c->nlate = 9;
		memcpy(c->late, "FAIL no\r\n", 9);
		return false;
	default:
		n_say(c, "WHAT is this?\n");
		return false;
	}
}
static void n_line(struct conn *c)
{
	char *l = c->line;
	long n = 0;
	int i;

	if (c->nline > 0 && l[c->nline - 1] == '\r')
		c->nline--;
	l[c->nline] = '\0';
	vp_check(!c->quit, "nothing is sent after QUIT");
	if (strncmp(l, "MOIN 1 ", 7) == 0) {
		vp_check(!c->moined, "MOIN is sent once");
		for (i = 7; i < c->nline; i++)
			vp_check(l[i] >= '0' && l[i] <= '9', "the session ID is a number");
		vp_check(i > 7, "there is a session ID");
		if (n_decide(c, N_MOIN, "MOIN 1\r\n"))
			c->moined = 1;
	} else if (strncmp(l, "PUSH ", 5) == 0) {
		vp_check(c->moined, "PUSH is sent after MOIN was accepted");
		for (i = 5; i < c->nline; i++) {
			vp_check(l[i] >= '0' && l[i] <= '9', "the announced size is a decimal number");
			n = n * 10 + (l[i] - '0');
		}
		vp_check(n > 0, "the announced size is positive");
		N.announced++;
		N.last_push = n;
		if (n_decide(c, N_PUSH, "OKAY\r\n")) {
			c->want = n;
			c->ndata = 0;
		}
	} else if (strcmp(l, "QUIT") == 0) {
		vp_check(c->moined, "QUIT is sent within a session");
		c->quit = 1;
	} else if (strncmp(l, "BAIL", 4) == 0) {
		c->bailed = 1;
#if ODD
		vp_reach("client bailed out");
#else
		;
#endif
	} else
		vp_check(0, "the client sends known requests only");
	c->nline = 0;
}
static void n_feed(struct conn *c, const char *buf, int n)
{
	int i = 0;

	/* Giving up: the server, whose OKAY came too late, takes the QUIT for the
	 * beginning of the data.  It can't be all of it: that has a timestamp. */
	if (c->want > 0 && c->ndata == 0 && N.up && n == 5 && memcmp(buf, "QUIT\n", 5) == 0) {
		c->quit = 1;
		c->want = 0;
		return;
	}
	while (i < n) {
		if (c->want > 0) {
			int k = n - i < c->want ? n - i : (int)c->want;

			vp_harness(c->ndata + k <= (int)sizeof(c->data), "the data fits");
			memcpy(c->data + c->ndata, buf + i, k);
			c->ndata += k;
			i += k;
			c->want -= k;
			if (c->want == 0)
				n_submission(c, c->data, c->ndata);
			continue;
		}
		if (buf[i] == '\n') {
			n_line(c);
			i++;
			continue;
		}
		vp_check(c->nline < (int)sizeof(c->line) - 1, "request lines are short");
		c->line[c->nline++] = buf[i++];
	}
}

/* ------------------------------------------------------------------ time */
time_t STUB(time)(time_t *t)
{
	if (t != NULL)
		*t = N.now;
	return N.now;
}
static void n_wait(void) { }
int STUB(poll)(struct pollfd *p, nfds_t n, int ms)
{
	vp_check(n == 1 && p->fd == N.fd, "the connection's socket is waited for");
	vp_check(ms >= 0 && ms <= 1000, "waiting is bounded");
	if (N.last_retry & BIO_FLAGS_READ)
		vp_check(p->events == POLLIN, "data is waited for if that is what is missing");
	else if (N.last_retry & BIO_FLAGS_WRITE)
		vp_check(p->events == POLLOUT, "room is waited for if that is what is missing");
	p->revents = 0;
	n_wait();
	return 0;
}
int STUB(select)(int n, fd_set * restrict r, fd_set * restrict w, fd_set * restrict e, struct timeval * restrict tv)
{
	(void)n; (void)r; (void)w; (void)e;
	vp_check(tv != NULL, "waiting is bounded");
	n_wait();
	return 0;
}
int STUB(usleep)(useconds_t us) { (void)us; n_wait(); return 0; }
int STUB(nanosleep)(const struct timespec *a, struct timespec *b) { (void)a; (void)b; n_wait(); return 0; }
long STUB(random)(void) { return N.random; }
void STUB(srandom)(unsigned s) { (void)s; }

/* ----------------------------------------------------------------- locks */
#ifndef LOCKFAIL
# define LOCKFAIL 0
#endif
static int n_lockfails;
static bool n_hard;             /* not only temporary failures */
static int n_lock(bool rd)
{
	vp_check(N.locks == 0, "the lock is not taken twice");
	if (n_lockfails < LOCKFAIL && vp_bool()) {
		n_lockfails++;
		if (rd)
			return vp_bool() ? EAGAIN : EBUSY;
		return n_hard && vp_bool() ? EDEADLK : EBUSY;
	}
	N.locks = rd ? 1 : 2;
	return 0;
}
int STUB(pthread_rwlock_rdlock)(pthread_rwlock_t *l) { (void)l; return n_lock(true); }
int STUB(pthread_rwlock_wrlock)(pthread_rwlock_t *l) { (void)l; return n_lock(false); }
int STUB(pthread_rwlock_unlock)(pthread_rwlock_t *l)
{
	(void)l;
	vp_check(N.locks != 0, "only a lock that is held is released");
	N.locks = 0;
	return 0;
}

/* --------------------------------------------------------------- OpenSSL */
#ifndef INITFAIL
# define INITFAIL 0
#endif
static int n_initfails;
static bool n_fails(void)
{
	if (n_initfails < INITFAIL && vp_bool()) {
		n_initfails++;
		return true;
	}
	return false;
}
#define N_LIVE 0x4711
const SSL_METHOD *STUB(TLS_client_method)(void) { return (const SSL_METHOD *)&N; }
const SSL_METHOD *STUB(TLS_method)(void) { return (const SSL_METHOD *)&N; }
const BIO_METHOD *STUB(BIO_s_connect)(void) { return (const BIO_METHOD *)&N; }
int STUB(OPENSSL_init_ssl)(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { (void)o; (void)s; return 1; }
SSL_CTX *STUB(SSL_CTX_new)(const SSL_METHOD *m)
{
	SSL_CTX *c;

	(void)m;
	if (n_fails())
		return NULL;
	c = calloc(1, sizeof(*c));
	c->live = N_LIVE;
	N.live_ctx++;
	return c;
}
static char n_ciphers[16];
int STUB(SSL_CTX_set_cipher_list)(SSL_CTX *c, const char *l)
{
	vp_check(c->live == N_LIVE, "the TLS context exists");
	strncpy(n_ciphers, l, sizeof(n_ciphers) - 1);
	return !n_fails();
}
uint64_t STUB(SSL_CTX_set_options)(SSL_CTX *c, uint64_t o) { vp_check(c->live == N_LIVE, "the TLS context exists"); return o; }
long STUB(SSL_CTX_ctrl)(SSL_CTX *c, int cmd, long l, void *p) { (void)cmd; (void)p; vp_check(c->live == N_LIVE, "the TLS context exists"); return l; }
void STUB(SSL_CTX_free)(SSL_CTX *c)
{
	if (c == NULL)
		return;
	vp_check(c->live == N_LIVE, "the TLS context is released once");
	N.live_ctx--;
	free(c);
}
BIO *STUB(BIO_new)(const BIO_METHOD *m)
{
	BIO *b;

	(void)m;
	if (n_fails())
		return NULL;
	b = calloc(1, sizeof(*b));
	b->live = N_LIVE;
	N.live_bio++;
	return b;
}
int STUB(BIO_free)(BIO *b)
{
	if (b == NULL)
		return 0;
	vp_check(b->live == N_LIVE, "the BIO is released once");
	N.live_bio--;
	free(b);
	return 1;
}
void STUB(BIO_free_all)(BIO *b) { STUB(BIO_free)(b); }
static void n_reset(SSL *s);
static SSL *n_ssl_of(BIO *b);
long STUB(BIO_ctrl)(BIO *b, int cmd, long l, void *p)
{
	vp_check(b->live == N_LIVE, "the BIO exists");
	switch (cmd) {
	case BIO_C_SET_CONNECT:
		if (l == 0) {
			strncpy(b->host, p, sizeof(b->host) - 1);
			b->hset++;
		} else if (l == 1) {
			strncpy(b->port, p, sizeof(b->port) - 1);
			b->pset++;
		}
		return 1;
	case BIO_C_GET_FD:
		return N.fd;
	case BIO_CTRL_RESET:
		if (n_ssl_of(b) != NULL)
			n_reset(n_ssl_of(b));
		return 1;
	default:
		return 1;
	}
}
long STUB(BIO_int_ctrl)(BIO *b, int cmd, long l, int i) { (void)cmd; (void)l; (void)i; vp_check(b->live == N_LIVE, "the BIO exists"); return 1; }
int STUB(BIO_test_flags)(const BIO *b, int f)
{
	vp_check(b->live == N_LIVE, "the BIO exists");
	return N.last_retry & f;
}
#ifndef N_SSL
# define N_SSL 4
#endif
static SSL *n_all[N_SSL];
static SSL *n_ssl_of(BIO *b)
{
	int i;

	for (i = 0; i < N_SSL; i++)
		if (n_all[i] != NULL && n_all[i]->bio == b)
			return n_all[i];
	return NULL;
}
SSL *STUB(SSL_new)(SSL_CTX *c)
{
	SSL *s;
	int i;

	vp_check(c->live == N_LIVE, "the TLS context exists");
	if (n_fails())
		return NULL;
	s = calloc(1, sizeof(*s));
	s->ctx = c;
	for (i = 0; i < N_SSL - 1 && n_all[i] != NULL; i++)
		;
	vp_harness(n_all[i] == NULL, "not too many connections");
	n_all[i] = s;
	N.live_ssl++;
	return s;
}
void STUB(SSL_set_bio)(SSL *s, BIO *r, BIO *w) { vp_check(r == w && r->live == N_LIVE, "one BIO for both directions"); s->bio = r; }
void STUB(SSL_set_connect_state)(SSL *s) { s->connect = 1; }
void STUB(SSL_set_psk_client_callback)(SSL *s, SSL_psk_client_cb_func f) { s->psk = f; }
static void n_reset(SSL *s)
{
	if (s->conn != NULL) {
		/* A session without incidents ends in an orderly way. */
#if MODE != 1
		if (s->conn->moined && N.failed == 0 && !N.up && N.odd == ODD)
			vp_check(s->conn->quit && (s->conn->down || N.waits != WAITS), "the session ends with QUIT and a shutdown");
#endif
		free(s->conn);
		s->conn = NULL;
	}
}
void STUB(SSL_free)(SSL *s)
{
	int i;

	if (s == NULL)
		return;
	for (i = 0; i < N_SSL && n_all[i] != s; i++)
		;
	vp_check(i < N_SSL, "the TLS object is released once");
	n_all[i] = NULL;
	n_reset(s);
	if (s->bio != NULL)
		STUB(BIO_free)(s->bio);
	N.live_ssl--;
	free(s);
}
int STUB(SSL_clear)(SSL *s) { vp_check(s != NULL, "there is a TLS object"); s->used = 0; return 1; }
int STUB(SSL_set_session)(SSL *s, SSL_SESSION *n) { vp_check(s != NULL && n == NULL, "no other session is used"); s->session = 0; return 1; }
int STUB(SSL_shutdown)(SSL *s)
{
	vp_check(s->bio->live == N_LIVE, "the connection exists");
	N.last_retry = 0;
	N.late_calls = 0;
	if (s->conn != NULL && !s->conn->down && N.waits > 0 && vp_bool()) {
		N.waits--;
		N.last_retry = BIO_FLAGS_SHOULD_RETRY | BIO_FLAGS_WRITE;
		return -1;
	}
	if (s->conn != NULL)
		s->conn->down = 1;
	return 0;
}
int STUB(SSL_get_error)(const SSL *s, int r) { (void)s; return r > 0 ? SSL_ERROR_NONE : N.last_retry & BIO_FLAGS_READ ? SSL_ERROR_WANT_READ : N.last_retry & BIO_FLAGS_WRITE ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SSL; }
unsigned long STUB(ERR_peek_error)(void) { return 77; }
unsigned long STUB(ERR_peek_last_error)(void) { return 77; }
unsigned long STUB(ERR_get_error)(void) { return 0; }
void STUB(ERR_clear_error)(void) { }
const char *STUB(ERR_reason_error_string)(unsigned long e) { (void)e; return "some reason"; }

/* More time passes than anyone wants to wait. */
static void n_time_up(void)
{
	N.now += 100;
	N.up = 1;
	vp_check(++N.late_calls < 6, "waiting ends once the time is up");
}
/* The connection is (re)established by the first transfer. */
static struct conn *n_conn(SSL *s)
{
	vp_check(s != NULL && s->bio != NULL && s->bio->live == N_LIVE && s->connect, "the connection exists");
	if (s->conn == NULL) {
		/* (OpenSSL would go on with the session that was shut down, or offer
		 * the ticket it got, which the server takes for an identity.) */
		vp_check(!s->used && !s->session, "a new connection begins with a new TLS session");
		s->used = s->session = 1;
		s->conn = calloc(1, sizeof(*s->conn));
		s->conn->open = 1;
	}
	vp_check(!s->conn->down, "nothing is transferred after the shutdown");
	return s->conn;
}
/* Neither success nor failure: the call has to be repeated; time may pass. */
static int n_again(int dir)
{
	N.last_retry = BIO_FLAGS_SHOULD_RETRY | dir;
	return -1;
}
int STUB(SSL_write)(SSL *s, const void *buf, int n)
{
	struct conn *c = n_conn(s);

	vp_check(n > 0, "writes hand over at least one byte");
	if (c->retry_buf != NULL && (c->retry_buf != buf || c->retry_len != n)) {
		/* Bad write retry: an error which leaves the BIO's flags alone. */
		vp_check(N.up, "a deferred write is repeated as it was");
		n_time_up();
		return -1;
	}
	if (c->stuck) {
		c->retry_buf = buf;
		c->retry_len = n;
		n_time_up();
		return n_again(BIO_FLAGS_WRITE);
	}
	c->retry_buf = NULL;
	N.last_retry = 0;
	if (N.failed != 0 && !c->open)
		return -1;
	if (c->closed || (N.faults > 0 && vp_bool())) {
		if (!c->closed)
			N.faults--;
		c->closed = 1;
		N.failed++;
		return -1;
	}
	if (N.waits > 0 && vp_bool()) {
		N.waits--;
		if (vp_bool()) {
			n_time_up();
			c->stuck = vp_bool();
		}
		c->retry_buf = buf;
		c->retry_len = n;
		return n_again(BIO_FLAGS_WRITE);
	}
	if (c->bailed)
		return n; /* Nobody listens any more. */
	N.late_calls = 0;
	n_feed(c, buf, n);
	return n;
}
int STUB(SSL_read)(SSL *s, void *buf, int n)
{
	struct conn *c = n_conn(s);
	int k;

	vp_check(n > 0, "reads ask for at least one byte");
	if (c->retry_buf != NULL)
		vp_check(N.up, "a deferred write is repeated first");
	((volatile unsigned char *)buf)[n - 1] = 0xEE; /* The whole buffer must be there. */
	N.last_retry = 0;
	if (c->closed || (N.faults > 0 && vp_bool())) {
		if (!c->closed)
			N.faults--;
		c->closed = 1;
		N.failed++;
		return 0;
	}
	k = c->nresp - c->rpos;
	if (k == 0 && c->bailed)
		return 0;
	if (k == 0) {
		n_time_up();
		return n_again(BIO_FLAGS_READ);
	}
	if (N.waits > 0 && vp_bool()) {
		N.waits--;
		return n_again(BIO_FLAGS_READ);
	}
	if (k > n)
		k = n;
	if (N.cuts > 0 && k > 1) {
		int m = vp_range(1, k);

		m = (int)vp_concrete(m);
		if (m < k)
			N.cuts--;
		k = m;
	}
	memcpy(buf, c->resp + c->rpos, k);
	c->rpos += k;
	return k;
}
/* A call into the library begins. */
static void n_begin(void)
{
	N.up = 0;
	N.late_calls = 0;
	N.start = N.now;
}
static void n_init(void)
{
	memset(&N, 0, sizeof(N));
	N.faults = FAULTS;
	N.waits = WAITS;
	N.cuts = CUTS;
	N.odd = ODD;
	N.now = 1600000000;
	N.fd = 5;
	N.random = 5;
}
#endif
