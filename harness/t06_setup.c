/*
 * T06, T07: how the real tls.c sets up the TLS layer (MODE 0: server, MODE 1:
 * client) and takes over new connections (MODE 2), on top of stand-ins for
 * OpenSSL's contexts and BIOs that follow OpenSSL's documented semantics and
 * record what was asked for.
 */
#include <config.h>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/bio.h>
#include "vp.h"
#include "h_ev.h"
#include "tls.h"
#include "log.h"

#ifndef MODE
# define MODE 0
#endif
#ifndef NCONN
# define NCONN 2            /* pending connections (MODE 2) */
#endif
#ifndef ROUNDS
# define ROUNDS 3
#endif

struct bio_st {
	int kind;               /* 1: listening, 2: connecting, 3: accepted */
	int fd, keep;           /* keep: the descriptor is not ours */
	char *name;
	bool bind_nonblock, nonblock, bound, reuse;
	BIO *accepted;
};
struct ssl_ctx_st { char *ciphers; SSL_psk_server_cb_func psk; SSL_psk_client_cb_func cpsk; uint64_t options; long min_proto; bool server, client, used; };
struct ssl_st { SSL_CTX *ctx; BIO *bio; void *app; SSL_psk_client_cb_func psk; SSL_psk_server_cb_func spsk; char *ciphers; };

static char *host, *ciphers;
static bool pipe_ignored, failed;
static unsigned long queue;
static int live_bio, live_ssl, closed[NCONN > 8 ? NCONN : 8], dummy;

/* One step of the set-up may fail. */
static int fault = -1, nth;
#ifdef MANY
/* Many connections, most of which follow a pattern. */
static int pattern[4];
# define CHOICE(what) (what)
#else
# define CHOICE(what) (vp_concrete(vp_bool()))
#endif
static bool fails(int which)
{
	(void)which;
#if MODE != 2
	if (nth++ == fault) {
		failed = true;
		queue = 77;
		errno = ENOMEM;
		return true;
	}
#endif
	return false;
}

static bool finished;
void STUB(exit)(int c)
{
	vp_check(MODE != 2, "the server goes on");
	vp_check(failed, "the set-up succeeds unless something fails");
	vp_check(c != 0, "a failure is reported");
	vp_check(!finished, "failures are reported while setting up");
#if MODE != 2
	vp_reach("refused");
#endif
	vp_stop();
}

const SSL_METHOD *STUB(TLS_server_method)(void) { return (const SSL_METHOD *)&live_bio; }
const SSL_METHOD *STUB(TLS_client_method)(void) { return (const SSL_METHOD *)&live_ssl; }
const SSL_METHOD *STUB(TLS_method)(void) { return (const SSL_METHOD *)&dummy; }
SSL_CTX *STUB(SSL_CTX_new)(const SSL_METHOD *m)
{
	SSL_CTX *c;

	if (fails(0))
		return NULL;
	c = calloc(1, sizeof(*c));
	c->server = m != (const SSL_METHOD *)&live_ssl;
	c->client = m != (const SSL_METHOD *)&live_bio;
	return c;
}
int STUB(SSL_CTX_set_cipher_list)(SSL_CTX *c, const char *l)
{
	if (fails(1))
		return 0;
	free(c->ciphers);
	c->ciphers = strdup(l);
	return 1;
}
int STUB(SSL_set_cipher_list)(SSL *s, const char *l)
{
	if (fails(1))
		return 0;
	free(s->ciphers);
	s->ciphers = strdup(l);
	return 1;
}
uint64_t STUB(SSL_CTX_set_options)(SSL_CTX *c, uint64_t o) { return c->options |= o; }
uint64_t STUB(SSL_CTX_clear_options)(SSL_CTX *c, uint64_t o) { return c->options &= ~o; }
long STUB(SSL_CTX_ctrl)(SSL_CTX *c, int cmd, long l, void *p)
{
	(void)p;
	if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) {
		c->min_proto = l;
		return 1;
	}
	return l;
}
void STUB(SSL_CTX_set_psk_server_callback)(SSL_CTX *c, SSL_psk_server_cb_func f) { c->psk = f; }
void STUB(SSL_CTX_set_psk_client_callback)(SSL_CTX *c, SSL_psk_client_cb_func f) { c->cpsk = f; }
void STUB(SSL_set_psk_server_callback)(SSL *s, SSL_psk_server_cb_func f) { s->spsk = f; }
void STUB(SSL_set_psk_client_callback)(SSL *s, SSL_psk_client_cb_func f) { s->psk = f; }
void STUB(SSL_CTX_free)(SSL_CTX *c) { free(c->ciphers); free(c); }
unsigned long STUB(ERR_peek_error)(void) { return queue; }
unsigned long STUB(ERR_get_error)(void) { unsigned long e = queue; queue = 0; return e; }
const char *STUB(ERR_reason_error_string)(unsigned long e) { (void)e; return "some reason"; }
void STUB(ERR_clear_error)(void) { queue = 0; }

#if MODE == 2
static void gone(int fd);
#endif
/* BIOs. */
static BIO *new_bio(int kind, const char *name)
{
	BIO *b = calloc(1, sizeof(*b));

	b->kind = kind;
	b->fd = -1;
	b->name = name != NULL ? strdup(name) : NULL;
	live_bio++;
	return b;
}
BIO *STUB(BIO_new_accept)(const char *s) { return fails(2) ? NULL : new_bio(1, s); }
BIO *STUB(BIO_new_connect)(const char *s) { return fails(3) ? NULL : new_bio(2, s); }
const BIO_METHOD *STUB(BIO_s_accept)(void) { return (const BIO_METHOD *)&live_bio; }
const BIO_METHOD *STUB(BIO_s_connect)(void) { return (const BIO_METHOD *)&live_ssl; }
BIO *STUB(BIO_new)(const BIO_METHOD *m) { return fails(4) ? NULL : new_bio(m == (const BIO_METHOD *)&live_bio ? 1 : 2, NULL); }
int STUB(BIO_free)(BIO *b)
{
	if (b == NULL)
		return 0;
#if MODE == 2
	if (b->fd >= 10 && !b->keep)
		gone(b->fd);
#endif
	if (b->accepted != NULL)
		STUB(BIO_free)(b->accepted);
	live_bio--;
	free(b->name);
	free(b);
	return 1;
}
void STUB(BIO_free_all)(BIO *b) { STUB(BIO_free)(b); }

/* The connections that wait to be accepted. */
enum { GOOD, RESET, NOPEER, NOSSL, NKINDS };
static struct { int kind, family; bool done; char id; } peers[NCONN];
static int npeers = 0, next_peer = 0, round_fails;
static bool exhausted;          /* no descriptors are left for the time being */
static bool should_retry;
#if MODE == 2
/* Descriptors are given out lowest first, also again. */
static int owner[NCONN];        /* connection + 1 */
static int new_fd(int i)
{
	int fd;

	for (fd = 0; owner[fd] != 0; fd++)
		vp_harness(fd < NCONN - 1, "descriptors");
	owner[fd] = i + 1;
	return 10 + fd;
}
static void gone(int fd)
{
	vp_check(fd < 10 + NCONN && owner[fd - 10] != 0, "a connection is closed once");
	closed[owner[fd - 10] - 1]++;
	owner[fd - 10] = 0;
}
static int conn(int fd)
{
	vp_check(fd >= 10 && fd < 10 + NCONN && owner[fd - 10] != 0, "an open connection");
	return owner[fd - 10] - 1;
}
static int fd_of(int i)
{
	int fd;

	for (fd = 0; fd < NCONN; fd++)
		if (owner[fd] == i + 1)
			return 10 + fd;
	return -1;
}
#endif

static int do_accept(BIO *b)
{
	should_retry = false;
	vp_check(b->accepted == NULL, "an accepted connection is taken before the next one");
	vp_check(b->bind_nonblock || b->keep, "accepting never blocks");
	if (next_peer == npeers) {
		vp_check(round_fails++ < 3, "nothing spins on a socket without connections");
		should_retry = true;
		return -1;
	}
	if (exhausted) {
		vp_check(round_fails++ < 3, "nothing spins while no descriptors are left");
		queue = 77;
		errno = EMFILE;
		return -1;
	}
	if (peers[next_peer].kind == RESET) {
		peers[next_peer++].done = true;
		queue = 77;
		errno = ECONNABORTED;
		return -1;
	}
	b->accepted = new_bio(3, NULL);
#if MODE == 2
	b->accepted->fd = new_fd(next_peer);
#endif
	next_peer++;
	b->accepted->nonblock = b->nonblock;
	return 1;
}
long STUB(BIO_ctrl)(BIO *b, int cmd, long l, void *p)
{
	switch (cmd) {
	case BIO_C_DO_STATE_MACHINE:
		if (b->kind == 1 && !b->bound) {
			vp_check(b->name != NULL, "an address to listen on");
			if (fails(5))
				return -1;
			b->bound = true;
			b->fd = 3;
			return 1;
		}
		if (b->kind == 1)
			return do_accept(b);
		vp_check(0, "the TLS layer connects");
		return 1;
	case BIO_C_GET_FD:
		if (p != NULL)
			*(int *)p = b->fd;
		return b->fd;
	case BIO_C_SET_BIND_MODE:       /* (Replaces the whole mode.) */
		b->bind_nonblock = false;
		b->reuse = l == BIO_BIND_REUSEADDR;
		return 1;
	case BIO_C_SET_ACCEPT:
		if (l == 0) {
			free(b->name);
			b->name = strdup(p);
		} else if (l == 2)
			b->bind_nonblock = p != NULL;
		return 1;
	case BIO_C_SET_CONNECT:
		if (l == 0) {
			free(b->name);
			b->name = strdup(p);
		}
		return 1;
	case BIO_C_SET_NBIO:
		b->nonblock = l != 0;
		return 1;
	case BIO_CTRL_SET_CLOSE:
		b->keep = l == BIO_NOCLOSE;
		return 1;
	default:
		return 1;
	}
}
long STUB(BIO_int_ctrl)(BIO *b, int cmd, long l, int i)
{
	if (cmd == BIO_C_SET_FD) {
		b->fd = i;
		b->bound = true;
		b->keep = l == BIO_NOCLOSE;
	}
	return 1;
}
int STUB(BIO_test_flags)(const BIO *b, int f) { (void)b; return should_retry ? f : 0; }
BIO *STUB(BIO_pop)(BIO *b)
{
	BIO *a = b->accepted;

	vp_check(a != NULL, "an accepted connection is taken");
	b->accepted = NULL;
	return a;
}

/* Connections. */
static SSL *last_ssl;
SSL *STUB(SSL_new)(SSL_CTX *c)
{
	SSL *s;

	c->used = true;
#if MODE == 2
	if (peers[next_peer - 1].kind == NOSSL) {
		queue = 77;
		return NULL;
	}
#endif
	if (fails(6))
		return NULL;
	s = calloc(1, sizeof(*s));
	s->ctx = c;
	s->spsk = c->psk;
	s->psk = c->cpsk;
	s->ciphers = c->ciphers != NULL ? strdup(c->ciphers) : NULL;
	live_ssl++;
	last_ssl = s;
	return s;
}
void STUB(SSL_set_bio)(SSL *s, BIO *r, BIO *w) { vp_check(r == w && r != NULL, "one BIO for both directions"); s->bio = r; }
void STUB(SSL_free)(SSL *s)
{
	if (s == NULL)
		return;
	if (s->bio != NULL)
		STUB(BIO_free)(s->bio);
	free(s->ciphers);
	live_ssl--;
	free(s);
}
int STUB(SSL_set_ex_data)(SSL *s, int i, void *p) { vp_check(i == 0, "application data"); s->app = p; return 1; }
void *STUB(SSL_get_ex_data)(const SSL *s, int i) { vp_check(i == 0, "application data"); return s->app; }
void (*STUB(signal)(int n, void (*f)(int)))(int)
{
	if (n == SIGPIPE)
		pipe_ignored = f == SIG_IGN;
	return SIG_DFL;
}
int STUB(sigaction)(int n, const struct sigaction * restrict a, struct sigaction * restrict o)
{
	(void)o;
	if (n == SIGPIPE && a != NULL)
		pipe_ignored = a->sa_handler == SIG_IGN;
	return 0;
}

static bool safe(SSL_CTX *c)
{
	return (c->options & SSL_OP_NO_SSLv3) != 0 || c->min_proto >= TLS1_VERSION;
}
static void connected(tls_state *t);
static void timed_out(tls_state *t) { (void)t; }
static unsigned int key(SSL *s, const char *id, unsigned char *k, unsigned int n);
static unsigned int client_key(SSL *s, const char *hint, char *id, unsigned int idlen, unsigned char *k, unsigned int n)
{
	(void)s; (void)hint; (void)id; (void)idlen; (void)k; (void)n;
	return 0;
}
static tls_server_state *server;
static double secs;

int STUB(SSL_accept)(SSL *s);
int STUB(SSL_shutdown)(SSL *s) { (void)s; return 1; }
int STUB(SSL_read)(SSL *s, void *b, int n) { (void)s; (void)b; (void)n; vp_check(0, "nothing is read here"); return -1; }
int STUB(SSL_write)(SSL *s, const void *b, int n) { (void)s; (void)b; (void)n; vp_check(0, "nothing is written here"); return -1; }
int STUB(SSL_get_error)(const SSL *s, int c) { (void)s; (void)c; return SSL_ERROR_WANT_READ; }

#if MODE == 0
/* ---- T06, server ---- */
static unsigned int key(SSL *s, const char *id, unsigned char *k, unsigned int n) { (void)s; (void)id; (void)k; (void)n; return 0; }
static void connected(tls_state *t) { (void)t; vp_check(0, "nobody connected"); }
int STUB(SSL_accept)(SSL *s) { (void)s; return -1; }
int STUB(SSL_connect)(SSL *s) { (void)s; vp_check(0, "a server does not connect"); return -1; }
int STUB(getpeername)(int fd, struct sockaddr * restrict sa, socklen_t * restrict len) { (void)fd; (void)sa; (void)len; return -1; }
const char *STUB(inet_ntop)(int af, const void * restrict a, char * restrict d, socklen_t n) { (void)af; (void)a; (void)d; (void)n; return NULL; }

void vp_main(void)
{
	int fd = -1, i, n = 0;
	bool inherited = vp_concrete(vp_bool());
	BIO *b;
	ev_io *w = NULL;

	if (inherited) {
		unsigned char d = vp_u8();

		vp_assume(d >= '3' && d <= '9');
		host = strdup("descriptor=x");
		host[11] = (char)d;
		fd = d - '0';
		vp_reach("inherited socket");
	} else {
		host = vp_string(1, 3);
		vp_reach("own socket");
	}
	ciphers = vp_string(1, 3);
	fault = (int)vp_concrete(vp_upto(5)) - 1;
	secs = vp_concrete(vp_bool()) ? 60.0 : 0.0;

	server = tls_server_start(host, ciphers, secs, connected, key);
	finished = true;

	vp_check(!failed, "a failed set-up does not pass for a server");
	vp_reach("listening");
	vp_check(server != NULL && server->ssl != NULL && server->bio != NULL, "a server");
	vp_check(server->ssl->server, "the server's side of TLS");
	vp_check(server->ssl->ciphers != NULL && strcmp(server->ssl->ciphers, ciphers) == 0, "exactly the configured ciphers are permitted");
	vp_check(safe(server->ssl), "SSLv2 and SSLv3 are switched off");
	vp_check(server->ssl->psk == key, "keys come from the configured callback");
	vp_check(pipe_ignored, "a vanished peer does not kill the program");
	b = server->bio;
	vp_check(b->kind == 1 && b->bound, "the socket is bound");
	vp_check(b->nonblock, "accepted sockets do not block");
	if (inherited) {
		vp_check(b->fd == fd && b->keep, "the inherited socket is used and kept");
	} else {
		vp_check(b->name != NULL && strcmp(b->name, host) == 0, "exactly the configured address");
		vp_check(b->bind_nonblock, "the listening socket does not block");
		vp_check(b->reuse, "a restart is not held up by old connections");
		fd = 3;
	}
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO) {
			w = HE.tab[i].w;
			n++;
		}
	vp_check(n == 1 && w->fd == fd && (w->events & EV_READ), "the loop waits for connections on the socket");
	vp_check(server->connect_handler == connected && server->timeout == secs, "handler and timeout for the connections");
	STUB(ev_io_stop)(w);
	tls_server_stop(server);
	vp_check(live_bio == 0 && live_ssl == 0, "everything is released in the end");
	free(host);
	free(ciphers);
}
#endif

#if MODE == 1
/* ---- T06, client ---- */
static unsigned int key(SSL *s, const char *id, unsigned char *k, unsigned int n) { (void)s; (void)id; (void)k; (void)n; return 0; }
static int connects, handled;
static bool done;
static tls_client_state *client;
static int timeouts;
static void connected(tls_state *t)
{
	size_t i, n = strlen(host);

	vp_check(done, "the session starts after the handshake");
	handled++;
	for (i = n; i > 0 && host[i - 1] != ':'; i--)
		;
	if (i > 0)
		n = i - 1;
	vp_check(strlen(t->peer) == n && memcmp(t->peer, host, n) == 0, "the server is known by its name without the port");
	vp_check(t->fd == 4 && t->ssl == last_ssl && t->timeout == secs, "the session has its connection and timeout");
	vp_check(t->timeout_handler == timed_out, "the timeout handler");
	vp_check(t->data == (void *)&timeouts, "the session gets its data");
	tls_shutdown(t);
}
int STUB(SSL_accept)(SSL *s) { (void)s; vp_check(0, "a client does not accept"); return -1; }
int STUB(SSL_connect)(SSL *s)
{
	vp_check(s->ctx->client, "the client's side of TLS");
	vp_check(s->ciphers != NULL && strcmp(s->ciphers, ciphers) == 0, "exactly the configured ciphers are offered");
	vp_check(safe(s->ctx), "SSLv2 and SSLv3 are switched off");
	vp_check(pipe_ignored, "a vanished peer does not kill the program");
	vp_check(s->psk == client_key, "the key comes from the configured callback");
	vp_check(s->bio != NULL && s->bio->kind == 2 && s->bio->nonblock, "the connection does not block");
	vp_check(strcmp(s->bio->name, host) == 0, "exactly the configured server");
	if (connects++ == 0) {
		if (fails(7))
			return -1; /* no socket */
		s->bio->fd = 4;
	}
	if (connects < 3 && vp_concrete(vp_bool())) {
		vp_reach("not yet");
		return -1;
	}
	done = true;
	return 1;
}
int STUB(getpeername)(int fd, struct sockaddr * restrict sa, socklen_t * restrict len) { (void)fd; (void)sa; (void)len; return -1; }
const char *STUB(inet_ntop)(int af, const void * restrict a, char * restrict d, socklen_t n) { (void)af; (void)a; (void)d; (void)n; return NULL; }

void vp_main(void)
{
	int i;

	host = vp_string(1, 4);
	ciphers = vp_string(1, 3);
	fault = (int)vp_concrete(vp_upto(5)) - 1;
	secs = vp_concrete(vp_bool()) ? 15.0 : 0.0;

	client = tls_client_start(ciphers);
	client->data = &timeouts;
	tls_connect(client, host, secs, TLS_AUTO_DIE, connected, timed_out, client_key);
	he_run_pending();
	for (i = 0; i < 3 && !done; i++) {
		int j;

		for (j = 0; j < HE_MAX; j++)
			if (HE.tab[j].type == HE_IO)
				break;
		vp_check(j < HE_MAX, "an unfinished handshake goes on");
		he_fire(HE.tab[j].w, EV_READ);
		he_run_pending();
	}
	he_run_pending();
	finished = true;
	vp_check(!failed, "a failed set-up does not pass for a connection");
	vp_check(handled == 1, "the session starts once");
	vp_reach("connected");
	tls_client_stop(client);
	vp_check(live_bio == 0 && live_ssl == 0 && he_active() == 0, "everything is released in the end");
	free(host);
	free(ciphers);
}
#endif

#if MODE == 2
/* ---- T07 ---- */
#define LONGADDR "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"
static const char *address(int i) { return peers[i].family == AF_INET6 ? LONGADDR : i == 0 ? "1.2.3.4" : i == 1 ? "1.2.3.5" : i % 7 == 3 ? "255.255.255.255" : "1.2.3.6"; }
#define NUMBER(i) ((char)('0' + (i) % 70))
static tls_state *sessions[NCONN];
static bool started[NCONN];
static int handshakes[NCONN], cur_data;
int STUB(getpeername)(int fd, struct sockaddr * restrict sa, socklen_t * restrict len)
{
	int i = conn(fd);

	if (peers[i].kind == NOPEER && peers[i].family == 0) {
		errno = ENOTCONN;
		return -1;
	}
	memset(sa, 0, *len);
	sa->sa_family = (sa_family_t)peers[i].family;
	((unsigned char *)sa)[4] = ((unsigned char *)sa)[8] = (unsigned char)i;
	return 0;
}
const char *STUB(inet_ntop)(int af, const void * restrict a, char * restrict d, socklen_t n)
{
	int i = *(const unsigned char *)a;
	const char *s;

	vp_check(i < NCONN && af == peers[i].family, "the address of the connection");
	s = address(i);
	if (strlen(s) >= n) {
		errno = ENOSPC;
		return NULL;
	}
	memcpy(d, s, strlen(s) + 1);
	return d;
}
int STUB(SSL_connect)(SSL *s) { (void)s; vp_check(0, "a server does not connect"); return -1; }
static unsigned int key(SSL *s, const char *id, unsigned char *k, unsigned int n)
{
	(void)k; (void)n;
	free(s->app);
	s->app = strdup(id);
	return 1;
}
int STUB(SSL_accept)(SSL *s)
{
	int i = conn(s->bio->fd);
	char id[3];

	vp_check(s->bio->nonblock, "accepted sockets do not block");
	vp_check(i >= 0 && i < NCONN && peers[i].kind == GOOD, "only complete connections go on");
	vp_check(!peers[i].done, "one handshake per connection");
	vp_check(s->spsk == key && s->ciphers != NULL && strcmp(s->ciphers, ciphers) == 0, "every connection has the server's settings");
	if (handshakes[i]++ == 0 && CHOICE((i + pattern[0]) % 3 == 1))
		return -1; /* not yet */
	id[0] = peers[i].id;
	id[1] = NUMBER(i);
	id[2] = '\0';
	s->spsk(s, id, NULL, 0);
	peers[i].done = true;
	return 1;
}
static void connected(tls_state *t)
{
	int i = conn(t->fd);
	size_t n;

	vp_check(i >= 0 && i < NCONN && peers[i].done && !started[i], "one session per connection");
	sessions[i] = t;
	started[i] = true;
	vp_check(t->data == (void *)&cur_data, "the session gets the server's data");
	vp_check(strlen(t->id) == 2 && t->id[0] == peers[i].id && t->id[1] == NUMBER(i), "the identity of this connection");
	vp_check(t->addr != NULL && strcmp(t->addr, address(i)) == 0, "the address of this connection");
	n = strlen(address(i));
	vp_check(strlen(t->peer) == n + 3 && memcmp(t->peer, t->id, 2) == 0 && t->peer[2] == '@' && memcmp(t->peer + 3, address(i), n) == 0, "client and address are told");
	vp_reach("session");
}
/* What a connection has registered. */
static int watchers(int fd, ev_io **out)
{
	int i, n = 0;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && ((ev_io *)HE.tab[i].w)->fd == fd) {
			*out = HE.tab[i].w;
			n++;
		}
	return n;
}
static int timers(void)
{
	int i, n = 0;

	for (i = 0; i < HE_MAX; i++)
		n += HE.tab[i].type == HE_TIMER;
	return n;
}

void vp_main(void)
{
	int i, r, good = 0, left = 0;
	ev_io *w, *l;
	bool ended[NCONN] = { false };

	host = strdup("*:5668");
	ciphers = strdup("PSK");
	secs = 60.0;
	npeers = 0;
	server = tls_server_start(host, ciphers, secs, connected, key);
	server->data = &cur_data;
	vp_check(watchers(3, &l) == 1, "the loop waits for connections");

#ifdef MANY
	{
		unsigned char id = vp_nz();

		for (i = 0; i < 4; i++)
			pattern[i] = (int)vp_concrete(vp_upto(2));
		for (i = 0; i < NCONN; i++) {
			peers[i].kind = pattern[1] == 0 ? GOOD : pattern[1] == 1 ? (i * 5 % 7) % NKINDS : i % 50 == 0 ? GOOD : i % 3 + 1;
			peers[i].family = i % 4 == 1 ? AF_INET6 : AF_INET;
			peers[i].id = (char)(i % 90 == 5 ? id : (unsigned)('A' + i % 26));
			if (peers[i].kind == NOPEER)
				peers[i].family = i % 2 ? AF_UNIX : 0;
			good += peers[i].kind == GOOD;
		}
	}
#else
	for (i = 0; i < NCONN; i++) {
		peers[i].kind = (int)vp_concrete(vp_upto(NKINDS - 1));
		peers[i].family = vp_concrete(vp_bool()) ? AF_INET6 : AF_INET;
		peers[i].id = (char)vp_nz();
		if (peers[i].kind == NOPEER)
			peers[i].family = vp_concrete(vp_bool()) ? AF_UNIX : 0;
		if (peers[i].kind == GOOD)
			good++;
	}
#endif
	for (r = 0; r < ROUNDS + NCONN; r++) {
#ifdef MANY
		int most = pattern[2] == 0 ? 1 : pattern[2] == 1 ? 7 : NCONN, add = r < NCONN && most < NCONN - npeers ? most : NCONN - npeers;
#else
		int add = r < ROUNDS ? (int)vp_concrete(vp_upto((unsigned long)(NCONN - npeers))) : NCONN - npeers;
#endif

		npeers += add;
		if (next_peer == npeers)
			continue;
		exhausted = r < ROUNDS && CHOICE(r % 10 == 7 || pattern[2] == 2);
		if (exhausted)
			vp_reach("no descriptors");
		round_fails = 0;
		vp_check(watchers(3, &w) == 1 && w == l && (w->events & EV_READ), "the loop goes on waiting for connections");
		i = next_peer;
		he_fire(l, EV_READ);
		vp_check(exhausted || next_peer > i, "every call takes at least one connection");
		if (CHOICE(pattern[0] != 0))
			he_run_pending();
		exhausted = false;
		/* A session may end, and its descriptor be given out again. */
		for (i = 0; i < NCONN; i++)
			if (sessions[i] != NULL && CHOICE(pattern[3] == 1 || (pattern[3] == 2 && i % 3 == r % 3))) {
				tls_shutdown(sessions[i]);
				he_run_pending();
				sessions[i] = NULL;
				ended[i] = true;
				left--;
				vp_check(closed[i] == 1, "a finished connection is closed");
				vp_reach("session over");
			}
	}
	he_run_pending();
	vp_check(next_peer == npeers && npeers == NCONN, "every connection is taken");
	vp_check(watchers(3, &w) == 1 && w == l && (w->events & EV_READ), "the loop goes on waiting for connections");
	for (i = 0; i < NCONN; i++) {
		if (peers[i].kind != GOOD) {
			vp_check(fd_of(i) == -1, "a connection that was given up is closed");
			vp_check(closed[i] == (peers[i].kind != RESET), "a connection that was given up is closed");
		} else {
			vp_check(closed[i] == ended[i], "a connection is not closed because of another one");
			if (!peers[i].done) {
				vp_check(watchers(fd_of(i), &w) == 1 && (w->events & EV_READ), "the handshake goes on");
				he_fire(w, EV_READ);
				he_run_pending();
			}
			vp_check(peers[i].done && started[i], "the session starts");
		}
	}
	vp_check(timers() == left + good, "every connection has its timeout, and nothing else has");
	vp_check(live_ssl == left + good && live_bio == left + good + 1, "nothing else is left");
	for (i = 0; i < NCONN; i++)
		if (sessions[i] != NULL)
			tls_shutdown(sessions[i]);
	he_run_pending();
	vp_check(timers() == 0 && live_ssl == 0 && live_bio == 1, "all connections are released");
	finished = true;
	STUB(ev_io_stop)(l);
	tls_server_stop(server);
	vp_check(live_bio == 0, "everything is released in the end");
	free(host);
	free(ciphers);
}
#endif
