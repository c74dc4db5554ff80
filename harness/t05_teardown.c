/*
 * T05: the real tls.c, buffer.c, server.c, auth.c on one connection, with
 * every outcome of every TLS call, timeouts, and peers that send whatever.
 */
#include <config.h>
#include <signal.h>
#include "vp.h"
#include "h_ev.h"
#include "h_ssl.h"
#include "h_confuse.h"
#include "tls.h"
#include "server.h"
#include "fifo.h"
#include "hash.h"

#ifndef K
# define K 4
#endif
#ifndef MODE
# define MODE 0         /* 0: from accept on; 1: from the MOIN on; 2: renegotiation */
#endif

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }
void STUB(aio_init)(const void *p) { (void)p; }

static int fifo_dummy;
fifo_state *STUB(fifo_start)(const char * restrict f, const char * restrict d, size_t m) { (void)f; (void)d; (void)m; return (fifo_state *)&fifo_dummy; }
void STUB(fifo_stop)(fifo_state *f) { (void)f; }
void STUB(fifo_write)(fifo_state * restrict f, void * restrict d, size_t n, void (*ff)(void *))
{
	(void)f;
	vp_check(((char *)d)[n - 1] == '\n', "queued data");
#if MODE == 1
	vp_reach("data queued");
#endif
	if (ff != NULL)
		ff(d);
}
static struct h_sect star;
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	(void)re; (void)s; (void)nm; (void)pm; (void)fl;
	return 0;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict b, size_t n) { (void)e; (void)re; (void)b; (void)n; return 0; }

static bool force;
static bool fine;       /* nothing fails while the session is set up */
static int accepted, psk_calls, step;
static int conns = 1;
static bool hs_ssl_new_fails(void)
{
	bool r = MODE == 0 && vp_concrete(vp_bool());

#if MODE == 0
	if (r)
		vp_reach("no SSL object");
#endif
	return r;
}
static bool hs_peer_fails(void)
{
	bool r = MODE == 0 && vp_concrete(vp_bool());

#if MODE == 0
	if (r)
		vp_reach("no peer address");
#endif
	return r;
}
static int hs_accept(void) { return accepted++ < conns ? 1 : -1; }

/* What the peer may send. */
static const char *const lines[] = {
#if MODE == 0
	"MOIN 1 x\r\n", "QUIT\r\n", "PING 1\r\n", "hello\r\n",
#else
	"PUSH 3\r\n", "QUIT\r\n", "hello\r\n",
#endif
	NULL };
#define NLINES (sizeof(lines) / sizeof(*lines))
static const char *input;
static bool want_block, told;
#ifndef LINES
# define LINES (MODE == 0 ? 2 : 3)
#endif
static int nlines;
#ifndef WAITS
# define WAITS 1
#endif
static int waits = WAITS, parts = 1;

static void ask_key(SSL *s, const char *id)
{
	unsigned char key[4];

	psk_calls++;
	s->ctx->psk(s, id, key, sizeof(key));
}
static int outcome(void)
{
	if (force)
		return hs_failure(4);
	if (waits > 0 && vp_concrete(vp_bool())) {
		waits--;
		return hs_failure((int)vp_concrete(vp_upto(2)));
	}
	return hs_failure(3 + (int)vp_concrete(vp_upto(HS_NFAIL - 4)));
}
static int hs_io(int op, SSL *s, void *buf, int n)
{
	int i;

	if (op == HS_ACCEPT) {
		if (MODE == 0 && !force) {
			if (psk_calls < 2 && vp_concrete(vp_bool()))
				ask_key(s, psk_calls == 0 ? "one" : "two");
			if (vp_concrete(vp_bool()))
				return outcome();
#if MODE == 0
			if (psk_calls == 0)
				vp_reach("no identity");
#endif
			return 1;
		}
		if (force)
			return outcome();
		ask_key(s, "one");
		return 1;
	}
	if (!fine && (force || vp_concrete(vp_bool()))) {
		i = outcome();
		return i == 0 && op == HS_SHUTDOWN ? -1 : i; /* 0 would mean that `close notify' was sent. */
	}
	switch (op) {
	case HS_READ:
#if MODE == 2
		if (!fine && psk_calls < 2) {
			ask_key(s, "two");
			vp_reach("renegotiation");
		}
#endif
		if (input == NULL) {
			if (nlines == LINES || (fine && nlines == 1))
				return hs_failure(0);
			nlines++;
			if (fine)
				input = "MOIN 1 x\r\n";
			else if (want_block)
				input = "[]\n";
			else {
				i = (int)vp_concrete(vp_upto(NLINES - 1));
				input = lines[i];
				if (input != NULL && input[0] == 'P' && input[1] == 'U')
					want_block = true;
			}
			if (input == NULL) {
				vp_reach("a line that is too long");
				nlines--;
				memset(buf, 'A', (size_t)n);
				return n;
			}
			if (want_block && input[0] == '[')
				want_block = false;
		}
		for (i = 0; i < n && input[i] != '\0'; i++)
			((char *)buf)[i] = input[i];
		input += i;
		if (*input == '\0')
			input = NULL;
		return i;
	case HS_WRITE:
		if (n > 3 && !fine && parts > 0 && vp_concrete(vp_bool())) {
			parts--;
			return n / 2;
		}
		return n;
	default:
		if (told)
			return 1;
		told = vp_concrete(vp_bool()); /* `close notify' was sent; this happens once. */
		return !told;
	}
}

static void *listener;
static void the_step(void)
{
	ev_io *w[4];
	int i, n, timers = 0;
	ev_timer *t = NULL;

	n = hs_watchers(listener, w, 4);
	vp_check(n > 0, "a living connection waits for I/O");
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_TIMER) {
			t = HE.tab[i].w;
			timers++;
		}
	vp_check(timers == 1, "a living connection has its timer");
	if (!force && !fine && vp_concrete(vp_bool())) {
		HE_NOW += 100.;
		vp_reach("timeout");
		he_fire(t, EV_TIMER);
	} else {
		i = n > 1 ? (int)vp_concrete(vp_upto((unsigned long)n - 1)) : 0;
		he_fire(w[i], w[i]->events & (EV_READ | EV_WRITE));
	}
	he_run_pending();
	hs_check_wants(listener);
}

void vp_main(void)
{
	server_state *ctx;
	int left;

	HE_NOW = 1.0;
	hash_new(2);
	h_sect_init(&star, "*");
	star.opt[2].n = 1;
	star.password = (char *)"p";
	hash_insert("*", &star);
	fine = MODE != 0;
	ctx = server_start("*:5668", "PSK", "/cmd", "/tmp", 100, 0, 60.);
	listener = HE.tab[0].w;
	he_fire(listener, EV_READ);
	he_run_pending();
	while (fine && HS.ssl != NULL && hs_watchers(listener, (ev_io *[4]) { 0 }, 4) == 0)
		vp_check(0, "the session starts");
	if (MODE != 0) {
		/* MOIN was exchanged in the first round. */
		vp_check(HS.ssl != NULL, "the session starts");
		fine = false;
	}
	for (step = 0; step < K && HS.ssl != NULL; step++)
		the_step();
	if (HS.ssl == NULL)
		vp_reach("ended by itself");
	force = true;
	for (left = 0; left < 8 && HS.ssl != NULL; left++)
		the_step();
	vp_check(HS.ssl == NULL, "a connection whose I/O fails is ended");
	vp_check(HS.live_ssl == 0, "TLS objects are released");
	vp_check(he_active() == 1, "nothing of an ended connection is watched");
	server_stop(ctx);
	vp_check(HS.live_bio == 0, "sockets are closed");
}
