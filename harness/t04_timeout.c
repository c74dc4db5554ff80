/*
 * T04: a connection of tls.c in each of its phases, under a clock that is
 * advanced by arbitrary amounts, with or without I/O events.
 */
#include <config.h>
#include <signal.h>
#include "vp.h"
#include "h_ev.h"
#include "h_ssl.h"
#include "tls.h"

#ifndef K
# define K 4
#endif
#ifndef TICKS
# define TICKS 60
#endif
#define PH_HANDSHAKE 0
#define PH_READ 1
#define PH_WRITE 2
#define PH_SHUTDOWN 3
#define PH_DUPLEX 4

/* CLIENT 1: the client's connection, 2: the way send_nsca asks for it. */
#ifndef CLIENT
# define CLIENT 0
#endif

static unsigned long now, last, timeout; /* ticks */
static int phase, notified;
void STUB(exit)(int c)
{
#if CLIENT == 2
	/* send_nsca ends itself. */
	vp_check(c != 0, "a timeout is a failure");
	vp_check(timeout > 0, "a timeout of 0 disables the timeout");
	vp_check(now - last >= timeout, "a connection is not timed out before its time");
	vp_reach("reported");
#else
	(void)c;
	vp_check(0, "the server does not exit");
#endif
	vp_stop();
}
static bool ending;
static tls_state *conn;
static void *listener;

static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int accepted;
static int hs_accept(void) { return accepted++ == 0 ? 1 : -1; }
/* Connections make progress, but never finish. */
static int hs_io(int op, SSL *s, void *buf, int n)
{
	(void)buf; (void)n;
	if (op == HS_CONNECT)
		return phase != PH_HANDSHAKE ? 1 : hs_failure((int)vp_concrete(vp_bool()));
	if (op == HS_ACCEPT && phase != PH_HANDSHAKE) {
		s->app = strdup("id");
		return 1;
	}
	if (op == HS_WRITE)
		return hs_failure(1);
	return hs_failure(0);
}
static void handler(tls_state * restrict tls, char * restrict data) { (void)tls; (void)data; vp_check(0, "nothing was received"); }
static void on_timeout(tls_state *tls)
{
	vp_check(tls == conn && notified == 0, "the session is told once");
	vp_check(timeout > 0, "a timeout of 0 disables the timeout");
	vp_check(now - last >= timeout, "a connection is not timed out before its time");
#if CLIENT != 2 && (PHASE == 1 || PHASE == 2 || PHASE == 4)
	vp_reach("session told");
#endif
	notified++;
	tls_shutdown(tls);
}
static void on_connect(tls_state *tls)
{
	conn = tls;
	if (phase != PH_SHUTDOWN && vp_concrete(vp_bool())) {
		tls_on_timeout(tls, on_timeout);
	}
	switch (phase) {
	case PH_READ:
		tls_read_line(tls, handler);
		break;
	case PH_WRITE:
		tls_write_line(tls, "x");
		break;
	case PH_DUPLEX:
		tls_read_line(tls, handler);
		tls_write_line(tls, "x");
		break;
	case PH_SHUTDOWN:
		ending = true;
		tls_shutdown(tls);
		break;
	}
}
static unsigned int psk(SSL *s, const char *i, unsigned char *p, unsigned int n) { (void)s; (void)i; (void)p; (void)n; return 0; }
#if CLIENT
static unsigned int set_psk(SSL *s, const char *h, char *i, unsigned int l, unsigned char *p, unsigned int n)
{
	(void)s; (void)h; (void)i; (void)l; (void)p; (void)n;
	return 0;
}
#endif
static double sec(unsigned long t) { return (double)t; }
static ev_timer *the_timer(void)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_TIMER)
			return HE.tab[i].w;
	return NULL;
}

void vp_main(void)
{
	int step;
#if CLIENT
	tls_client_state *ctx;
#else
	tls_server_state *ctx;
#endif

	phase = PHASE;
	timeout = vp_upto(TICKS);
	now = 1 + vp_upto(TICKS);
	HE_NOW = sec(now);
#if CLIENT
	ctx = tls_client_start("PSK");
	tls_connect(ctx, "host:5668", sec(timeout), CLIENT == 2 ? TLS_AUTO_DIE : TLS_NO_AUTO_DIE, on_connect, NULL, set_psk);
#else
	ctx = tls_server_start("*:5668", "PSK", sec(timeout), on_connect, psk);
	listener = HE.tab[0].w;
	he_fire(listener, EV_READ);
#endif
	he_run_pending();
	last = now;
	vp_check(HS.ssl != NULL && (phase == PH_HANDSHAKE || conn != NULL), "the connection exists");
	if (timeout == 0)
		vp_check(the_timer() == NULL, "a timeout of 0 disables the timeout");
	for (step = 0; step < K && HS.ssl != NULL; step++) {
		ev_timer *t;
		ev_io *w[4];
		int n, told = notified;
		bool active;

		now += vp_upto(TICKS);
		HE_NOW = sec(now);
		active = vp_concrete(vp_bool());
		n = hs_watchers(listener, w, 4);
		vp_check(n > 0, "a living connection waits for I/O");
		if (active) {
			n = n > 1 ? (int)vp_concrete(vp_upto((unsigned long)n - 1)) : 0;
			he_fire(w[n], w[n]->events & (EV_READ | EV_WRITE));
			he_run_pending();
			last = now;
		}
		t = the_timer();
		if (timeout > 0)
			vp_check(t != NULL, "a living connection has a timer");
		else
			vp_check(t == NULL, "a timeout of 0 disables the timeout");
		if (t != NULL && t->at <= HE_NOW) {
			he_fire(t, EV_TIMER);
			if (notified > told) {
				/* Saying good-bye is activity, too. */
				he_run_pending();
				last = now;
			}
			he_run_pending();
		}
		if (HS.ssl == NULL) {
			vp_check(timeout > 0, "a timeout of 0 disables the timeout");
			vp_check(now - last >= timeout, "a connection is not timed out before its time");
#if CLIENT != 2
			vp_reach("timed out");
#endif
#if CLIENT != 2 && (PHASE == 1 || PHASE == 2 || PHASE == 4)
			if (notified)
				vp_reach("timed out again after telling the session");
#endif
		} else {
			vp_check(timeout == 0 || now - last < timeout || notified > told, "a connection is timed out when its time has come");
			if (timeout == 0 && step == K - 1)
				vp_reach("no timeout");
			if (timeout > 0 && step == K - 1 && last == now)
				vp_reach("kept alive by activity");
		}
	}
	if (HS.ssl == NULL) {
#if CLIENT
		vp_check(he_active() == 0, "nothing of an ended connection is watched");
		tls_client_stop(ctx);
#else
		vp_check(he_active() == 1, "nothing of an ended connection is watched");
		tls_server_stop(ctx);
#endif
		return;
	}
	vp_stop();
}
