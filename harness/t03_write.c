/*
 * T03: tls.c and buffer.c send what a session hands over, with every sequence
 * of partial and deferred writes, then shut the connection down.
 */
#include <config.h>
#include <signal.h>
#include "vp.h"
#include "h_ev.h"
#include "h_ssl.h"
#include "tls.h"

#ifndef STEPS
# define STEPS 5
#endif
#ifndef WMAX
# define WMAX 2         /* bytes per write */
#endif
#ifndef WANTS
# define WANTS 2        /* deferred writes */
#endif
#ifndef PARTS
# define PARTS 2         /* partial writes */
#endif
#define SPACE (STEPS * (WMAX + 2) + 1)

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }

static unsigned char out[SPACE];
static size_t handed, sent;
static int wants, handouts, freed;
static bool shutdown_requested, shutdown_started;
static int parts;
static const void *retry_buf;
static int retry_n;
static tls_state *conn;

static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int accepted;
static int hs_accept(void) { return accepted++ == 0 ? 1 : -1; }

static int hs_io(int op, SSL *s, void *buf, int n)
{
	int i, k;

	if (op == HS_ACCEPT) {
		s->app = strdup("id");
		return 1;
	}
	if (op == HS_READ)
		return hs_failure((int)vp_concrete(vp_upto(1)));
	if (op == HS_SHUTDOWN) {
		vp_check(shutdown_requested, "the shutdown starts only when it was requested");
		vp_check(sent == handed, "the shutdown starts only after everything was sent");
		if (shutdown_started)
			return 1;
		shutdown_started = true;
		return (int)vp_concrete(vp_upto(1));
	}
	vp_check((size_t)n <= handed - sent, "only what was handed over is sent");
	if (retry_buf != NULL) {
		vp_check(buf == retry_buf && n >= retry_n, "a deferred write is repeated with the same buffer");
		retry_buf = NULL;
	}
	for (i = 0; i < n; i++)
		vp_check(((unsigned char *)buf)[i] == out[sent + i], "the data is sent in order and unmodified");
	if (wants > 0 && vp_concrete(vp_bool())) {
		wants--;
		i = hs_failure((int)vp_concrete(vp_upto(2)));
		if (HS.err != SSL_ERROR_SYSCALL) {
			retry_buf = buf;
			retry_n = n;
		}
		vp_reach("a deferred write");
		return i;
	}
	k = n;
	if (parts < PARTS && n > 1) {
#ifdef SIZES
#ifdef HUGE_SIZES
		k = 65536;
#else
		k = (int)VP_PICK(1, 128, 4999);
#endif
		if (k > n)
			k = n;
#else
		k = (int)vp_concrete(vp_size(1, (size_t)n));
#endif
		if (k < n)
			parts++;
	}
	sent += (size_t)k;
	return k;
}
static void handler(tls_state * restrict tls, char * restrict data) { (void)tls; (void)data; vp_check(0, "nothing was received"); }
static void on_connect(tls_state *tls) { conn = tls; }
static unsigned int psk(SSL *s, const char *i, unsigned char *p, unsigned int n) { (void)s; (void)i; (void)p; (void)n; return 0; }
static void release(void *p)
{
	freed++;
	free(p);
}
static void hand_over(int how)
{
#ifdef SIZES
	static int nth;
#ifdef HUGE_SIZES
	size_t n = nth++ == 0 ? VP_PICK(1, 70001) : 65536, i;
#else
	size_t n = nth++ == 0 ? VP_PICK(125, 126, 127, 128, 129, 256, 5000) : VP_PICK(1, 130), i;
#endif
	char *p = vp_filled(n);

	for (i = 0; i < 2 && i < n; i++)
#else
	size_t n = vp_concrete(vp_size(1, WMAX)), i;
	char *p = malloc(n + 1);

	for (i = 0; i < n; i++)
#endif
		p[i] = how == 0 ? (char)vp_nz() : (char)vp_u8();
	p[n] = '\0';
	memcpy(out + handed, p, n);
	handed += n;
	if (how == 0) {
		out[handed++] = '\r';
		out[handed++] = '\n';
		tls_write_line(conn, p);
		free(p);
	} else if (how == 1) {
		tls_write(conn, p, n, NULL);
		memset(p, 0x55, n); /* Ours again. */
		free(p);
	} else {
		handouts++;
		tls_write(conn, p, n, release);
	}
}
static bool step_loop(void *listener)
{
	ev_io *w[4];
	int n;

	he_run_pending();
	hs_check_wants(listener);
	n = hs_watchers(listener, w, 4);
	if (n == 0)
		return false;
	n = n > 1 ? (int)vp_concrete(vp_upto((unsigned long)n - 1)) : 0;
	he_fire(w[n], w[n]->events & (EV_READ | EV_WRITE));
	return true;
}

void vp_main(void)
{
	int step;
	void *listener;
	tls_server_state *ctx;

	HE_NOW = 1.0;
	wants = WANTS;
	ctx = tls_server_start("*:5668", "PSK", 0.0, on_connect, psk);
	listener = HE.tab[0].w;
	he_fire(listener, EV_READ);
	he_run_pending();
	vp_check(conn != NULL, "the connection is established");
#ifdef WITH_READ
	tls_read_line(conn, handler);
#endif
	for (step = 0; step < STEPS && !shutdown_requested; step++)
		switch (vp_concrete(vp_upto(4))) {
		case 0: hand_over(0); break;
		case 1: hand_over(1); break;
		case 2: hand_over(2); break;
		case 3:
#ifndef WITH_READ
			shutdown_requested = true;
			tls_shutdown(conn);
			break;
#endif
		default:
			step_loop(listener);
		}
	/* The loop goes on. */
#ifdef SIZES
	for (step = 0; step < 200; step++) {
#else
	for (step = 0; step < (int)SPACE + WANTS + 2; step++) {
#endif
#ifdef WITH_READ
		he_run_pending();
		if (sent == handed)
			break;
		if (hs_watchers(listener, (ev_io *[4]) { 0 }, 4) > 1) {
			/* Only the writer gets ready from now on. */
			ev_io *w[4];
			int n = hs_watchers(listener, w, 4), i;

			for (i = 0; i < n; i++)
				if (w[i] != &conn->read_watcher) {
					he_fire(w[i], w[i]->events & (EV_READ | EV_WRITE));
					break;
				}
			continue;
		}
#endif
		if (!step_loop(listener))
			break;
	}
	vp_check(sent == handed, "everything handed over is sent, without anybody asking again");
	if (parts > 0)
		vp_reach("a partial write");
	if (shutdown_requested) {
		vp_check(shutdown_started, "a requested shutdown takes place");
		vp_check(HS.ssl == NULL && he_active() == 1, "the connection ends after the shutdown");
		vp_check(freed == handouts, "handed over memory is released once");
#ifndef WITH_READ
		vp_reach("shut down");
		if (handed > WMAX + 2)
			vp_reach("shut down after several writes");
#endif
		tls_server_stop(ctx);
		return;
	}
	vp_check(freed == handouts, "handed over memory is released once");
#ifndef WITH_READ
	vp_check(hs_watchers(listener, (ev_io *[4]) { 0 }, 4) == 0, "an idle connection is not watched for writing");
#endif
	vp_stop();
}
