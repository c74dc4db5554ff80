/*
 * T02: tls.c and buffer.c deliver a symbolic byte stream, fragmented and
 * delayed in every way, to a session that asks for lines and data blocks.
 */
#include <config.h>
#include <signal.h>
#include "vp.h"
#include "h_ev.h"
#include "h_ssl.h"
#include "tls.h"

#ifndef K
# define K 3            /* requests of the session */
#endif
#ifndef NS
# define NS 7            /* bytes of the stream */
#endif
#ifndef BMAX
# define BMAX 3         /* largest data block */
#endif
#ifndef WANTS
# define WANTS 1        /* deferred reads */
#endif
#ifndef LMAX            /* scaled LINE_MAX_SIZE */
# define LMAX 2048
#endif
#ifndef LGOOD           /* lines up to this size must be accepted */
# define LGOOD 1024
#endif

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }

static unsigned char stream[NS + 1];
static size_t total, sent, limit;
static size_t kind[K + 1], start[K + 1], end_[K + 1], next_[K + 1];
static bool complete[K + 1];
static int idx, wants;
static bool asked, dead, refused, eof;
static tls_state *conn;

#ifdef SIZES
static size_t first, chunk;     /* bytes that arrive at a time */
#endif
static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int accepted;
static int hs_accept(void) { return accepted++ == 0 ? 1 : -1; }

static int hs_io(int op, SSL *s, void *buf, int n)
{
	size_t k, max;

	if (op == HS_ACCEPT) {
		s->app = strdup("id");
		return 1;
	}
	if (op == HS_SHUTDOWN)
		return 1;
	vp_check(op == HS_READ, "nothing is written");
	vp_check(asked, "nothing is read without a request");
	if (wants > 0 && vp_concrete(vp_bool())) {
		wants--;
#if WANTS > 0
		vp_reach("a deferred read");
#endif
		return hs_failure((int)vp_concrete(vp_upto(2)));
	}
	if (sent == total) {
		eof = true;
		return hs_failure(3);
	}
	if (sent == limit) /* The peer waits for us. */
		return hs_failure(0);
	max = limit - sent;
	if (max > (size_t)n)
		max = (size_t)n;
#ifdef SIZES
	k = sent == 0 ? first : chunk;
	if (k > max)
		k = max;
#else
	k = vp_concrete(vp_size(1, max));
#endif
	memcpy(buf, stream + sent, k);
	sent += k;
	return (int)k;
}

/* The peer sends a data block (and what follows) only when asked for it. */
static void set_limit(void)
{
	int j;

	limit = total;
	for (j = idx + 1; j < K; j++)
		if (kind[j] != 0) {
			limit = start[j] < total ? start[j] : total;
			break;
		}
}
static void handler(tls_state * restrict tls, char * restrict data);
static void issue(void)
{
	if (idx == K) {
		asked = false;
		return;
	}
	set_limit();
	asked = true;
	if (kind[idx] == 0)
		tls_read_line(conn, handler);
	else
		tls_read(conn, handler, kind[idx]);
}
static void handler(tls_state * restrict tls, char * restrict data)
{
	size_t i, n;

	vp_check(tls == conn && asked && idx < K, "data is delivered for a request");
	vp_check(complete[idx], "only complete lines and blocks are delivered");
	if (kind[idx] == 0)
		vp_check(next_[idx] - start[idx] <= LMAX, "no line beyond the limit is delivered");
	n = end_[idx] - start[idx];
	for (i = 0; i < n; i++)
		vp_check((unsigned char)data[i] == stream[start[idx] + i], "the data is delivered byte-exactly and in order");
	vp_check(data[n] == '\0', "the data is terminated, exactly at its end");
	vp_check(next_[idx] <= sent, "only data that arrived is delivered");
	if (kind[idx] != 0) {
#if BMAX > 0
		vp_reach("a block");
#endif
	}
	else if (n > 0)
		vp_reach("a line");
	free(data);
	asked = false;
	idx++;
	issue();
}
static void on_connect(tls_state *tls)
{
	conn = tls;
	issue();
}
static unsigned int psk(SSL *s, const char *i, unsigned char *p, unsigned int n) { (void)s; (void)i; (void)p; (void)n; return 0; }

void vp_main(void)
{
	int j, step;
	size_t p = 0;
	void *listener = NULL;
	tls_server_state *ctx;

	HE_NOW = 1.0;
#ifdef SIZES    /* long lines and blocks, as large as they come */
#ifdef HUGE_SIZES
	first = 1;
	chunk = VP_PICK(1000, 16384, 65536);
#else
	first = VP_PICK(1, 127);
	chunk = VP_PICK(100, 128, 1025, 5000);
#endif
	for (j = 0; j < K; j++) {
		size_t n, i;

		if (vp_concrete(vp_bool())) {
#ifdef HUGE_SIZES
			n = VP_PICK(0, 128, 2046, 70000);
#else
			n = VP_PICK(0, 126, 127, 128, 1022, 2046, 2047, 2048, 2200);
#endif
			kind[j] = 0;
		} else {
#ifdef HUGE_SIZES
			n = VP_PICK(1, 32768, 65535, 65536, 70001);
#else
			n = VP_PICK(1, 128, 129, 256, 2048, 4096, 4999);
#endif
			kind[j] = n;
		}
		for (i = 0; i < n; i++)
			stream[total++] = i == 0 || i == n - 1 ? (unsigned char)vp_u8() : (unsigned char)('A' + i % 59);
		if (kind[j] == 0)
			stream[total++] = '\n';
	}
	if (vp_bool())
		total--;
	wants = WANTS;
#else
	total = vp_concrete(vp_size(NS > 3 ? NS - 3 : 1, NS));
	VP_BYTES(stream, total);
	wants = WANTS;
#endif
	for (j = 0; j < K; j++) {
#ifndef SIZES
		kind[j] = vp_concrete(vp_upto(BMAX));
#endif
		start[j] = p;
		if (kind[j] != 0) {
			complete[j] = p + kind[j] <= total;
			p += kind[j];
			end_[j] = next_[j] = p;
		} else {
			while (p < total && stream[p] != '\n')
				p++;
			complete[j] = p < total;
			end_[j] = p;
			next_[j] = ++p;
			if (complete[j] && end_[j] > start[j] && stream[end_[j] - 1] == '\r')
				end_[j]--;
		}
		if (p > total + 1)
			p = total + 1;
	}
	ctx = tls_server_start("*:5668", "PSK", 0.0, on_connect, psk);
	vp_check(HE.tab[0].type == HE_IO, "the server listens");
	listener = HE.tab[0].w;
	he_fire(listener, EV_READ);
	he_run_pending();
	vp_check(conn != NULL, "the connection is established");
	for (step = 0; step < NS + WANTS + 2 && HS.ssl != NULL; step++) {
		ev_io *w[4];
		int n = hs_watchers(listener, w, 4);

		if (idx == K)
			break;
		vp_check(n > 0, "an unsatisfied request keeps the connection watched");
		hs_check_wants(listener);
		he_fire(w[0], w[0]->events & (EV_READ | EV_WRITE));
		he_run_pending();
	}
	if (idx == K) {
		vp_reach("all requests satisfied");
		if (HS.ssl != NULL)
			vp_check(sent <= total, "stream");
		vp_stop();
	}
	vp_check(HS.ssl == NULL, "an unsatisfiable request ends with the connection");
	vp_check(he_active() == 1, "nothing of an ended connection is watched");
	if (kind[idx] == 0 && complete[idx]) {
		vp_reach("too long");
		vp_check(next_[idx] - start[idx] > LGOOD, "a complete line of acceptable length is delivered");
	} else if (kind[idx] == 0 && !eof) {
		vp_check(total - start[idx] > LGOOD - 1, "a connection is only given up early if the line is too long");
	} else
		vp_check(!complete[idx], "complete data is delivered");
	tls_server_stop(ctx);
}
