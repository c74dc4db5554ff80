/*
 * Stand-in for src/common/tls.c as server.c and client.c see it: records what
 * is requested and lets the harness deliver what a peer could.
 */
#ifndef H_TLS_H
#define H_TLS_H
#include <stdlib.h>
#include <string.h>
#include "tls.h"

enum { R_NONE, R_LINE, R_BYTES };
#ifndef H_OUT
# define H_OUT 160
#endif

static struct h_state {
	tls_state *tls;
	int pending;
	size_t want;
	void (*handler)(tls_state *, char *);
	bool shut, ended;
	unsigned lines;         /* complete lines written */
	char out[H_OUT];        /* what was written since the last reset */
	size_t out_len;
	void (*on_error)(tls_state *);
	void (*on_timeout)(tls_state *);
	void (*on_long)(tls_state *);
	bool wrote_line_end;
} H;

static void h_reset_out(void)
{
	H.lines = 0;
	H.out_len = 0;
}

static void h_put(const char *s, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		vp_harness(H.out_len < H_OUT - 1, "output within the recording space");
		H.out[H.out_len++] = s[i];
	}
	H.out[H.out_len] = '\0';
}

void STUB(tls_read)(tls_state *tls, void (*cb)(tls_state *, char *), size_t size)
{
	vp_check(tls == H.tls && !H.ended, "reads happen on the live connection");
	vp_check(!H.shut, "nothing is read after the shutdown was requested");
	vp_check(H.pending == R_NONE, "one read request at a time");
	H.pending = size == 0 ? R_LINE : R_BYTES;
	H.want = size;
	H.handler = cb;
}
void STUB(tls_read_line)(tls_state *tls, void (*cb)(tls_state * restrict, char * restrict))
{
	vp_check(tls == H.tls && !H.ended, "reads happen on the live connection");
	vp_check(!H.shut, "nothing is read after the shutdown was requested");
	vp_check(H.pending == R_NONE, "one read request at a time");
	H.pending = R_LINE;
	H.handler = cb;
}
void STUB(tls_write)(tls_state * restrict tls, void * restrict data, size_t n, void (*ff)(void *))
{
	vp_check(tls == H.tls && !H.ended, "writes happen on the live connection");
	vp_check(!H.shut, "nothing is written after the shutdown was requested");
	h_put(data, n);
	if (ff != NULL)
		ff(data);
}
void STUB(tls_write_line)(tls_state * restrict tls, const char * restrict s)
{
	vp_check(tls == H.tls && !H.ended, "writes happen on the live connection");
	vp_check(!H.shut, "nothing is written after the shutdown was requested");
	h_put(s, strlen(s));
	H.lines++;
}
void STUB(tls_shutdown)(tls_state *tls)
{
	vp_check(tls == H.tls && !H.ended, "the shutdown is requested on the live connection");
	vp_check(!H.shut, "one shutdown request only");
	H.shut = true;
	H.on_error = NULL;
	H.on_timeout = NULL;
}
void STUB(tls_set_connection_id)(tls_state *tls, const char *id) { vp_check(tls == H.tls && id[0] != '\0', "connection ID"); }
void STUB(tls_on_drain)(tls_state *tls, void (*h)(tls_state *)) { h(tls); }
void STUB(tls_on_error)(tls_state *tls, void (*h)(tls_state *)) { (void)tls; H.on_error = h; }
void STUB(tls_on_timeout)(tls_state *tls, void (*h)(tls_state *)) { (void)tls; H.on_timeout = h; }
void STUB(tls_on_line_too_long)(tls_state *tls, void (*h)(tls_state *)) { (void)tls; H.on_long = h; }

/* Deliver n bytes for the pending request (n counts without the terminator). */
static void h_deliver(const char *s, size_t n)
{
	char *p = malloc(n + 1);

	memcpy(p, s, n);
	p[n] = '\0';
	H.pending = R_NONE;
	H.handler(H.tls, p);
}
/* What tls.c does on an I/O error: tell the user, then free the connection. */
static void h_error(void)
{
	H.pending = R_NONE;
	if (H.on_error != NULL)
		H.on_error(H.tls);
	H.ended = true;
}
static void h_timeout(void)
{
	H.pending = R_NONE;
	if (H.on_timeout != NULL)
		H.on_timeout(H.tls);
	else
		H.ended = true;
}
static void h_too_long(void)
{
	H.pending = R_NONE;
	H.on_long(H.tls);
}
static tls_state *h_new(const char *id, const char *peer, void *data)
{
	tls_state *t = malloc(sizeof(*t));

	memset(t, 0, sizeof(*t));
	t->data = data;
	t->id = id != NULL ? strdup(id) : NULL;
	t->addr = strdup("::1");
	t->peer = strdup(peer);
	memset(&H, 0, sizeof(H));
	H.tls = t;
	return t;
}
static void h_free(void)
{
	free(H.tls->id);
	free(H.tls->addr);
	free(H.tls->peer);
	free(H.tls);
}
#endif
