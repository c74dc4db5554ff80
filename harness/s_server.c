/*
 * S01-S04: one connection of the real server.c + auth.c + hash.c + util.c,
 * against a peer that sends anything.  tls.c and fifo.c are stand-ins (h_tls.h
 * and below); libConfuse and regexec are stand-ins whose answers are chosen by
 * the solver.
 */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "vp.h"
#include "h_tls.h"
#include "h_confuse.h"
#include "server.h"
#include "fifo.h"
#include "hash.h"

#define M_PUSH 1        /* S01/S02: arbitrary submissions */
#define M_SESSION 2     /* S03: arbitrary request sequences */
#define M_SIZE 3        /* S04: arbitrary PUSH arguments */
#define M_PAIR 4        /* S02: two connections, interleaved in any way */

#ifndef NB
# define NB 7
#endif
#ifndef VARY
# define VARY 0
#endif
#ifndef REP
# define REP 1
#endif
#ifndef IDMAX
# define IDMAX 1
#endif
#ifndef K
# define K 4
#endif
#ifndef LMAX
# define LMAX 9
#endif

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }
void STUB(aio_init)(const void *p) { (void)p; }

/* --- authorisations ------------------------------------------------------ */
static struct h_sect own, other, star;
static bool have_own, have_other, have_star;
static const char *data_sent;
static size_t data_len;

static struct h_sect *section_for(const char *id)
{
	if (have_own && strcmp(id, "a") == 0)
		return &own;
	if (have_other && strcmp(id, "b") == 0)
		return &other;
	if (have_star)
		return &star;
	return NULL;
}

/* The text patterns are matched against: what follows the timestamp. */
static const char *body(const char *s, size_t n)
{
	size_t i = 0;

	while (i < n && s[i] != ']')
		i++;
	if (i < n)
		i++;
	while (i < n && (s[i] == ' ' || s[i] == '\t'))
		i++;
	return s + i;
}

int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	struct h_pat *p = (struct h_pat *)re;

	(void)nm; (void)pm;
	vp_check((fl & ~(REG_NOTBOL | REG_NOTEOL)) == 0 && fl == 0, "no matching flags that would disable anchors");
	vp_check(p->owner == section_for(H.tls->id), "only patterns of the client's own section (or *) are consulted");
	vp_check(strcmp(s, body(data_sent, data_len)) == 0, "patterns are matched against the text after the timestamp");
	if (!p->decided) {
		p->decided = 1;
		p->result = vp_concrete(vp_upto(2));
		p->result = p->result == 0 ? 0 : p->result == 1 ? REG_NOMATCH : REG_ESPACE;
	}
	return p->result;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict buf, size_t n)
{
	(void)e; (void)re;
	if (n > 0)
		buf[0] = '\0';
	return 1;
}

/* Would any pattern of the section accept it?  (Also of those not asked.) */
static bool some_pattern_accepts(struct h_sect *s)
{
	int i;
	unsigned j;

	for (i = 0; i < 3; i++)
		for (j = 0; j < s->opt[i].n; j++) {
			struct h_pat *p = s->opt[i].pat[j];

			if (!p->decided) {
				p->decided = 1;
				p->result = vp_concrete(vp_upto(1)) ? REG_NOMATCH : 0;
			}
			if (p->result == 0)
				return true;
		}
	return false;
}

static bool well_formed(const char *s, size_t n)
{
	size_t i = 0;

	if (n == 0 || s[n - 1] != '\n')
		return false;
	for (i = 0; i < n - 1; i++)
		if (s[i] == '\n' || s[i] == '\0')
			return false;
	for (i = 0; s[i] == ' ' || s[i] == '\t'; i++)
		;
	if (s[i] != '[')
		return false;
	for (; i < n; i++)
		if (s[i] == ']')
			return true;
	return false;
}

/* --- the command queue --------------------------------------------------- */
static int fifo_dummy, queued;
static const char *q_data;
fifo_state *STUB(fifo_start)(const char * restrict f, const char * restrict d, size_t n)
{
	vp_check(strcmp(f, "/cmd") == 0 && strcmp(d, "/tmpdir") == 0 && n == 77, "queue parameters are passed on");
	return (fifo_state *)&fifo_dummy;
}
void STUB(fifo_write)(fifo_state * restrict f, void * restrict data, size_t n, void (*ff)(void *))
{
	vp_check((int *)f == &fifo_dummy, "the server's own queue is used");
	queued++;
	vp_check(data_sent != NULL, "something is queued only when data was submitted");
	vp_check(n == data_len, "the declared number of bytes is queued");
	vp_check(memcmp(data, data_sent, n) == 0, "the submitted bytes are queued unmodified");
	if (ff != NULL)
		ff(data);
}
void STUB(fifo_stop)(fifo_state *f) { (void)f; }

/* --- the listener -------------------------------------------------------- */
static tls_server_state listener;
static void (*on_connect)(tls_state *);
static bool stopped;
tls_server_state *STUB(tls_server_start)(const char * restrict l, const char * restrict c, ev_tstamp t,
    void (*h)(tls_state *), unsigned int (*psk)(SSL *, const char *, unsigned char *, unsigned int))
{
	vp_check(strcmp(l, "*:5668") == 0 && strcmp(c, "PSK") == 0 && t == 17.5, "listener parameters are passed on");
	vp_check(psk != NULL, "a key callback is installed");
	on_connect = h;
	return &listener;
}
void STUB(tls_server_stop)(tls_server_state *s) { vp_check(s == &listener && !stopped, "the listener is stopped once"); stopped = true; }

/* --- reference reading of a request line ---------------------------------- */
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool keyword(const char *s, const char *k)
{
	int i;

	for (i = 0; i < 4; i++)
		if (lower((unsigned char)s[i]) != k[i])
			return false;
	return true;
}
static bool blank(char c) { return c == ' ' || c == '\t'; }
static int words(const char *s, const char **w, int *len)
{
	int n = 0;

	while (*s != '\0') {
		while (blank(*s))
			s++;
		if (*s == '\0')
			break;
		if (n < 4)
			w[n] = s;
		len[n < 4 ? n : 3] = 0;
		while (*s != '\0' && !blank(*s)) {
			len[n < 4 ? n : 3]++;
			s++;
		}
		n++;
	}
	return n;
}
/* 1: a plain positive decimal number, -1: surely none, 0: debatable (1x, +1). */
static int number(const char *s, int n, unsigned long *v)
{
	int i;

	*v = 0;
	if (n > 1 && s[0] >= '\n' && s[0] <= '\r') {
		unsigned long u;
		int r = number(s + 1, n - 1, &u);
		*v = u;
		return r < 0 ? -1 : 0;
	}
	if (s[0] == '-' || s[0] == '+') {
		unsigned long u;
		int r = n > 1 ? number(s + 1, n - 1, &u) : -1;
		*v = u;
		return s[0] == '-' ? -1 : r < 0 ? -1 : 0;
	}
	for (i = 0; i < n && s[i] >= '0' && s[i] <= '9'; i++) {
		if (*v > 99999999999UL)
			return 1;       /* far beyond any limit */
		*v = *v * 10 + (unsigned long)(s[i] - '0');
	}
	if (i == 0 || *v == 0)
		return -1;
	return i == n ? 1 : 0;
}

static bool resp(const char *k) { return H.lines == 1 && strncmp(H.out, k, 4) == 0 && (H.out[4] == '\0' || H.out[4] == ' '); }
static bool fails(void) { return resp("FAIL") && H.out[4] == ' ' && H.out[5] != '\0'; }

enum { ST_HELLO, ST_CONN, ST_DATA, ST_END };
static server_state *srv;
static size_t max_cmd;
static int state;
static size_t expect_bytes;
static void (*line_hello)(tls_state *, char *), (*line_conn)(tls_state *, char *);

static void waits_for_line(int st)
{
	vp_check(H.pending == R_LINE && !H.shut, "the next request is awaited");
	state = st;
}
static void closes(void)
{
	vp_check(H.shut && H.pending == R_NONE, "the connection is shut down");
	state = ST_END;
}

static void request(const char *line, size_t n)
{
	const char *w[4];
	int len[4], nw, st = state;
	unsigned long v;
	const char *s;
	char *copy = malloc(n + 1);

	memcpy(copy, line, n);
	copy[n] = '\0';
	s = copy;
	data_sent = NULL;
	h_reset_out();
	queued = 0;
	h_deliver(copy, n);

	vp_check(queued == 0, "a request by itself queues nothing");
	vp_check(H.lines <= 1, "at most one response per request");
	vp_check(H.shut != (H.pending != R_NONE), "either the next input is awaited or the connection is shut down");
	nw = words(s, w, len);
	if (keyword(s, "bail")) {
		if (nw >= 1 && len[0] == 4) {
			vp_check(H.lines == 0 && H.out_len == 0, "BAIL is not answered");
			closes();
		} else
			state = H.shut ? ST_END : st;
	} else if (keyword(s, "quit")) {
		if (len[0] == 4) {
			vp_check(resp("OKAY"), "QUIT is answered OKAY");
			closes();
		} else {
			vp_check(H.lines == 1, "one response");
			state = H.shut ? ST_END : st;
		}
	} else if (st == ST_HELLO && keyword(s, "ping")) {
		vp_check(resp("PONG") || fails(), "PING is answered PONG or FAIL");
		if (nw == 2 && len[0] == 4 && number(w[1], len[1], &v) == 1)
			vp_check(resp("PONG"), "a proper PING is answered PONG");
		if (resp("PONG"))
			closes();
		else
			waits_for_line(st);
	} else if (st == ST_HELLO && keyword(s, "moin")) {
		bool good = nw == 3 && len[0] == 4 && number(w[1], len[1], &v) == 1;
		bool bad = nw != 3 || number(w[1], len[1], &v) < 0;

		vp_check(resp("MOIN") || fails(), "MOIN is answered MOIN or FAIL");
		if (good)
			vp_check(resp("MOIN") && strcmp(H.out, "MOIN 1") == 0, "a proper MOIN is answered MOIN 1");
		if (bad)
			vp_check(fails(), "a malformed MOIN is answered FAIL");
		waits_for_line(resp("MOIN") ? ST_CONN : ST_HELLO);
	} else if (st == ST_CONN && keyword(s, "noop")) {
		if (len[0] == 4)
			vp_check(resp("OKAY"), "NOOP is answered OKAY");
		waits_for_line(st);
	} else if (st == ST_CONN && keyword(s, "push")) {
		int c = nw == 2 ? number(w[1], len[1], &v) : -1;

		vp_check(resp("OKAY") || fails(), "PUSH is answered OKAY or FAIL");
		if (c < 0)
			vp_check(fails(), "a PUSH without a positive size is answered FAIL");
		else if (max_cmd > 0 && v > max_cmd)
			vp_check(fails(), "a PUSH beyond the maximum size is answered FAIL");
		else if (c == 1 && len[0] == 4 && v <= INT_MAX)
			vp_check(resp("OKAY"), "a PUSH within the limit is answered OKAY");
		if (resp("OKAY")) {
			vp_check(H.pending == R_BYTES && !H.shut, "the data is awaited");
			vp_check(H.want == v, "exactly the announced number of bytes is awaited");
			vp_check(v <= INT_MAX, "what cannot be received at once is refused");
			expect_bytes = H.want;
			state = ST_DATA;
#if MODE == M_SIZE
			if (max_cmd > 0)
				vp_reach("PUSH accepted");
#endif
		} else
			waits_for_line(st);
	} else {
		vp_check(fails(), "anything else is answered FAIL");
		waits_for_line(st);
	}
	free(copy);
}

/* h_deliver() hands its own copy over, so `copy' above stays ours. */

static void submit(const char *d, size_t n)
{
	struct h_sect *s;
	bool ok, wf;

	data_sent = d;
	data_len = n;
	queued = 0;
	h_reset_out();
	h_deliver(d, n);
	vp_check(H.lines == 1, "exactly one response per submission");
	s = section_for(H.tls->id);
	wf = well_formed(d, n);
	ok = wf && s != NULL && some_pattern_accepts(s);
	vp_check(queued == 0 || ok, "only an authorised, well-formed submission is queued");
	vp_check(queued == (ok ? 1 : 0), "an authorised submission is queued exactly once");
	if (ok)
		vp_check(resp("OKAY"), "an accepted submission is answered OKAY");
	else
		vp_check(fails(), "a refused submission is answered FAIL");
	waits_for_line(ST_CONN);
#if MODE == M_PUSH
	if (ok)
		vp_reach("submission accepted");
	if (wf && s == NULL)
		vp_reach("submission without any section refused");
	if (wf && s != NULL && !ok)
		vp_reach("submission refused by the patterns");
#endif
}

static void finish(void)
{
	if (!H.shut && !H.ended)
		h_error();
	h_free();
	server_stop(srv);
	vp_check(stopped, "stopping the server stops the listener");
}

static void setup(const char *id)
{
	int i, mode = MODE;

	h_sect_init(&own, "a");
	h_sect_init(&other, "b");
	h_sect_init(&star, "*");
	have_own = have_other = have_star = true;
	if (mode == M_PUSH) {
		have_own = vp_concrete(vp_bool());
		have_star = vp_concrete(vp_bool());
	}
	for (i = 0; i < 3; i++) {
		own.opt[i].n = star.opt[i].n = other.opt[i].n = 1;
		if (mode == M_PUSH && i == VARY) {
			own.opt[i].n = (unsigned)vp_concrete(vp_upto(H_NPAT));
			star.opt[i].n = H_NPAT - own.opt[i].n;
		}
	}
	hash_new(4);
	if (have_own)
		hash_insert(own.title, &own);
	if (have_other)
		hash_insert(other.title, &other);
	if (have_star)
		hash_insert(star.title, &star);
	srv = server_start("*:5668", "PSK", "/cmd", "/tmpdir", max_cmd, 77, 17.5);
	vp_check(listener.data != NULL && on_connect != NULL, "the listener knows the server");
	h_new(id, "peer", listener.data);
	on_connect(H.tls);
	vp_check(H.lines == 0 && H.pending == R_LINE && !H.shut, "the first request is awaited");
	vp_check(H.on_timeout != NULL && H.on_error != NULL && H.on_long != NULL, "all handlers are installed");
	state = ST_HELLO;
}

#if MODE == M_PUSH
void vp_main(void)
{
	char *id = vp_string(1, IDMAX), req[16], *d;
	size_t n, i;
	int k;

	max_cmd = 0;
	setup(id);
	request("MOIN 1 xy", 9);
	for (k = 0; k < REP; k++) {
#ifdef SIZES    /* long submissions, one byte of which is arbitrary */
		size_t close, flaw, m;

#ifdef HUGE_SIZES
		n = VP_PICK(32768, 65536, 70001);
		close = 11;
		flaw = VP_PICK(62, 65534);
#else
		n = k > 0 ? VP_PICK(20, 300) : VP_PICK(64, 127, 128, 129, 255, 256, 257, 1024, 4095, 4096, 5000);
		close = k > 0 ? 11 : VP_PICK(1, 11, 255, 256);
		flaw = k > 0 ? n - 1 : VP_PICK(0, 11, 62, 127, 255, 256, 1000, 4094, 4095);
#endif
		strcpy(req, "PUSH ");
		for (i = 5, m = 1; m * 10 <= n; m *= 10)
			;
		for (; m > 0; m /= 10)
			req[i++] = (char)('0' + n / m % 10);
		req[i] = '\0';
		request(req, i);
		vp_check(state == ST_DATA, "a PUSH is accepted");
		d = malloc(n + 1);
		for (i = 0; i < n; i++)
			d[i] = i == 0 ? '[' : i == n - 1 ? '\n' : i < close ? (char)('0' + i % 10) : i == close ? ']' : i == close + 1 ? ' ' : (char)('A' + i % 27);
		if (flaw < n)
			d[flaw] = (char)vp_u8();
#else
		n = vp_concrete(vp_size(1, NB));
		strcpy(req, "PUSH 0");
		req[5] = (char)('0' + n);
		request(req, 6);
		vp_check(state == ST_DATA, "a small PUSH is accepted");
		d = malloc(n + 1);
		for (i = 0; i < n; i++)
			d[i] = (char)vp_u8();
#endif
		d[n] = '\0';
		for (i = 0; i < 3; i++) {
			int j;
			for (j = 0; j < H_NPAT; j++)
				own.opt[i].store[j].decided = star.opt[i].store[j].decided = other.opt[i].store[j].decided = 0;
		}
		submit(d, n);
		free(d);
	}
	free(id);
	finish();
}
#elif MODE == M_SIZE
void vp_main(void)
{
	char *req;
	size_t n, i;

	max_cmd = vp_u64();
	setup("a");
	request("MOIN 1 xy", 9);
#ifdef DIGITS
	static const char *const big[] = { "2147483647", "2147483648", "4294967296", "4294967301", "9223372036854775807",
		"18446744073709551617", "99999999999", "0000000005", "6442450945", "000000000000000000000009", };
	const char *b = big[vp_concrete(vp_upto(sizeof(big) / sizeof(big[0]) - 1))];

	n = strlen(b);
	req = malloc(6 + n);
	memcpy(req, "PUSH ", 5);
	memcpy(req + 5, b, n);
	/* two arbitrary digits: the last one and any other */
	i = vp_concrete(vp_upto(n - 2));
	req[5 + i] = (char)('0' + vp_upto(9));
	req[5 + n - 1] = (char)('0' + vp_upto(9));
#else
	n = vp_concrete(vp_size(0, NB));
	req = malloc(6 + n);
	memcpy(req, "PUSH ", 5);
	for (i = 0; i < n; i++)
		req[5 + i] = (char)vp_u8();
#endif
	request(req, 5 + n);
	free(req);
	finish();
}
#elif MODE == M_PAIR
static struct { struct h_state h; int state; size_t expect; } conn[2];
static int cur;
static void use(int i)
{
	conn[cur].h = H;
	conn[cur].state = state;
	conn[cur].expect = expect_bytes;
	cur = i;
	H = conn[i].h;
	state = conn[i].state;
	expect_bytes = conn[i].expect;
}
void vp_main(void)
{
	char *d, *req = malloc(8);
	size_t i, n;
	int k, alive = 2;

	max_cmd = 0;
	setup("a");
	use(1);
	h_new("b", "second", listener.data);
	on_connect(H.tls);
	vp_check(H.lines == 0 && H.pending == R_LINE && !H.shut, "the first request is awaited");
	state = ST_HELLO;
	use(0);
	request("MOIN 1 xy", 9);
	use(1);
	request("MOIN 1 zz", 9);
	for (k = 0; k < K && alive > 0; k++) {
		use((int)vp_concrete(vp_bool()));
		if (H.ended || state == ST_END)
			vp_stop();
		if (state == ST_DATA) {
			n = expect_bytes;
			d = malloc(n + 1);
			memcpy(d, "[]xxxxxx", n);
			d[n - 2] = (char)vp_u8();
			d[n - 1] = '\n';
			d[n] = '\0';
			for (i = 0; i < 3; i++) {
				int j;
				for (j = 0; j < H_NPAT; j++)
					own.opt[i].store[j].decided = other.opt[i].store[j].decided = 0;
			}
			submit(d, n);
			free(d);
			if (conn[1 - cur].state == ST_DATA)
				vp_reach("data of one while the other's is awaited");
			continue;
		}
		switch (vp_concrete(vp_upto(3))) {
		case 0:
			memcpy(req, "PUSH 4", 7);
			request(req, 6);
			break;
		case 1:
			memcpy(req, "PUSH 6", 7);
			request(req, 6);
			break;
		case 2:
			request("QUIT", 4);
			alive--;
			break;
		default:
			h_error();
			state = ST_END;
			alive--;
			break;
		}
	}
	free(req);
	use(0);
	if (!H.shut && !H.ended)
		h_error();
	h_free();
	use(1);
	finish();
}
#else
static const char *const canned[] = {
	"MOIN 1 id", "PUSH 2", "NOOP", "QUIT", "BAIL out", "PING 1", "STATUS", "moin 0 id",
};
#ifdef MANY
/* A long session of one kind, then any two requests. */
void vp_main(void)
{
	int k, c, n = (int)VP_PICK(1, 7, 16, 100, MANY), kind = (int)vp_concrete(vp_upto(4));

	max_cmd = 5;
	setup("a");
	if (kind == 4) {
		for (k = 0; k < n; k++)
			request(k % 2 ? "MOIN" : "NOOP", 4);
		vp_check(state == ST_HELLO, "the session goes on");
	}
	request("MOIN 1 id", 9);
	for (k = 0; k < n; k++)
		switch (kind < 4 ? kind : k % 4) {
		case 0:
			request("NOOP", 4);
			break;
		case 1:
			request("STATUS", 6);
			break;
		case 2:
			request("PUSH 6", 6);
			break;
		default:
			request("PUSH 5", 6);
			submit("[]xx\n", 5);
			break;
		}
	for (k = 0; k < 2 && state != ST_END; k++) {
		vp_check(state == ST_CONN, "the session goes on");
		c = (int)vp_concrete(vp_upto(sizeof(canned) / sizeof(canned[0]) - 1));
		request(canned[c], strlen(canned[c]));
		if (state == ST_DATA)
			submit("[\n", 2);
	}
	if (state == ST_END)
		vp_reach("session ended");
	else
		vp_reach("session still usable");
	finish();
}
#else
void vp_main(void)
{
	int k, free_step = (int)vp_concrete(vp_upto(K - 1));

	max_cmd = 5;
	setup("a");
	for (k = 0; k < K && state != ST_END && !H.ended; k++) {
		if (state == ST_DATA) {
			char *d = malloc(expect_bytes + 1);

			memset(d, 'x', expect_bytes);
			vp_check(expect_bytes <= max_cmd, "no more than the maximum is read");
			submit(d, expect_bytes);
			free(d);
			continue;
		}
		if (k == free_step) {
			size_t i, n = vp_concrete(vp_size(0, LMAX));
			char *l = malloc(n + 1);

			for (i = 0; i < n; i++)
				l[i] = (char)vp_u8();
			request(l, n);
			free(l);
		} else {
			int c = (int)vp_concrete(vp_upto(sizeof(canned) / sizeof(canned[0]) + 2));

			if (c < (int)(sizeof(canned) / sizeof(canned[0])))
				request(canned[c], strlen(canned[c]));
			else {
				h_reset_out();
				if (c == (int)(sizeof(canned) / sizeof(canned[0])))
					h_error();
				else {
					if (c == (int)(sizeof(canned) / sizeof(canned[0])) + 1)
						h_timeout();
					else
						h_too_long();
					vp_check(resp("BAIL"), "a BAIL response tells the client why");
					closes();
				}
				vp_reach("failure event");
			}
		}
	}
	if (state == ST_END)
		vp_reach("session ended");
	if (k == K && state == ST_CONN)
		vp_reach("session still usable");
	finish();
}
#endif
#endif
