/*
 * C04: the client's side of the dialogue.
 * MODE 0: client.c and parse.c on stand-ins for the TLS layer and the input
 * reader; MODE 1: with the real tls.c, input.c and buffer.c on stand-ins for
 * OpenSSL and read(), every call failing in every way.
 */
#include <config.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <openssl/rand.h>
#include "vp.h"
#include "h_ev.h"
#include "tls.h"
#include "client.h"
#include "input.h"
#include "conf.h"
#include "auth.h"
#if MODE == 0
# include "h_tls.h"
#else
# include "h_ssl.h"
#endif

#ifndef K
# define K 6
#endif
#ifndef LMAX
# define LMAX 7
#endif
#ifndef RECORDS
# define RECORDS 2
#endif
conf *cfg;
int exit_code = EXIT_SUCCESS;
unsigned int set_psk(SSL *s, const char *h, char *i, unsigned m, unsigned char *p, unsigned n)
{ (void)s; (void)h; (void)i; (void)m; (void)p; (void)n; return 0; }
time_t STUB(time)(time_t *t) { if (t != NULL) *t = 5; return 5; }
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }

/* The session ID. */
static unsigned char rnd[16];
static int nrnd;
static char mem[12] = "c2/+ZXhB\0\0\0";
int STUB(RAND_bytes)(unsigned char *b, int n)
{
	vp_check(n > 0 && n <= 16, "a few random bytes are requested");
	nrnd = n;
	memset(b, 7, (size_t)n);
	memset(rnd, 7, (size_t)n);
	return 1;
}
#if MODE == 0
struct bio_st { BIO *next; };
BIO *STUB(BIO_new)(const BIO_METHOD *m) { (void)m; return calloc(1, sizeof(struct bio_st)); }
void STUB(BIO_free_all)(BIO *b) { while (b != NULL) { BIO *n = b->next; free(b); b = n; } }
BIO *STUB(BIO_push)(BIO *b, BIO *n) { b->next = n; return b; }
long STUB(BIO_ctrl)(BIO *b, int cmd, long l, void *p)
{
	(void)l;
	if (cmd != BIO_CTRL_INFO)
		return 1;
	(void)b;
	*(char **)p = mem;
	return 8;
}
#else
BIO *STUB(BIO_push)(BIO *b, BIO *n) { b->accepted = n; return b; }
#endif
const BIO_METHOD *STUB(BIO_s_mem)(void) { return (const BIO_METHOD *)(const void *)mem; }
const BIO_METHOD *STUB(BIO_f_base64)(void) { return (const BIO_METHOD *)(const void *)mem; }
void STUB(BIO_set_flags)(BIO *b, int f) { (void)b; vp_check(f == BIO_FLAGS_BASE64_NO_NL, "without newlines"); }
int STUB(BIO_write)(BIO *b, const void *d, int n)
{
	(void)b;
	vp_check(n == nrnd && memcmp(d, rnd, (size_t)n) == 0, "the session ID is made of all the random bytes");
	return n;
}

/* What the input holds, and what is to be submitted for it. */
static int mode;
static struct { const char *in, *out; } menu[2][6] = {
	{ /* check results */
		{ "h\t0\tok\n", "[5] PROCESS_HOST_CHECK_RESULT;h;0;ok\n" },
		{ "\r\nh\ts\t1\ta\tb", "[5] PROCESS_SERVICE_CHECK_RESULT;h;s;1;a\tb\n" },
		{ "h\ts\t1\ta\nb\\c\n", "[5] PROCESS_SERVICE_CHECK_RESULT;h;s;1;a\\nb\\\\c\n" },
		{ "\n\r\n", "" }, { "", "" }, { "h\tx", NULL } },
	{ /* commands */
		{ "[1] A;b", "[1] A;b\n" }, { " [1] A;b", "[1] A;b\n" }, { "A;b", "[5] A;b\n" },
		{ "", "" }, { "\r", "" }, { "]", "[5] ]\n" } }
};
static int nrec, rec[RECORDS + 1], at; /* (the next record) */
static bool calm;              /* the server is content */

enum { MOIN, IDLE, PUSH, CMD, QUIT, OVER };
static int st = MOIN;
static bool failed;
static const char *current;

static bool is_okay(const char *l) { return strcasecmp(l, "OKAY") == 0; }
static bool starts(const char *l, const char *w) { return strncasecmp(l, w, strlen(w)) == 0; }
static bool is_grumpy(const char *l) { return starts(l, "FAIL") || starts(l, "BAIL"); }
/* 1: a MOIN response for version 1, 0: not, -1: not quite. */
static int is_moin(const char *l)
{
	const char *p = l + 4;

	if (!starts(l, "MOIN"))
		return 0;
	if (*p != ' ') {
		while (*p != '\0' && *p != ' ' && *p != '\t')
			p++;
		while (*p == ' ' || *p == '\t')
			p++;
		return *p == '\0' ? 0 : -1;
	}
	p++;
	if (*p == '1' && p[1] == '\0')
		return 1;
	if (*p == '\0')
		return 0;
	if (p[1] == '\0')
		return 0;
	return -1;
}

#if MODE == 0
static void (*connected)(tls_state *);
static bool ctx_live, input_live, input_asked;
static void (*chunk_cb)(input_state * restrict, char * restrict);
static void (*eof_cb)(input_state *);
static input_state *in;
static void expect_push(const char *cmd)
{
	current = cmd;
	st = PUSH;
}
static void finish_bad(void)
{
	failed = true;
	st = OVER;
}
void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE, "errors are reported");
	vp_check(st == IDLE && mode == CLIENT_MODE_CHECK_RESULT && at > 0 && menu[0][rec[at - 1]].out == NULL, "the client only gives up on unusable input");
	vp_check(H.out_len == 0 && H.pending == R_NONE, "nothing is submitted for unusable input");
#if !defined(SIZES) && !defined(MANY)
	vp_reach("unusable input");
#endif
	vp_stop();
}
tls_client_state *tls_client_start(const char *ciphers)
{
	vp_check(strcmp(ciphers, "CIPHERS") == 0, "the ciphers are passed on");
	ctx_live = true;
	return calloc(1, sizeof(tls_client_state));
}
void tls_client_stop(tls_client_state *c)
{
	vp_check(ctx_live, "the TLS context is released once");
	ctx_live = false;
	free(c);
}
static void *conn_data;
static bool at_once;
void tls_connect(tls_client_state *c, const char * restrict server, ev_tstamp timeout, int flags, void h(tls_state *), void to(tls_state *),
    unsigned int psk(SSL *, const char *, char *, unsigned int, unsigned char *, unsigned int))
{
	vp_check(strcmp(server, "srv:1") == 0 && timeout == 5., "server and timeout are passed on");
	vp_check(flags == TLS_AUTO_DIE && to == NULL && psk == set_psk, "TLS problems end the client; the key is provided by set_psk()");
	conn_data = c->data;
	connected = h;
	h_new(NULL, "srv", c->data);
	if (at_once)
		h(H.tls);
}
input_state *input_start(char sep)
{
	vp_check(st == MOIN && !input_live, "the input is read after the handshake");
	vp_check(sep == (mode == CLIENT_MODE_COMMAND ? '\n' : '\27'), "records are separated as requested, commands by newlines");
	input_live = true;
	st = IDLE;
	return in = calloc(1, sizeof(input_state));
}
void input_on_eof(input_state *i, void h(input_state *)) { vp_check(i == in, "the input"); eof_cb = h; }
void input_stop(input_state *i)
{
	vp_check(i == in && input_live, "the input is released once");
	input_live = input_asked = false;
	free(i);
}
static void supply(void)
{
	input_asked = false;
	if (at < nrec) {
		const char *want = menu[mode == CLIENT_MODE_COMMAND][rec[at]].out;
		const char *text = menu[mode == CLIENT_MODE_COMMAND][rec[at++]].in;

		h_reset_out();
		if (want != NULL && want[0] != '\0')
			expect_push(want);
		chunk_cb(in, strdup(text));
		vp_check(want != NULL, "unusable input is refused");
	} else {
		h_reset_out();
		st = QUIT;
		eof_cb(in);
		input_stop(in);
	}
}
void input_read_chunk(input_state *i, void h(input_state * restrict, char * restrict))
{
	vp_check(i == in && input_live && !input_asked, "one record at a time is requested");
	vp_check(st == IDLE, "the next record is requested after the previous one was acknowledged");
	vp_check(H.out_len == 0 && H.pending == R_NONE, "nothing else happens meanwhile");
	chunk_cb = h;
	input_asked = true;
#ifdef MANY
	if (calm)
		return;
#endif
	if (vp_concrete(vp_bool()))
		supply();
}
static bool budget = true;
/* What was written must be this and a response be awaited. */
static void wrote(const char *s, unsigned lines)
{
	vp_check(H.out_len == strlen(s) && memcmp(H.out, s, H.out_len) == 0 && H.lines == lines, "exactly the expected data is sent");
	vp_check(H.pending == R_LINE, "the response is awaited");
}
static void check_sent(void)
{
	char push[24];

	switch (st) {
	case MOIN:
		wrote("MOIN 1 c2/+ZXhB", 1);
		break;
	case IDLE:
		vp_check(input_asked && H.out_len == 0 && H.pending == R_NONE, "the next record is requested");
		break;
	case PUSH:
		snprintf(push, sizeof(push), "PUSH %u", (unsigned)strlen(current));
		wrote(push, 1);
#ifdef SIZES
		if (strlen(current) > 60)
			vp_reach("a large record");
#endif
		break;
	case CMD:
		wrote(current, 0);
		break;
	case QUIT:
		wrote("QUIT", 1);
		vp_check(!input_live, "the input is released");
		break;
	default:
		vp_check(H.shut && H.pending == R_NONE, "the connection is shut down");
		vp_check(!ctx_live && !input_live, "everything is released");
		vp_check((exit_code != EXIT_SUCCESS) == failed, "the exit status says whether everything was acknowledged");
	}
}
static void response(void)
{
	static const char *const typical[] = { "MOIN 1", "OKAY", "FAIL no", "BAIL", "hello" };
	char *l, *copy;
	size_t w = calm ? st != MOIN : budget ? vp_concrete(vp_upto(6)) : vp_concrete(vp_upto(4));
	bool good = false;

	if (w >= 5) { /* OKAY or MOIN and something, or anything */
		budget = false;
		l = vp_string(0, w == 5 ? LMAX : 3);
		if (w == 6) {
			copy = malloc(8);
			strcpy(copy, st == MOIN ? "MOIN" : "OKAY");
			strcat(copy, l);
			free(l);
			l = copy;
		}
	} else
		l = strdup(typical[w]);
	copy = strdup(l);
	if (st == MOIN && is_moin(copy) < 0) /* Anything goes. */
		vp_stop();
	good = st == MOIN ? is_moin(copy) == 1 : is_okay(copy);
	h_reset_out();
	if (!good)
		finish_bad();
	else if (st == PUSH)
		st = CMD;
	else if (st == CMD)
		st = IDLE;
	else if (st == QUIT)
		st = OVER;
	h_deliver(l, strlen(l));
	if (!good) {
		if (is_grumpy(copy)) {
			vp_check(H.out_len == 0, "nothing is sent after a failure");
			vp_reach("grumpy");
		} else {
			vp_check(H.out_len > 5 && memcmp(H.out, "BAIL ", 5) == 0 && H.lines == 1, "unexpected responses are answered with BAIL");
			vp_reach("unexpected");
		}
	}
	free(copy);
	free(l == copy ? NULL : l);
}
void vp_main(void)
{
	int i;

	mode = vp_concrete(vp_bool()) ? CLIENT_MODE_COMMAND : CLIENT_MODE_CHECK_RESULT;
#if defined(MANY)       /* a long session, and anything after n answers */
	nrec = (int)VP_PICK(1, 20, 100, 256, RECORDS);
	for (i = 0; i < nrec; i++)
		rec[i] = i % (mode == CLIENT_MODE_COMMAND ? 3 : 2);
	budget = false;
	calm = true;
#elif defined(SIZES)    /* a record of any size, between others */
	{
		static const char *const head[2] = { "h\t0\t", "[5] A;" }, *const cmd[2] = { "[5] PROCESS_HOST_CHECK_RESULT;h;0;", "[5] A;" };
		bool c = mode == CLIENT_MODE_COMMAND;
		char *x = vp_filled(VP_PICK(60, 64, 93, 94, 250, 256, 993, 994, 1000, 2040, 2048, 4096, 9999, 32768, 65536, 70001)), *p, *q;

		for (p = x; *p != '\0'; p++) {
			if (p != x && p[1] != '\0')
				*p = (char)('A' + (p - x) % 26);
			vp_assume(*p != '\n' && *p != '\t' && *p != '\\' && *p != '\r');
		}
		menu[c][0].in = p = malloc(strlen(x) + 64);
		strcpy(p, head[c]);
		strcat(p, x);
		menu[c][0].out = q = malloc(strlen(x) + 64);
		strcpy(q, cmd[c]);
		strcat(q, x);
		strcat(q, "\n");
		nrec = RECORDS;
		for (i = 0; i < nrec; i++)
			rec[i] = i % 2;
		budget = false;
	}
#else
	nrec = (int)vp_concrete(vp_upto(RECORDS));
	for (i = 0; i < nrec; i++)
		rec[i] = (int)vp_concrete(vp_upto(5));
#endif
	at_once = vp_concrete(vp_bool());
	(void)client_start("srv:1", "CIPHERS", 5., mode, '\t', '\27');
	vp_check(ctx_live && conn_data != NULL, "the connection is started");
	if (!at_once)
		connected(H.tls);
	check_sent();
	for (i = 0; i < K && st != OVER; i++) {
#ifdef MANY
		/* The last records may meet anything. */
		if (at + 1 >= nrec)
			calm = false;
#endif
		if (H.pending == R_LINE)
			response();
		else if (input_asked)
			supply();
		else
			vp_check(0, "the session gets on");
		check_sent();
	}
	if (st == OVER && !failed) {
		vp_check(at == nrec, "all records were submitted");
		vp_reach("success");
	}
	vp_stop();
}

#else /* the real TLS layer and reader */

static const char text[] = "h\t0\tok\n\27\nh\ts\t1\tx\n\27";
static size_t off;
#ifndef FAILS
# define FAILS 2
#endif
static int read_budget = 1, fails = FAILS, nreq, acked;
static bool quit_acked, told;
static char sent[256];          /* what the server got */
static size_t nsent, nparsed, to_come;
static const char *reply;
static int nreply;
static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int hs_accept(void) { return -1; }
static bool finished;

void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE, "errors are reported");
	vp_reach("gave up");
	vp_stop();
}
int STUB(fcntl)(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	size_t k = sizeof(text) - 1 - off;

	(void)fd;
	if (read_budget > 0 && vp_concrete(vp_bool())) {
		read_budget--;
		errno = EAGAIN;
		return -1;
	}
	if (k > n)
		k = n;
	memcpy(b, text + off, k);
	off += k;
	return (ssize_t)k;
}
/* The server: takes requests from what was sent, in order. */
static const char *serve(void)
{
	char *l = sent + nparsed;
	size_t i;
	static const char *const want[2] = { "[5] PROCESS_HOST_CHECK_RESULT;h;0;ok\n", "[5] PROCESS_SERVICE_CHECK_RESULT;h;s;1;x\n" };

	if (to_come > 0) {
		if (nsent - nparsed < to_come)
			return NULL;
		vp_check(acked < 2 && strlen(want[acked]) == to_come && memcmp(l, want[acked], to_come) == 0, "exactly the announced command is sent");
		nparsed += to_come;
		to_come = 0;
		acked++;
		return "OKAY\r\n";
	}
	for (i = nparsed; i + 1 < nsent && sent[i + 1] != '\n'; i++)
		;
	if (i + 1 >= nsent)
		return NULL;
	nparsed = i + 2;
	nreq++;
	if (memcmp(l, "MOIN 1 ", 7) == 0) {
		vp_check(nreq == 1, "the handshake comes first");
		return "MOIN 1\r\n";
	}
	if (memcmp(l, "PUSH ", 5) == 0) {
		to_come = (size_t)(l[5] - '0') * 10 + (size_t)(l[6] - '0');
		return "OKAY\r\n";
	}
	vp_check(memcmp(l, "QUIT\r\n", 6) == 0, "only known requests are sent");
	vp_check(acked == 2, "all commands were acknowledged before QUIT");
	quit_acked = true;
	return "OKAY\r\n";
}
static int trouble(void)
{
	fails--;
	return hs_failure((int)vp_concrete(vp_upto(HS_NFAIL - 1)));
}
static int hs_io(int op, SSL *s, void *buf, int n)
{
	int i;

	(void)s;
	if (op != HS_READ && fails > 0 && vp_concrete(vp_bool())) {
		i = trouble();
		return i == 0 && op == HS_SHUTDOWN ? -1 : i;
	}
	switch (op) {
	case HS_CONNECT:
		return 1;
	case HS_WRITE:
		vp_check(!finished, "nothing is sent after the end");
		vp_harness(nsent + (size_t)n < sizeof(sent), "space for what is sent");
		memcpy(sent + nsent, buf, (size_t)n);
		nsent += (size_t)n;
		return n;
	case HS_READ:
		if (reply == NULL && (reply = serve()) == NULL)
			return hs_failure(0);
		if (fails > 0 && vp_concrete(vp_bool())) {
			if (vp_concrete(vp_bool()))
				return trouble();
			fails--;
			reply = vp_concrete(vp_bool()) ? "FAIL no\r\n" : "huh?\r\n";
			finished = !(reply[0] == 'h'); /* (BAIL may be sent) */
			to_come = 0;
		}
		for (i = 0; i < n && reply[i] != '\0'; i++)
			((char *)buf)[i] = reply[i];
		reply += i;
		if (*reply == '\0')
			reply = NULL;
		return i;
	default:
		if (told)
			return 1;
		told = true;
		return 0;
	}
}
void vp_main(void)
{
	int i, j;

	HE_NOW = 1.0;
	(void)client_start("srv:1", "CIPHERS", 5., CLIENT_MODE_CHECK_RESULT, '\t', '\27');
	he_run_pending();
	for (i = 0; i < K; i++) {
		void *w = NULL;
		ev_timer *t = NULL;
		int ev = 0;

		for (j = 0; j < HE_MAX; j++) {
			if (HE.tab[j].type == HE_IO) {
				w = HE.tab[j].w;
				ev = ((ev_io *)w)->events & (EV_READ | EV_WRITE);
			} else if (HE.tab[j].type == HE_TIMER)
				t = HE.tab[j].w;
		}
		if (w == NULL)
			break;
		vp_check(t != NULL, "a living connection has its timer");
		he_fire(w, ev);
		he_run_pending();
	}
	vp_check(i < K, "the session ends");
	vp_check(he_active() == 0, "nothing is watched at the end");
	vp_check(HS.ssl == NULL && HS.live_bio == 0, "the connection is released");
	if (exit_code == EXIT_SUCCESS) {
		vp_check(acked == 2 && quit_acked, "success is reported only if everything was acknowledged");
		vp_check(off == sizeof(text) - 1, "the whole input was submitted");
		vp_reach("success");
	} else
		vp_reach("failure");
	vp_stop();
}
#endif
