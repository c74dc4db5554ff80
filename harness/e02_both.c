/*
 * E02: send_nsca and the server together: client.c, parse.c, input.c at one
 * end, server.c, auth.c, hash.c, fifo.c at the other one, tls.c and buffer.c
 * at both, all in one event loop.  What is ready happens in any order;
 * connections, pipes and transfers fail anywhere.
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <openssl/rand.h>
#include "vp.h"
#define HE_MAX 24
#define HS_CFD 20
#include "h_ev.h"
#include "h_ssl.h"
#include "h_confuse.h"
#include "tls.h"
#include "client.h"
#include "server.h"
#include "fifo.h"
#include "hash.h"
#ifdef OOM
# include "h_oom.h"             /* R01: an allocation fails at either end */
OOM_FUNCTIONS(n, 's')
OOM_FUNCTIONS(c, 'c')
#endif

#ifndef FAULTS
# define FAULTS 1
#endif
#ifndef RECORDS
# define RECORDS 2
#endif
#ifndef COMMANDS
# define COMMANDS 0             /* commands instead of check results */
#endif
#define FD_PIPE 101
#define HALF 256

int exit_code = EXIT_SUCCESS;
static int faults = FAULTS;
static bool calm, fault_seen, cut, client_gone;
#ifdef OOM
static bool server_gone;
static bool begun;
#endif
static bool fault(void)
{
	if (calm || faults == 0 || !vp_concrete(vp_bool()))
		return false;
	faults--;
	fault_seen = true;
	return true;
}

/* ------------------------------------------------------------- the input */
static struct { char x; bool allowed; char want[64]; size_t len; } rec[RECORDS];
static char text[RECORDS * (COMMANDS ? 64 : 16) + 1];
static size_t ntext, off;
int STUB(fcntl)(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	size_t k = ntext - off;

	vp_check(fd == 0, "the standard input is read");
	if (k > n)
		k = n;
	memcpy(b, text + off, k);
	off += k;
	return (ssize_t)k;
}
time_t STUB(time)(time_t *t) { if (t != NULL) *t = 5; return 5; }
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }
int STUB(RAND_bytes)(unsigned char *b, int n) { memset(b, 7, (size_t)n); return 1; }
BIO *STUB(BIO_push)(BIO *b, BIO *n) { b->accepted = n; return b; }
const BIO_METHOD *STUB(BIO_s_mem)(void) { return (const BIO_METHOD *)(const void *)&HS; }
const BIO_METHOD *STUB(BIO_f_base64)(void) { return (const BIO_METHOD *)(const void *)&HS; }
void STUB(BIO_set_flags)(BIO *b, int f) { (void)b; (void)f; }
int STUB(BIO_write)(BIO *b, const void *d, int n) { (void)b; (void)d; return n; }
void STUB(aio_init)(const void *p) { (void)p; }

/* --------------------------------------------------------- authorisations */
static struct h_sect sect;
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	int k;

	(void)re; (void)nm; (void)pm; (void)fl;
	vp_check(strncmp(s, "PROCESS_", 8) == 0, "patterns are matched against the command");
	k = s[8] == 'S';
	vp_check(k < RECORDS, "only what was in the input is submitted");
	return rec[k].allowed ? 0 : REG_NOMATCH;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict b, size_t n) { (void)e; (void)re; (void)b; (void)n; return 0; }
unsigned int set_psk(SSL *s, const char *h, char *id, unsigned m, unsigned char *p, unsigned n)
{
	(void)s; (void)h; (void)m; (void)n;
	strcpy(id, "a");
	memcpy(p, "key", 3);
	return 3;
}

/* ------------------------------------------------------------ the network */
static bool hello, greeted, accepted;
static struct { char data[HALF]; size_t head, tail; bool closed, told; } half[2]; /* to the server, to the client */
static SSL *client_ssl;
static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int hs_accept(void)
{
	if (accepted || !hello)
		return -1;
	accepted = true;
	return 1;
}
static int hs_io(int op, SSL *s, void *buf, int n)
{
	int me = s->bio->fd == HS_CFD, i;       /* 1: the client */

	vp_check(!(me && client_gone), "the client is gone");
	if (cut)
		return hs_failure(4);
	switch (op) {
	case HS_CONNECT:
		client_ssl = s;
		hello = true;
		return greeted ? 1 : hs_failure(0);
	case HS_ACCEPT: {
		char id[8];
		unsigned char ours[8], theirs[8];
		unsigned k;

		vp_check(hello, "a client connects");
		k = client_ssl->psk(client_ssl, NULL, id, sizeof(id), ours, sizeof(ours));
		vp_check(s->ctx->psk(s, id, theirs, sizeof(theirs)) == k && memcmp(ours, theirs, k) == 0, "both have the same key");
		greeted = true;
		return 1;
	}
	case HS_SHUTDOWN:
		half[!me].closed = half[!me].closed;
		half[me].closed = true;         /* (what goes from me) */
		if (half[!me].closed)
			return 1;
		if (!half[me].told) {
			half[me].told = true;
			return 0;
		}
		return hs_failure(0);
	case HS_READ:
		if (half[!me].head == half[!me].tail)
			return half[!me].closed ? hs_failure(3) : hs_failure(0);
		for (i = 0; i < n && half[!me].head < half[!me].tail; i++)
			((char *)buf)[i] = half[!me].data[half[!me].head++];
		return i;
	default:
		vp_check(!half[me].closed, "nothing is sent after the end");
		if (fault())
			switch (vp_concrete(vp_upto(2))) {
			case 0:
#if FAULTS > 0
				vp_reach("delayed");
#endif
				return hs_failure(1);
			case 1:
				n = (n + 1) / 2;
				break;
			default:
#if FAULTS > 0
				vp_reach("connection lost");
#endif
				cut = true;
				return hs_failure(4);
			}
		vp_harness(half[me].tail + (size_t)n <= HALF, "space in the network");
		for (i = 0; i < n; i++)
			half[me].data[half[me].tail++] = ((const char *)buf)[i];
		return n;
	}
}
#define from_client half[1]
#define from_server half[0]

/* --------------------------------------------------------------- the pipe */
static bool pipe_is_open;
static unsigned char got[RECORDS * 64];
static size_t ngot;
int STUB(open)(const char *path, int flags, ...)
{
	(void)path; (void)flags;
	vp_check(!pipe_is_open, "the command file is opened once");
	if (fault()) {
#if FAULTS > 0
		vp_reach("no reader");
#endif
		errno = ENXIO;
		return -1;
	}
	pipe_is_open = true;
	return FD_PIPE;
}
int STUB(fstat)(int fd, struct stat *sb)
{
	vp_check(fd == FD_PIPE && pipe_is_open, "status of the opened descriptor");
	memset(sb, 0, sizeof(*sb));
	sb->st_mode = S_IFIFO | 0600;
	return 0;
}
int STUB(close)(int fd)
{
	vp_check(fd == FD_PIPE && pipe_is_open, "only open descriptors are closed, once");
	pipe_is_open = false;
	return 0;
}
ssize_t STUB(write)(int fd, const void *buf, size_t n)
{
	size_t i;

	vp_check(fd == FD_PIPE && pipe_is_open, "the pipe is written to");
	vp_check(n > 0 && n <= PIPE_BUF, "no write exceeds what is atomic");
	if (fault()) {
#if FAULTS > 0
		vp_reach("pipe not writable");
#endif
		errno = vp_concrete(vp_bool()) ? EAGAIN : EPIPE;
		return -1;
	}
	vp_check(ngot + n <= sizeof(got), "nothing is delivered twice");
	for (i = 0; i < n; i++)
		got[ngot++] = ((const unsigned char *)buf)[i];
	return (ssize_t)n;
}
int STUB(mkstemp)(char *t) { (void)t; vp_check(0, "nothing is too large for the pipe"); return -1; }
#if HAVE_POSIX_AIO
int STUB(sigaction)(int s, const struct sigaction *restrict a, struct sigaction *restrict o) { (void)s; (void)a; (void)o; return 0; }
int STUB(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int STUB(__libc_current_sigrtmin)(void) { return 34; }
void STUB(ev_async_send)(ev_async *w) { (void)w; vp_check(0, "no request completes"); }
#endif

/* --------------------------------------------------------------- the loop */
static int retries;
static bool ready(int i)
{
	ev_io *w = HE.tab[i].w;

	if (HE.tab[i].type == HE_TIMER) {       /* The time-outs are T04's. */
		ev_timer *t = HE.tab[i].w;

		return t->at <= HE_NOW + 10. && retries <= FAULTS;
	}
	if (HE.tab[i].type != HE_IO)
		return false;
	switch (w->fd) {
	case 3:
		return hello && !accepted;
	case HS_FD:
		return cut || w->events & EV_WRITE || from_client.head != from_client.tail || from_client.closed || client_gone;
	case HS_CFD:
		if (client_gone)
			return false;
		return cut || w->events & EV_WRITE || from_server.head != from_server.tail || from_server.closed || (greeted && from_client.tail == 0);
	case 0:
		return !client_gone;
	default:
		vp_check(w->fd == FD_PIPE && pipe_is_open, "only open descriptors are watched");
		return true;
	}
}
static bool turn(void)
{
	int i, n = 0, list[HE_MAX];

#ifdef OOM
	vp_check(!oom_seen || server_gone || client_gone, "without memory the program doesn't go on");
#endif
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type != 0 && ready(i))
			list[n++] = i;
	if (n == 0)
		return false;
	i = list[calm || n == 1 ? 0 : (int)vp_concrete(vp_upto((unsigned long)n - 1))];
	if (HE.tab[i].type == HE_TIMER) {
		HE_NOW += 10.;
		retries++;
		he_fire(HE.tab[i].w, EV_TIMER);
	} else
		he_fire(HE.tab[i].w, ((ev_io *)HE.tab[i].w)->events & (EV_READ | EV_WRITE));
	he_run_pending();
	return true;
}
static server_state *server;
/* The client has ended, or given up; the server goes on. */
static void finish(bool ended)
{
	int i, k;
	size_t p = 0;

	for (i = 0; i < 60 && turn(); i++)
		;
	vp_check(i < 60, "in the end there is nothing left to do");
	for (i = 0; i < RECORDS && p < ngot; i++) {
		bool same = true;

		vp_check(rec[i].allowed, "nothing is delivered that the client may not submit");
		vp_check(ngot - p >= rec[i].len, "commands are delivered whole");
		for (k = 0; k < (int)rec[i].len; k++)
			same = same & (got[p + (size_t)k] == (unsigned char)rec[i].want[k]);
		vp_check(same, "what is delivered is the beginning of what was to be submitted");
		p += rec[i].len;
	}
	vp_check(p == ngot, "nothing is delivered twice");
#ifdef OOM
	vp_check(server_gone || HS.live_ssl <= (ended ? 0 : 1), "the server releases the connection");
#else
	vp_check(HS.live_ssl == (ended ? 0 : 1), "the server releases the connection");
#endif
	if (ended && exit_code == EXIT_SUCCESS) {
		vp_check(i == RECORDS, "a successful client's commands are all delivered");
#if FAULTS > 0
		if (fault_seen)
			vp_reach("success in spite of a failure");
#endif
		vp_reach("success");
	} else {
		vp_reach("failure");
		if (i > 0)
			vp_reach("failure, but something was delivered");
	}
	if (ended) {
		bool all = true;

		for (k = 0; k < RECORDS; k++)
			all = all & rec[k].allowed;
		vp_check(exit_code == EXIT_SUCCESS || cut || !all, "the client succeeds if nothing is wrong");
	}
}
void STUB(exit)(int c)
{
	int i;

	vp_check(c == EXIT_FAILURE, "errors are reported");
#ifdef OOM
	if (oom_seen && oom_side == 's' && !server_gone) {
		/* The client goes on alone. */
		server_gone = cut = true;
		vp_reach("server out of memory");
		for (i = 0; i < HE_MAX; i++)
			switch (HE.tab[i].type) {
			case HE_IO:
				if (((ev_io *)HE.tab[i].w)->fd != HS_CFD && ((ev_io *)HE.tab[i].w)->fd != 0)
					HE.tab[i].type = 0;
				break;
			case HE_TIMER:  /* (the others never expire) */
				if (((ev_timer *)HE.tab[i].w)->at > HE_NOW + 10.)
					break;
				/* FALLTHROUGH */
			default:
				HE.tab[i].type = 0;
			}
		for (i = 0; i < HE.npend; i++)
			if (HE.pend[i].w != NULL && !(((ev_io *)HE.pend[i].w)->fd == HS_CFD || ((ev_io *)HE.pend[i].w)->fd == 0))
				he_unpend(HE.pend[i].w);
		pipe_is_open = false;
		if (begun)
			finish(true);
		vp_stop();
	}
	if (oom_seen && oom_side == 'c') {
		cut = true;     /* as the client ends */
		vp_reach("client out of memory");
	}
#endif
	vp_check(cut && !client_gone, "the client only gives up if the connection is lost");
	client_gone = true;
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && (((ev_io *)HE.tab[i].w)->fd == HS_CFD || ((ev_io *)HE.tab[i].w)->fd == 0))
			HE.tab[i].type = 0;
	for (i = 0; i < HE.npend; i++)
		if (HE.pend[i].w != NULL && (((ev_io *)HE.pend[i].w)->fd == HS_CFD || ((ev_io *)HE.pend[i].w)->fd == 0))
			he_unpend(HE.pend[i].w);
	vp_reach("gave up");
	finish(false);
	vp_stop();
}

void vp_main(void)
{
	int k, i, end = (int)vp_concrete(vp_upto(2));

	if (end == 0)
		vp_reach("the end is missing");
	HE_NOW = 1.0;
	hash_new(2);
	h_sect_init(&sect, "a");
	sect.opt[2].n = 1;
	sect.password = (char *)"key";
	hash_insert("a", &sect);
	for (k = 0; k < RECORDS; k++) {
		rec[k].x = (char)vp_u8();
		rec[k].allowed = vp_bool();
		vp_assume(rec[k].x != '\n' && rec[k].x != '\t' && rec[k].x != '\r' && rec[k].x != '\27' && rec[k].x != '\\' && rec[k].x != '\0');
		strcpy(rec[k].want, k == 0 ? "[5] PROCESS_HOST_CHECK_RESULT;h;0;x" : "[5] PROCESS_SERVICE_CHECK_RESULT;h;s;1;x");
		rec[k].len = strlen(rec[k].want);
		strcpy(text + ntext, COMMANDS ? rec[k].want + 4 : k == 0 ? "h\t0\tx" : "h\ts\t1\tx");
		ntext += strlen(text + ntext);
		rec[k].want[rec[k].len++] = rec[k].x;
		rec[k].want[rec[k].len++] = '\n';
		text[ntext++] = rec[k].x;
		if (k < RECORDS - 1 || end > 0)
			text[ntext++] = '\n';
		if (!COMMANDS && (k < RECORDS - 1 || end > 1)) {
			text[ntext++] = '\27';
			text[ntext++] = '\n';
		}
	}
	server = server_start("*:5668", "PSK", "/cmd", "/t", 100, 0, 60.);
#ifdef OOM
	begun = true;
#endif
	(void)client_start("srv:1", "PSK", 60., COMMANDS ? CLIENT_MODE_COMMAND : CLIENT_MODE_CHECK_RESULT, '\t', '\27');
	he_run_pending();
	finish(true);
	i = he_active();
	vp_check(i == 1 + (pipe_is_open ? 0 : 1), "nothing of the session is left over");
	server_stop(server);
}
