/*
 * E01: the whole server (server.c, auth.c, hash.c, tls.c, buffer.c, fifo.c,
 * util.c) between two clients that speak the protocol and the named pipe.
 * Messages of the clients, the pipe's writability, its reader's coming and
 * going, retries, and lost connections happen in any order.
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#define HE_MAX 24
#define HS_FD 7
#define HS_FDS CLIENTS
#define CLIENTS 2
#include "h_ev.h"
#include "h_ssl.h"
#include "h_confuse.h"
#include "tls.h"
#include "server.h"
#include "fifo.h"
#include "hash.h"

#ifndef CMDS
# define CMDS 2, 1              /* commands per client */
#endif
#ifndef FAULTS
# define FAULTS 1               /* lost connections, split messages, full or absent pipes */
#endif
#define MAXCMD 3
#define LEN 6                   /* "[1]xy\n" */

void STUB(exit)(int c) { (void)c; vp_check(0, "the server does not exit"); vp_stop(); }
void STUB(aio_init)(const void *p) { (void)p; }

static const int cmds[CLIENTS] = { CMDS };
enum { NOT_SENT, SENT, ACKED, REFUSED };
static struct {
	SSL *s;
	bool gone;              /* the connection is lost or closed */
	int stage;              /* 0: MOIN, then PUSH and data for each command, then QUIT */
	bool waiting;           /* for a response */
	char msg[16];
	size_t len, sent, upto; /* what the peer sends, what was read, what has arrived */
	char resp[64];
	size_t nresp;
	struct { unsigned char x; int state; bool allowed; } cmd[MAXCMD];
} cl[CLIENTS];
static unsigned char pipe_got[CLIENTS * MAXCMD * LEN];
static size_t npipe;
static int faults = FAULTS;
static bool calm, fault_seen;

static bool fault(void)
{
	if (calm || faults == 0 || !vp_concrete(vp_bool()))
		return false;
	faults--;
	fault_seen = true;
	return true;
}

/* --------------------------------------------------------- authorisations */
static struct h_sect sect[CLIENTS];
static int whose(const struct h_sect *s) { return s == &sect[0] ? 0 : 1; }
/* Clients may submit what they may submit: this depends on the command. */
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	const struct h_pat *p = (const struct h_pat *)re;
	int c = whose(p->owner), k = s[0] - 'a';

	(void)nm; (void)pm; (void)fl;
	/* (Whether it is asked with the right text is up to S01.) */
	k -= c * MAXCMD;
	if (k < 0 || k >= cmds[c])
		return REG_NOMATCH;
	return cl[c].cmd[k].allowed ? 0 : REG_NOMATCH;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict b, size_t n) { (void)e; (void)re; (void)b; (void)n; return 0; }

/* ------------------------------------------------------------ the network */
static int accepted;
static bool hs_ssl_new_fails(void) { return false; }
static bool hs_peer_fails(void) { return false; }
static int hs_accept(void)
{
	if (accepted == CLIENTS)
		return -1;
	return accepted++ >= 0;
}
static int client_of(SSL *s)
{
	return s->bio->fd - HS_FD;
}
static void check_response(int c)
{
	int k = (cl[c].stage - 2) / 2;
	bool okay, fail;

	cl[c].resp[cl[c].nresp] = '\0';
	if (strchr(cl[c].resp, '\n') == NULL)
		return;
	vp_check(cl[c].waiting, "one response for each request");
	vp_check(cl[c].resp[cl[c].nresp - 1] == '\n', "one response for each request");
	okay = strncmp(cl[c].resp, "OKAY", 4) == 0;
	fail = strncmp(cl[c].resp, "FAIL ", 5) == 0;
	if (cl[c].stage == 1)
		vp_check(strncmp(cl[c].resp, "MOIN 1", 6) == 0, "the server talks to the client");
	else if (cl[c].stage % 2 == 0)
		vp_check(okay, "an announcement or the farewell is accepted");
	else {
		vp_check(okay || fail, "a submission is accepted or refused");
		k = (cl[c].stage - 3) / 2;
		vp_check(okay == cl[c].cmd[k].allowed, "just what the client may submit is acknowledged");
		cl[c].cmd[k].state = okay ? ACKED : REFUSED;
		if (okay)
			vp_reach("acknowledged");
		else
			vp_reach("refused");
	}
	cl[c].nresp = 0;
	cl[c].waiting = false;
}
static int hs_io(int op, SSL *s, void *buf, int n)
{
	unsigned char key[8];
	int c = client_of(s), i;
	size_t m;

	if (op == HS_ACCEPT) {
		char id[2] = { (char)('a' + c), '\0' };

		cl[c].s = s;
		vp_check(s->ctx->psk(s, id, key, sizeof(key)) == 1 && key[0] == 'p' + c, "each client has its own password");
		return 1;
	}
	if (op == HS_SHUTDOWN) {
		cl[c].gone = true;
		return 1;
	}
	if (cl[c].gone)
		return hs_failure(4);
	if (op == HS_READ) {
		m = cl[c].upto - cl[c].sent;
		if (m == 0)
			return hs_failure(0);
		vp_check(n > 0, "space for data");
		if (m > (size_t)n)
			m = (size_t)n;
		memcpy(buf, cl[c].msg + cl[c].sent, m);
		cl[c].sent += m;
		return (int)m;
	}
	if (fault()) {
		switch (vp_concrete(vp_upto(2))) {
		case 0:
			vp_reach("a delayed response");
			return hs_failure(1);
		case 1:
			n = 1;
			break;
		default:
			vp_reach("connection lost before the response");
			cl[c].gone = true;
			return hs_failure(4);
		}
	}
	vp_check((size_t)n < sizeof(cl[c].resp) - cl[c].nresp, "responses are short");
	for (i = 0; i < n; i++)
		cl[c].resp[cl[c].nresp++] = ((const char *)buf)[i];
	check_response(c);
	return n;
}

/* --------------------------------------------------------------- the pipe */
#define FD_PIPE 101
static bool pipe_is_open;
int STUB(open)(const char *path, int flags, ...)
{
	(void)path; (void)flags;
	vp_check(!pipe_is_open, "the command file is opened once");
	if (fault()) {
		vp_reach("no reader");
		errno = ENXIO;
		return -1;
	}
	pipe_is_open = true;
	return FD_PIPE;
}
int STUB(fstat)(int fd, struct stat *sb)
{
	vp_check(fd == FD_PIPE && pipe_is_open, "status of the opened descriptor");
	memset(sb, 0, sizeof(*sb));
	sb->st_mode = S_IFIFO | 0600;
	return 0;
}
int STUB(close)(int fd)
{
	vp_check(fd == FD_PIPE && pipe_is_open, "only open descriptors are closed, once");
	pipe_is_open = false;
	return 0;
}
ssize_t STUB(write)(int fd, const void *buf, size_t n)
{
	size_t i;

	vp_check(fd == FD_PIPE && pipe_is_open, "the pipe is written to");
	vp_check(n > 0 && n <= PIPE_BUF, "no write exceeds what is atomic");
	if (fault()) {
		if (vp_concrete(vp_bool())) {
			vp_reach("full pipe");
			errno = EAGAIN;
		} else {
			vp_reach("reader gone");
			errno = EPIPE;
		}
		return -1;
	}
	vp_check(npipe + n <= sizeof(pipe_got), "nothing is delivered twice");
	for (i = 0; i < n; i++)
		pipe_got[npipe++] = ((const unsigned char *)buf)[i];
	return (ssize_t)n;
}
int STUB(mkstemp)(char *t) { (void)t; vp_check(0, "nothing is too large for the pipe"); return -1; }
#if HAVE_POSIX_AIO
int STUB(sigaction)(int s, const struct sigaction *restrict a, struct sigaction *restrict o) { (void)s; (void)a; (void)o; return 0; }
int STUB(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int STUB(__libc_current_sigrtmin)(void) { return 34; }
void STUB(ev_async_send)(ev_async *w) { (void)w; vp_check(0, "no request completes"); }
#endif

/* --------------------------------------------------------------- the loop */
static void *listener;
static ev_io *pipe_watcher(void)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && ((ev_io *)HE.tab[i].w)->fd == FD_PIPE)
			return HE.tab[i].w;
	return NULL;
}
static ev_io *conn_watcher(int c, int events)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && HE.tab[i].w != listener && cl[c].s != NULL
		    && ((ev_io *)HE.tab[i].w)->fd == HS_FD + c && ((ev_io *)HE.tab[i].w)->events & events)
			return HE.tab[i].w;
	return NULL;
}
static ev_timer *retry_timer(void)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_TIMER && ((ev_timer *)HE.tab[i].w)->repeat == 0. && ((ev_timer *)HE.tab[i].w)->at <= HE_NOW + 10.)
			return HE.tab[i].w;
	return NULL;
}
static bool readable(int c)
{
	ev_io *w = conn_watcher(c, EV_READ);

	if (w == NULL)
		return false;
	he_fire(w, EV_READ);
	he_run_pending();
	return true;
}
/* The client's next message, if it is its turn. */
static bool talk(int c)
{
	int k;

	if (cl[c].gone || cl[c].waiting || cl[c].stage > 1 + 2 * cmds[c])
		return false;
	k = (cl[c].stage - 2) / 2;
	if (cl[c].stage == 0)
		strcpy(cl[c].msg, "MOIN 1 x\r\n");
	else if (cl[c].stage == 1 + 2 * cmds[c])
		strcpy(cl[c].msg, "QUIT\r\n");
	else if (cl[c].stage % 2 == 1)
		strcpy(cl[c].msg, "PUSH 6\r\n");
	else {
		strcpy(cl[c].msg, "[1]..\n");
		cl[c].msg[3] = (char)('a' + c * MAXCMD + k);
		cl[c].msg[4] = (char)cl[c].cmd[k].x;
		cl[c].cmd[k].state = SENT;
	}
	cl[c].len = cl[c].stage == 0 ? 10 : cl[c].stage == 1 + 2 * cmds[c] || cl[c].stage % 2 == 0 ? 6 : 8;
	cl[c].sent = 0;
	cl[c].upto = cl[c].len;
	cl[c].stage++;
	cl[c].waiting = true;
	if (fault()) {
		if (vp_concrete(vp_bool())) {
			vp_reach("a message in two pieces");
			cl[c].upto = cl[c].len / 2;
			vp_check(readable(c), "a client that has the word is listened to");
			cl[c].upto = cl[c].len;
		} else {
			/* The rest never arrives. */
			vp_reach("connection lost within a message");
			cl[c].upto = cl[c].len / 2;
			vp_check(readable(c), "a client that has the word is listened to");
			cl[c].gone = true;
		}
	}
	vp_check(readable(c), "a client that has the word is listened to");
	return true;
}
static bool step(int what)
{
	ev_io *w;

	switch (what) {
	case 0: case 1:
		return talk(what);
	case 2: case 3:         /* a response that could not be sent at once */
		w = conn_watcher(what - 2, EV_WRITE);
		if (w == NULL)
			return false;
		he_fire(w, EV_WRITE);
		he_run_pending();
		return true;
	case 4:
		w = pipe_watcher();
		if (w == NULL)
			return false;
		he_fire(w, EV_WRITE);
		he_run_pending();
		return true;
	default:
		if (retry_timer() == NULL)
			return false;
		HE_NOW += 10.;
		he_fire(retry_timer(), EV_TIMER);
		he_run_pending();
		return true;
	}
}

void vp_main(void)
{
	server_state *ctx;
	int c, k, i, turns, last[CLIENTS] = { -1, -1 };
	size_t p;

	HE_NOW = 1.0;
	hash_new(2);
	for (c = 0; c < CLIENTS; c++) {
		h_sect_init(&sect[c], c == 0 ? "a" : "b");
		sect[c].opt[2].n = 1;
		sect[c].password = c == 0 ? (char *)"p" : (char *)"q";
		hash_insert(sect[c].title, &sect[c]);
		for (k = 0; k < cmds[c]; k++) {
			cl[c].cmd[k].x = vp_u8();
			vp_assume(cl[c].cmd[k].x != '\n' && cl[c].cmd[k].x != '\0');
			cl[c].cmd[k].allowed = vp_bool();
		}
	}
	ctx = server_start("*:5668", "PSK", "/cmd", "/t", 100, 0, 60.);
	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == HE_IO && ((ev_io *)HE.tab[i].w)->fd == 3)
			listener = HE.tab[i].w;
	he_fire(listener, EV_READ);
	he_run_pending();
	vp_check(cl[0].s != NULL, "the clients are connected");
	if (cl[1].s == NULL) {
		he_fire(listener, EV_READ);
		he_run_pending();
	}
	vp_check(cl[1].s != NULL, "the clients are connected");
	for (turns = 0; turns < 40; turns++) {
		int what = (int)vp_concrete(vp_upto(6));

		if (what == 6) {
			/* Nobody has anything left to say? */
			for (c = 0; c < CLIENTS; c++)
				if (!cl[c].gone && (cl[c].waiting || cl[c].stage <= 1 + 2 * cmds[c]))
					vp_stop();
			break;
		}
		if ((what == 5 && HE_NOW > 10. * FAULTS) || !step(what))
			vp_stop();      /* (That cannot happen now.) */
	}
	vp_harness(turns < 40, "number of turns");
	/* In the end the pipe's reader gets what is left. */
	calm = true;
	for (turns = 0; turns < 12; turns++)
		if (!step(4) && !step(5))
			break;
	vp_check(npipe % LEN == 0, "commands are delivered whole");
	for (p = 0; p < npipe; p += LEN) {
		c = pipe_got[p + 3] >= 'a' + MAXCMD;
		k = pipe_got[p + 3] - 'a' - c * MAXCMD;
		vp_check(pipe_got[p] == '[' && pipe_got[p + 1] == '1' && pipe_got[p + 2] == ']' && pipe_got[p + 5] == '\n', "commands are delivered as submitted");
		vp_check(k >= 0 && k < cmds[c], "only submitted commands are delivered");
		vp_check(pipe_got[p + 4] == cl[c].cmd[k].x, "commands are delivered as submitted");
		vp_check(k > last[c], "each client's commands are delivered once and in order");
		last[c] = k;
		vp_check(cl[c].cmd[k].allowed, "nothing is delivered that its client may not submit");
		vp_check(cl[c].cmd[k].state == ACKED || cl[c].cmd[k].state == SENT, "nothing refused is delivered");
		cl[c].cmd[k].state = NOT_SENT;
		if (fault_seen)
			vp_reach("delivered in spite of a failure");
	}
	for (c = 0; c < CLIENTS; c++)
		for (k = 0; k < cmds[c]; k++)
			vp_check(cl[c].cmd[k].state != ACKED, "everything acknowledged is delivered");
	calm = true;
	for (c = 0; c < CLIENTS; c++)
		if (cl[c].gone)
			while (conn_watcher(c, EV_READ | EV_WRITE) != NULL) {
				ev_io *w = conn_watcher(c, EV_READ | EV_WRITE);

				he_fire(w, w->events & (EV_READ | EV_WRITE));
				he_run_pending();
			}
	vp_check(HS.live_ssl == 0, "no connection is left over");
	server_stop(ctx);
}
