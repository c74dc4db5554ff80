/*
 * L07: every signal, several watchers of one, and many notifications in the
 * bundled event library.
 */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#define SIGS 64
#define EACH 2                          /* watchers of a signal */
#define ASYNCS 70
#define ALL (SIGS * EACH + ASYNCS)

static ev_signal sig[SIGS * EACH];
static ev_async as[ASYNCS];
static bool active[ALL];
static int owed[ALL];
static bool running;
static void (*handler[SIGS + 1])(int);
static int bytes;

/* ------------------------------------------------------------- the system */
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = 1;
	ts->tv_nsec = 0;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = 1;
	tv->tv_usec = 0;
	return 0;
}
int STUB(pipe)(int *p) { p[0] = 3; p[1] = 4; return 0; }
int STUB(pipe2)(int *p, int f) { (void)f; return STUB(pipe)(p); }
int STUB(fcntl)(int fd, int cmd, ...) { (void)cmd; vp_check(fd == 3 || fd == 4, "the library's own descriptor"); return 0; }
ssize_t STUB(write)(int fd, const void *b, size_t n)
{
	(void)b;
	vp_check(fd == 4 && n == 1, "the library writes to its own descriptor");
	bytes++;
	return 1;
}
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	ssize_t r = (ssize_t)n < bytes ? (ssize_t)n : bytes;

	vp_check(fd == 3, "the library reads from its own descriptor");
	if (r == 0) {
		errno = EAGAIN;
		return -1;
	}
	memset(b, 0, (size_t)r);
	bytes -= (int)r;
	return r;
}
static void set_handler(int n, void (*f)(int))
{
	vp_check(n > 0 && n <= SIGS, "a signal");
	handler[n] = f == SIG_DFL || f == SIG_IGN ? NULL : f;
}
int STUB(sigaction)(int n, const struct sigaction * restrict a, struct sigaction * restrict o)
{
	(void)o;
	if (a != NULL)
		set_handler(n, a->sa_handler);
	return 0;
}
void (*STUB(signal)(int n, void (*f)(int)))(int) { set_handler(n, f); return SIG_DFL; }
int STUB(sigfillset)(sigset_t *s) { memset(s, 0xff, sizeof(*s)); return 0; }
int STUB(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int STUB(sigaddset)(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int STUB(sigdelset)(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int STUB(sigprocmask)(int how, const sigset_t * restrict s, sigset_t * restrict o) { (void)how; (void)s; (void)o; return 0; }
int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	(void)timeout;
	vp_check(n == 1 && p[0].fd == 3 && (p[0].events & POLLIN), "the library watches its own pipe");
	p[0].revents = bytes > 0 ? POLLIN : 0;
	return bytes > 0;
}

void vp_interrupt(void) { }

/* ------------------------------------------------------------- the program */
static void called(int k, int revents, int event)
{
	vp_check(running && revents == event, "the callback is told what happened");
	vp_check(active[k] && owed[k], "a callback is called for what happened, and once");
	owed[k] = 0;
}
static void signalled(ev_signal *w, int revents)
{
	int i = (int)(w - sig);

	vp_check(i >= 0 && i < SIGS * EACH, "a watcher of ours");
	vp_check(w->signum == 1 + i / EACH, "the watcher's signal stays what it is");
	called(i, revents, EV_SIGNAL);
}
static void notified(ev_async *w, int revents)
{
	int i = (int)(w - as);

	vp_check(i >= 0 && i < ASYNCS, "a watcher of ours");
	called(SIGS * EACH + i, revents, EV_ASYNC);
}
static void raise_it(int n)             /* a signal */
{
	int i;
	bool any = false;

	for (i = 0; i < EACH; i++)
		any = any || active[(n - 1) * EACH + i];
	vp_check(any == (handler[n] != NULL), "a signal is caught while it is waited for");
	if (!any)
		return;
	for (i = 0; i < EACH; i++)
		owed[(n - 1) * EACH + i] = active[(n - 1) * EACH + i];
	errno = 4242;
	handler[n](n);
	vp_check(errno == 4242, "the interrupted code finds errno as it was");
}
static void send_it(int i)
{
	if (!active[SIGS * EACH + i])
		return;
	owed[SIGS * EACH + i] = 1;
	ev_async_send(EV_DEFAULT_UC_ &as[i]);
}
static void start(int k)
{
	if (active[k])
		return;
	active[k] = true;
	if (k < SIGS * EACH)
		ev_signal_start(EV_DEFAULT_UC_ &sig[k]);
	else
		ev_async_start(EV_DEFAULT_UC_ &as[k - SIGS * EACH]);
}
static void stop(int k)
{
	active[k] = false;
	owed[k] = 0;
	if (k < SIGS * EACH)
		ev_signal_stop(EV_DEFAULT_UC_ &sig[k]);
	else
		ev_async_stop(EV_DEFAULT_UC_ &as[k - SIGS * EACH]);
}
static void turn(void)
{
	int k;

	running = true;
	ev_run(EV_DEFAULT_UC_ EVRUN_NOWAIT);
	running = false;
	for (k = 0; k < ALL; k++)
		vp_check(owed[k] == 0, "nothing that happened is forgotten");
}
static void happens(int what)
{
	int i;

	for (i = 0; i < SIGS; i++)
		if (what == SIGS || what == i)
			raise_it(1 + i);
	for (i = 0; i < ASYNCS; i++)
		if (what >= SIGS || what == i)
			send_it(i);
}
void vp_main(void)
{
	int k, what;

	vp_harness(ev_default_loop(EVBACKEND_POLL | EVFLAG_NOENV), "a loop");
	for (k = 0; k < SIGS * EACH; k++)
		ev_signal_init(&sig[k], signalled, 1 + k / EACH);
	for (k = 0; k < ASYNCS; k++)
		ev_async_init(&as[k], notified);
	if (vp_concrete(vp_bool()))
		for (k = 0; k < ALL; k++)
			start(k);
	else
		for (k = ALL; k-- > 0;)
			start(k);
	what = (int)vp_concrete(vp_upto(SIGS + 1));
	happens(what);
	turn();
	/* One, every other one, or one watcher of each signal is stopped, before or after it happens again. */
	switch (vp_concrete(vp_upto(2))) {
	case 0:
		stop(what * EACH);
		break;
	case 1:
		for (k = 0; k < ALL; k += 2)
			stop(k);
		break;
	case 2:
		for (k = 0; k < ALL; k++)
			if (k % 3 != 0)
				stop(k);
		break;
	}
	happens(what);
	if (vp_concrete(vp_bool()))
		for (k = 0; k < ALL; k += 5)
			if (active[k])
				stop(k);
	turn();
	for (k = 0; k < ALL; k++)
		start(k);
	happens(SIGS);
	turn();
	turn();
	vp_reach("done");
}
