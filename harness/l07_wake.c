/*
 * L07: signals, notifications from signal handlers or other threads, and idle
 * callbacks of the bundled event library.  Signals arrive at every system call
 * and every access to a volatile object of the library's code, and with THREADS,
 * other threads send their notifications interleaved at these points.
 */
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#ifndef RAISES
# define RAISES 2
#endif
#ifndef TURNS
# define TURNS 2
#endif
#define PIPE_MAX 2              /* bytes that fit in the pipe */
#ifndef FORKS
# define FORKS 0                /* times the process becomes its own child */
#endif
#define MAXFD 12
#define OBJECTS (2 + FORKS)

#ifndef NSIGW
# define NSIGW 2                /* signal watchers */
#endif
#ifndef NAS
# define NAS 2                  /* notification watchers */
#endif
#ifndef THREADS
# define THREADS 0
#endif
#ifndef SENDS
# define SENDS 2                /* of each thread */
#endif
#ifndef SWITCHES
# define SWITCHES 0
#endif

#ifdef SAME_SIGNAL
static const int signo[2] = { SIGHUP, SIGHUP };
#else
static const int signo[2] = { SIGHUP, SIGTERM };
#endif
static ev_signal sig[2];
static ev_async as[NAS];
static ev_idle idle;
static ev_timer timer;

/* --------------------------------------------------------- what is expected */
enum { AS0 = NSIGW, KINDS = NSIGW + NAS };
static struct {
	int raised, called;
	bool owed;              /* raised since the last call */
} want[KINDS];
static int switches, sending; /* how many threads are in the midst of it */
static bool active[KINDS], idle_active, quiet;
static int raises, in_signal, callbacks, idles, waits;
static void (*handler[2])(int);

/* ------------------------------------------------------------- the system */
static long clock_ms = 1000;
static struct { bool open, reads, writes; int obj; } fdt[MAXFD];        /* descriptors, and what they belong to */
static struct { int bytes; uint64_t counter; bool parents; } obj[OBJECTS];
static int nobj;
void vp_interrupt(void);
static int new_fd(int o, bool reads, bool writes)
{
	int fd;

	for (fd = 3; fd < MAXFD - 1 && fdt[fd].open; fd++)
		;
	vp_harness(fd < MAXFD - 1, "space for descriptors");
	fdt[fd].open = true;
	fdt[fd].obj = o;
	fdt[fd].reads = reads;
	fdt[fd].writes = writes;
	return fd;
}
static int new_obj(void)
{
	vp_check(nobj < OBJECTS, "the loop makes its pipe anew only after a fork");
	return nobj++;
}
static bool is_fd(int fd) { return fd >= 3 && fd < MAXFD && fdt[fd].open; }
static bool filled(int o) { return obj[o].bytes > 0 || obj[o].counter > 0; }
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = clock_ms / 1000;
	ts->tv_nsec = clock_ms % 1000 * 1000000;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = clock_ms / 1000;
	tv->tv_usec = clock_ms % 1000 * 1000;
	return 0;
}
int STUB(nanosleep)(const struct timespec *t, struct timespec *r)
{
	(void)r;
	vp_interrupt();
	clock_ms += t->tv_sec * 1000 + t->tv_nsec / 1000000;
	return 0;
}
int STUB(clock_nanosleep)(clockid_t id, int f, const struct timespec *t, struct timespec *r)
{
	(void)id; (void)f;
	return STUB(nanosleep)(t, r);
}
int STUB(select)(int n, fd_set * restrict a, fd_set * restrict b, fd_set * restrict c, struct timeval * restrict t)
{
	(void)a; (void)b; (void)c;
	vp_check(n == 0, "only to sleep");
	vp_interrupt();
	clock_ms += t->tv_sec * 1000 + t->tv_usec / 1000;
	return 0;
}
int STUB(pipe)(int *p)
{
	int o = new_obj();

	p[0] = new_fd(o, true, false);
	p[1] = new_fd(o, false, true);
	return 0;
}
int STUB(pipe2)(int *p, int f) { (void)f; return STUB(pipe)(p); }
int STUB(fcntl)(int fd, int cmd, ...) { (void)cmd; vp_check(is_fd(fd), "the library's own descriptor"); return 0; }
#ifdef EVENTFD
int STUB(eventfd)(unsigned n, int f)
{
	int o = new_obj();

	obj[o].counter = n;
	vp_check(f & EFD_NONBLOCK, "nothing blocks");
	return new_fd(o, true, true);
}
#endif
int STUB(dup2)(int a, int b)
{
	vp_check(is_fd(a) && is_fd(b), "the library's own descriptors");
	fdt[b] = fdt[a];
	return b;
}
static void epoll_closed(int fd);
int STUB(close)(int fd)
{
	epoll_closed(fd);
	vp_check(is_fd(fd), "the library closes its own descriptors only");
	fdt[fd].open = false;
	return 0;
}
ssize_t STUB(write)(int fd, const void *b, size_t n)
{
	ssize_t r;
	int o;

	vp_check(is_fd(fd) && fdt[fd].writes, "the library writes to its own descriptor");
	o = fdt[fd].obj;
	vp_check(!obj[o].parents, "the parent is not woken up");
#ifdef EVENTFD
	uint64_t v;

	vp_check(n == 8, "a number is written");
	memcpy(&v, b, 8);
	obj[o].counter += v;
	r = 8;
#else
	(void)b;
	vp_check(n == 1, "a byte is written");
	if (obj[o].bytes == PIPE_MAX) {
		errno = EAGAIN;
		return -1;
	}
	obj[o].bytes++;
	r = 1;
#endif
	vp_interrupt();
	return r;
}
ssize_t STUB(read)(int fd, void *b, size_t n)
{
	ssize_t r;
	int o;

	vp_interrupt();
	vp_check(is_fd(fd) && fdt[fd].reads, "the library reads from its own descriptor");
	o = fdt[fd].obj;
	vp_check(!obj[o].parents, "the parent's wake-ups are left alone");
#ifdef EVENTFD
	vp_check(n >= 8, "space for the counter");
	if (obj[o].counter == 0) {
		errno = EAGAIN;
		return -1;
	}
	memcpy(b, &obj[o].counter, 8);
	obj[o].counter = 0;
	r = 8;
#else
	if (obj[o].bytes == 0) {
		errno = EAGAIN;
		return -1;
	}
	r = (ssize_t)n < obj[o].bytes ? (ssize_t)n : obj[o].bytes;
	memset(b, 0, (size_t)r);
	obj[o].bytes -= (int)r;
#endif
	vp_interrupt();
	return r;
}
static void set_handler(int n, void (*f)(int))
{
	int i;

	for (i = 0; i < NSIGW; i++)
		if (n == signo[i])
			handler[i] = f == SIG_DFL || f == SIG_IGN ? NULL : f;
}
int STUB(sigaction)(int n, const struct sigaction * restrict a, struct sigaction * restrict o)
{
	(void)o;
	if (a != NULL)
		set_handler(n, a->sa_handler);
	return 0;
}
void (*STUB(signal)(int n, void (*f)(int)))(int) { set_handler(n, f); return SIG_DFL; }
int STUB(sigfillset)(sigset_t *s) { memset(s, 0xff, sizeof(*s)); return 0; }
int STUB(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int STUB(sigaddset)(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int STUB(sigdelset)(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int STUB(sigprocmask)(int how, const sigset_t * restrict s, sigset_t * restrict o) { (void)how; (void)s; (void)o; return 0; }

/* A signal arrives now, or does not. */
static void raise_one(void)
{
	int i, k = (int)vp_concrete(vp_upto(KINDS - 1));

	vp_assume(active[k]);
	raises--;
	in_signal++;
	errno = 4242;
	if (k < AS0) {
		vp_assume(handler[k] != NULL);
		for (i = 0; i < NSIGW; i++)
			if (signo[i] == signo[k] && active[i]) {
				want[i].raised++;
				want[i].owed = true;
			}
		handler[k](signo[k]);
	} else {
		want[k].raised++;
		want[k].owed = true;
		ev_async_send(EV_DEFAULT_UC_ &as[k - AS0]);
	}
	vp_check(errno == 4242, "the interrupted code finds errno as it was");
	in_signal--;
}
#if THREADS
/* Another thread goes on. */
static void other(void)
{
	int c = 0;

# if THREADS > 1
	c = (int)vp_concrete(vp_upto(THREADS));
# else
	static int current;

	c = current = !current;
	if (vp_done(1))
		c = current = 0;
# endif
	vp_switch(c);
}
static void thread(void)
{
	int i;

	for (i = 0; i < SENDS; i++) {
		int k = (int)vp_concrete(vp_upto(NAS - 1));

		vp_assume(active[AS0 + k]);
		sending++;
		want[AS0 + k].raised++;
		want[AS0 + k].owed = true;
		ev_async_send(EV_DEFAULT_UC_ &as[k]);
		sending--;
		vp_reach("sent by a thread");
		vp_interrupt();
	}
}
static bool threads_done(void)
{
	int i;

	for (i = 1; i <= THREADS; i++)
		if (!vp_done(i))
			return false;
	return true;
}
#endif
void vp_interrupt(void)
{
#if THREADS
	if (quiet || switches == 0 || threads_done() || !vp_concrete(vp_bool()))
		return;
	switches--;
	other();
#else
	if (in_signal || quiet || raises == 0 || !vp_concrete(vp_bool()))
		return;
	raise_one();
	vp_reach("interrupted");
#endif
}
static int owed(void)
{
	int k, n = 0;

	for (k = 0; k < KINDS; k++)
		n += want[k].owed;
	return n;
}
static int nactive(void)
{
	int k, n = idle_active;

	for (k = 0; k < KINDS; k++)
		n += active[k];
	return n + (ev_is_active(&timer) != 0);
}
/* Descriptors the loop waits for. */
static bool waited[MAXFD];
static bool told(void)
{
	int i;
	bool r = false;

	for (i = 3; i < MAXFD; i++)
		r = r || (waited[i] && filled(fdt[i].obj));
	return r;
}
/* The loop waits for up to `timeout' ms; is the library's pipe ready? */
static bool waits_for(int timeout)
{
	bool ready, watched = false;
	int j;

	for (j = 3; j < MAXFD; j++)
		watched = watched || waited[j];
	vp_interrupt();
	ready = told();
	vp_check(watched || (!ready && !owed()), "the library watches its own pipe");
	vp_check(!idle_active || timeout == 0, "the loop does not sleep while there are idle callbacks");
	vp_check(nactive() > 0 || timeout == 0, "the loop does not sleep without anything to wait for");
	waits++;
#if THREADS
	if (!ready && timeout != 0) {
		int i;

		vp_check(sending > 0 || !owed(), "the loop does not sleep while a notification waits");
		/* The others go on while it sleeps. */
		for (i = 1; i <= THREADS; i++)
			while (!ready && !vp_done(i)) {
				vp_switch(i);
				ready = told();
				vp_check(ready || sending > 0 || !owed(), "the loop does not sleep while a notification waits");
			}
		if (ready)
			vp_reach("woken up");
		else
			clock_ms += timeout > 0 ? timeout : 0;
		return ready;
	}
#endif
	if (!ready && timeout != 0) {
		vp_check(!owed(), "the loop does not sleep while a notification waits");
		/* It may come while the loop sleeps. */
		if (raises > 0 && !quiet && vp_concrete(vp_bool())) {
			raise_one();
			ready = told();
			vp_check(ready, "a notification ends the sleep");
			vp_reach("woken up");
		} else
			clock_ms += timeout > 0 ? timeout : 0;
	}
	return ready;
}
int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	nfds_t i;
	int r = 0;

	memset(waited, 0, sizeof(waited));
	for (i = 0; i < n; i++) {
		vp_check(is_fd(p[i].fd) && fdt[p[i].fd].reads, "only the library's pipe is watched");
		vp_check(!obj[fdt[p[i].fd].obj].parents, "the parent's wake-ups are left alone");
		waited[p[i].fd] = (p[i].events & POLLIN) != 0;
	}
	(void)waits_for(timeout);
	for (i = 0; i < n; i++) {
		p[i].revents = waited[p[i].fd] && filled(fdt[p[i].fd].obj) ? POLLIN : 0;
		r += p[i].revents != 0;
	}
	if (!r && in_signal == 0 && vp_concrete(vp_bool()) && raises == 0 && !quiet) {
		errno = EINTR;
		return -1;
	}
	return r;
}
/* What is in the set is the object, by the descriptor it had when it was added. */
static struct { bool in; uint64_t data; } ep[MAXFD][OBJECTS];
static int epfd = -1, epfds;
static bool ep_parents;
int STUB(epoll_create1)(int f)
{
	(void)f;
	vp_check(epfd == -1, "there is one set");
	ep_parents = false;
	memset(ep, 0, sizeof(ep));
	return epfd = new_fd(0, false, false);
}
int STUB(epoll_create)(int n) { (void)n; return STUB(epoll_create1)(0); }
static void epoll_closed(int fd)
{
	if (fd == epfd)
		epfd = -1;
}
int STUB(epoll_ctl)(int e, int op, int fd, struct epoll_event *ev)
{
	int o;

	vp_check(e == epfd && is_fd(fd) && fdt[fd].reads, "only the library's pipe is watched");
	vp_check(!ep_parents, "the parent's registrations stay as they are");
	o = fdt[fd].obj;
	vp_check(!obj[o].parents || op == EPOLL_CTL_DEL, "the parent's wake-ups are left alone");
	if (op == EPOLL_CTL_ADD ? ep[fd][o].in : !ep[fd][o].in) {
		errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT;
		return -1;
	}
	ep[fd][o].in = op != EPOLL_CTL_DEL && (ev->events & EPOLLIN) != 0;
	ep[fd][o].data = ev->data.u64;
	return 0;
}
int STUB(epoll_wait)(int e, struct epoll_event *ev, int max, int timeout)
{
	int i, o, r = 0;

	vp_check(e == epfd && max > 0, "the library's own descriptor");
	vp_check(!ep_parents, "the parent's events are left alone");
	for (i = 0; i < MAXFD; i++)
		waited[i] = is_fd(i) && ep[i][fdt[i].obj].in;
	(void)waits_for(timeout);
	for (i = 0; i < MAXFD; i++)
		for (o = 0; o < OBJECTS; o++)
			if (ep[i][o].in && filled(o)) {
				vp_harness(r < max, "space for events");
				ev[r].events = EPOLLIN;
				ev[r++].data.u64 = ep[i][o].data;
			}
	return r;
}
static int forks = FORKS;
static void becomes_its_child(void)
{
	int i;

	if (forks == 0 || !vp_concrete(vp_bool()))
		return;
	forks--;
	vp_interrupt();
	ep_parents = true;
	for (i = 0; i < nobj; i++)
		obj[i].parents = true;
	vp_interrupt();
	ev_loop_fork(EV_DEFAULT_UC);
	vp_interrupt();
#if FORKS
	vp_reach("forked");
#endif
}

/* ------------------------------------------------------------- the program */
static int may_stop;
static void start(int k)
{
	bool was = quiet;

	quiet = true;
	if (k < AS0) {
		ev_signal_start(EV_DEFAULT_UC_ &sig[k]);
		vp_check(handler[k] != NULL, "the signal is handled");
	} else
		ev_async_start(EV_DEFAULT_UC_ &as[k - AS0]);
	quiet = was;
	active[k] = true;
}
static void stop(int k)
{
	int i;
	bool was = quiet, shared = false;

	quiet = true;
	if (k < AS0)
		ev_signal_stop(EV_DEFAULT_UC_ &sig[k]);
	else
		ev_async_stop(EV_DEFAULT_UC_ &as[k - AS0]);
	quiet = was;
	active[k] = want[k].owed = false;
	for (i = 0; i < NSIGW; i++)
		shared = shared || (k < AS0 && i != k && active[i] && signo[i] == signo[k]);
	if (k < AS0)
		vp_check(shared == (handler[k] != NULL), "a signal is handled as long as somebody waits for it");
}
static void called(int k, int revents, int expect)
{
	vp_check(revents == expect, "the callback is told what happened");
	vp_check(active[k], "only active watchers are called");
	want[k].called++;
	vp_check(want[k].called <= want[k].raised, "nothing is called without a notification");
	want[k].owed = false;
	callbacks++;
	becomes_its_child();
#ifdef STOPS
	if (may_stop > 0 && vp_concrete(vp_bool())) {
		may_stop--;
		k = (int)vp_concrete(vp_upto(KINDS - 1));
		vp_assume(active[k]);
		stop(k);
		vp_reach("stopped");
	}
#endif
}
static void signalled(ev_signal *w, int revents)
{
	vp_harness(NSIGW > 0, "signals");
	called((int)(w - sig), revents, EV_SIGNAL);
#if NSIGW
	vp_reach("signal");
#endif
}
static void notified(ev_async *w, int revents)
{
	called(AS0 + (int)(w - as), revents, EV_ASYNC);
	vp_reach("notified");
}
static void idled(ev_idle *w, int revents)
{
	(void)w;
	vp_check(revents == EV_IDLE && idle_active, "only active watchers are called");
	vp_check(idles++ == 0, "once per turn");
	vp_check(callbacks == 0, "only when there is nothing else to do");
	if (vp_concrete(vp_bool())) {
		ev_idle_stop(EV_DEFAULT_UC_ &idle);
		idle_active = false;
	}
}
static void timed(ev_timer *w, int revents) { (void)w; vp_check(revents == EV_TIMER, "the callback is told what happened"); callbacks++; }

void vp_main(void)
{
	int i, t, before, told_raises = RAISES;

	quiet = true;
#ifdef EPOLL
	i = ev_default_loop(EVBACKEND_EPOLL | EVFLAG_NOENV);
#else
	i = ev_default_loop(EVBACKEND_POLL | EVFLAG_NOENV);
#endif
	vp_harness(i, "a loop");
	ev_timer_init(&timer, timed, 5000, 0);
	for (i = 0; i < NSIGW; i++)
		ev_signal_init(&sig[i], signalled, signo[i]);
	for (i = 0; i < NAS; i++)
		ev_async_init(&as[i], notified);
	for (i = 0; i < KINDS; i++)
		start(i);
#ifdef COLLECT
	ev_set_io_collect_interval(EV_DEFAULT_UC_ COLLECT);
#endif
	ev_idle_init(&idle, idled);
	quiet = false;
	raises = RAISES;
#ifdef STOPS
	may_stop = STOPS;
#endif
#if THREADS
	for (i = 0; i < THREADS; i++)
		vp_harness(vp_spawn(thread) == i + 1, "a thread");
	switches = SWITCHES;
#endif
	for (t = 0; t < TURNS; t++) {
		vp_interrupt();
		becomes_its_child();
#ifdef OPS
		for (i = 0; i < OPS; i++) {
			int k = (int)vp_concrete(vp_upto(KINDS));

			if (k == KINDS)
				continue;
			if (active[k])
				stop(k);
			else
				start(k);
			vp_reach("started or stopped");
		}
#endif
#ifdef IDLE
		if (!idle_active && vp_concrete(vp_bool())) {
			quiet = true;
			ev_idle_start(EV_DEFAULT_UC_ &idle);
			quiet = false;
			idle_active = true;
			vp_reach("idle");
		}
#endif
		if (!ev_is_active(&timer)) {
			ev_timer_set(&timer, 5000, 0);
			ev_timer_start(EV_DEFAULT_UC_ &timer);
		}
		i = idle_active;
		before = told_raises;
		told_raises = raises;
		callbacks = idles = 0;
		ev_run(EV_DEFAULT_UC_ EVRUN_ONCE);
		/* (What the library does about a notification already told comes first, too.) */
		vp_check(!i || callbacks > 0 || idles == 1 || raises < before, "idle callbacks are called when nothing else happens");
	}
	/* Nothing more comes: all of it has been told by the time the loop sleeps. */
	quiet = true;
#if THREADS
	for (i = 1; i <= THREADS; i++)
		while (!vp_done(i))
			vp_switch(i);
#endif
	if (idle_active) {
		ev_idle_stop(EV_DEFAULT_UC_ &idle);
		idle_active = false;
	}
	for (t = 0; t < 2 && owed(); t++) {
		callbacks = idles = 0;
		ev_run(EV_DEFAULT_UC_ EVRUN_NOWAIT);
	}
	vp_check(!owed(), "no notification is lost");
	/* The loop ends when it is told to, or when nothing is left to wait for. */
	for (i = 0; i < KINDS; i++)
		if (active[i])
			stop(i);
	ev_timer_stop(EV_DEFAULT_UC_ &timer);
	waits = 0;
	quiet = true;
	ev_run(EV_DEFAULT_UC_ 0);
	vp_check(waits <= 1, "the loop ends when nothing is left to wait for");
	for (i = 3, t = 0; i < MAXFD; i++)
		t += fdt[i].open;
#ifdef EVENTFD
	t++;
#endif
#ifndef EPOLL
	t++;
#endif
	vp_check(t <= 3, "the loop keeps no more descriptors than it needs");
}
