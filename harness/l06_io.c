/*
 * L06: the descriptor watchers of the bundled event library.  The library's
 * own loop and its epoll(7), poll(2) or select(2) backend run on a stand-in kernel; a
 * plain table says what must be called.
 */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#ifndef FDS
# define FDS 2          /* descriptors */
#endif
#ifdef SELECT           /* (in two words of select's sets) */
# define FD(i) ((i) == 1 ? 70 : 1 + (i) / 2)
# define FDMAX 70
#else
# define FD(i) (1 + (i))
# define FDMAX FDS
#endif
#ifndef WATCHERS
# define WATCHERS 3
#endif
#ifndef OPS
# define OPS 2          /* operations before the loop turns */
#endif
#ifndef TURNS
# define TURNS 2
#endif
#ifndef FORKS
# define FORKS 0        /* times the process becomes its own child */
#endif
#ifndef CBOPS
# define CBOPS 0        /* operations in callbacks, per turn */
#endif
#define EPFD 9

static ev_io io[WATCHERS];
static ev_timer timer;

/* ------------------------------------------------------------- the system */
static long clock_ms = 1000;
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = clock_ms / 1000;
	ts->tv_nsec = clock_ms % 1000 * 1000000;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = clock_ms / 1000;
	tv->tv_usec = clock_ms % 1000 * 1000;
	return 0;
}

static struct {
	bool file;                      /* always ready, epoll refuses it */
	int ready;                      /* POLLIN, POLLOUT, POLLERR, POLLHUP */
	bool watched;                   /* in the epoll set */
	uint32_t events;
	uint64_t data;
	int useless;                    /* times it was reported without any watcher */
} fds[FDMAX + 1];

/* --------------------------------------------------------- what is expected */
static struct {
	bool active;
	int fd, events;
	int fed;                        /* events fed by the program */
	int expect;                     /* what this turn must report */
	int missed;                     /* turns in which it was not told although it was ready */
} want[WATCHERS];
static bool running, polled, timer_due, timer_fired, plain;
static int ops, last_pri;

static int interest(int fd)
{
	int i, e = 0;

	for (i = 0; i < WATCHERS; i++)
		if (want[i].active && want[i].fd == fd)
			e |= want[i].events;
	return e;
}
static int state(int fd) { return fds[fd].file ? POLLIN | POLLOUT : fds[fd].ready; }
static int told(int ready)
{
#ifdef SELECT           /* select's writability is not about the peer's hanging up */
	return ((ready & (POLLIN | POLLERR | POLLHUP)) != 0) * EV_READ | ((ready & (POLLOUT | POLLERR)) != 0) * EV_WRITE;
#endif
	return ((ready & (POLLIN | POLLERR | POLLHUP)) != 0) * EV_READ | ((ready & (POLLOUT | POLLERR | POLLHUP)) != 0) * EV_WRITE;
}
static bool ours(int fd)
{
	int i;
	bool is = false;

	for (i = 0; i < FDS; i++)
		is = is | (fd == FD(i));
	return is;
}
/* The loop asks for news. */
static int interruptions;
static bool asked(void)
{
	int i;

	vp_check(running && !polled, "the loop asks once per turn");
	polled = true;
	last_pri = EV_MAXPRI;
	for (i = 0; i < WATCHERS; i++) {
		vp_check(want[i].fed == 0, "fed events are delivered before the loop waits");
		want[i].expect = want[i].active ? want[i].events & told(state(want[i].fd)) : 0;
	}
#ifdef INTR
	/* A signal cuts the call short; what happened is told next time. */
	if (interruptions == 0 && vp_concrete(vp_bool())) {
		interruptions++;
		for (i = 0; i < WATCHERS; i++)
			want[i].expect = 0;
		errno = EINTR;
		vp_reach("interrupted");
		return false;
	}
#endif
	return true;
}
int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	nfds_t k;
	int i, r = 0, seen[FDMAX + 1] = { 0 };

	(void)timeout;
	if (!asked())
		return -1;
	for (k = 0; k < n; k++) {
		int fd = p[k].fd, e = ((p[k].events & POLLIN) != 0) * EV_READ | ((p[k].events & POLLOUT) != 0) * EV_WRITE;

		vp_check(ours(fd) && !seen[fd], "a descriptor is asked about once");
		seen[fd] = 1;
		vp_check(e == interest(fd), "the loop asks for what the watchers wait for");
		p[k].revents = (short)(state(fd) & (p[k].events | POLLERR | POLLHUP));
		r += p[k].revents != 0;
	}
	for (i = 0; i < FDS; i++)
		vp_check(seen[FD(i)] || interest(FD(i)) == 0, "no watched descriptor is forgotten");
	return r;
}
int STUB(select)(int n, fd_set * restrict rd, fd_set * restrict wr, fd_set * restrict ex, struct timeval * restrict tv)
{
	const unsigned long *p = (const unsigned long *)rd, *q = (const unsigned long *)wr;
	int i, r = 0;

	(void)tv;
	vp_check(ex == NULL, "no exceptions are asked for");
	vp_check(n >= 0 && n <= 128, "as many descriptors as there are");
	if (!asked())
		return -1;
	for (i = 0; i < (n + 63) / 64; i++) {
		unsigned long known = 0;
		int j;

		for (j = 0; j < FDS; j++)
			if (FD(j) / 64 == i)
				known |= 1UL << FD(j) % 64;
		vp_check((p[i] & ~known) == 0 && (q[i] & ~known) == 0, "watched descriptors are asked about");
	}
	for (i = 0; i < FDS; i++) {
		int fd = FD(i), want_r, want_w, is;

		if (fd >= n) {
			vp_check(interest(fd) == 0, "no watched descriptor is forgotten");
			continue;
		}
		want_r = FD_ISSET(fd, rd) != 0;
		want_w = FD_ISSET(fd, wr) != 0;
		vp_check((want_r * EV_READ | want_w * EV_WRITE) == interest(fd), "the loop asks for what the watchers wait for");
		is = told(state(fd));
		if (want_r && !(is & EV_READ))
			FD_CLR(fd, rd);
		if (want_w && !(is & EV_WRITE))
			FD_CLR(fd, wr);
		r += (want_r && is & EV_READ) + (want_w && is & EV_WRITE);
	}
	return r;
}
static int epfd = -1, epfds;
static bool parents;                    /* The set is the parent process's. */
int STUB(epoll_create1)(int f)
{
	(void)f;
	vp_check(epfd == -1, "there is one set");
	parents = false;
	return epfd = EPFD + epfds++;
}
int STUB(epoll_create)(int n) { return STUB(epoll_create1)(n); }
int STUB(epoll_ctl)(int e, int op, int fd, struct epoll_event *ev)
{
	vp_check(e == epfd && ours(fd), "watched descriptors are registered");
	vp_check(!parents, "the parent's registrations stay as they are");
	if (fds[fd].file) {
		errno = EPERM;
		return -1;
	}
	if (op == EPOLL_CTL_ADD ? fds[fd].watched : !fds[fd].watched) {
		errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT;
		return -1;
	}
	fds[fd].watched = op != EPOLL_CTL_DEL;
	fds[fd].events = ev->events;
	fds[fd].data = ev->data.u64;
	return 0;
}
int STUB(epoll_wait)(int e, struct epoll_event *ev, int max, int timeout)
{
	int i, fd, r = 0;

	(void)timeout;
	vp_check(e == epfd && max >= FDS, "the registered descriptors are asked about");
	vp_check(!parents, "the parent's events are left alone");
	if (!asked())
		return -1;
	for (i = 0; i < FDS; i++) {
		uint32_t got = 0;

		fd = FD(i);
		if (!fds[fd].watched)
			continue;
		/* (Both interfaces use the same bits.) */
		got = (uint32_t)state(fd) & (fds[fd].events | EPOLLERR | EPOLLHUP);
		if (got == 0)
			continue;
		if (interest(fd) == 0)
			fds[fd].useless++;
		ev[r].events = got;
		ev[r++].data.u64 = fds[fd].data;
	}
	return r;
}
int STUB(close)(int fd)
{
	int i;

	vp_check(fd == epfd && fd >= 0, "the library closes its own descriptors only");
	epfd = -1;
	for (i = 0; i < FDS; i++)
		fds[FD(i)].watched = false;
	return 0;
}
int STUB(fcntl)(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }

/* ------------------------------------------------------------- the program */
static void called(ev_io *w, int revents);
static int forks = FORKS;
static void becomes_its_child(void)
{
	if (forks == 0 || !vp_concrete(vp_bool()))
		return;
	forks--;
	parents = true;
	ev_loop_fork(EV_DEFAULT_UC);
#if FORKS
	vp_reach("forked");
#endif
}
static void start(int i, int fd, int events)
{
	ev_io_set(&io[i], fd, events);
	ev_io_start(EV_DEFAULT_UC_ &io[i]);
	want[i].active = true;
	want[i].fd = fd;
	want[i].events = events;
	want[i].missed = 0;
	fds[fd].useless = 0;
	vp_check(ev_is_active(&io[i]), "a started watcher is active");
}
static void stop(int i)
{
	ev_io_stop(EV_DEFAULT_UC_ &io[i]);
	want[i].active = false;
	want[i].fed = want[i].expect = 0;
	vp_check(!ev_is_active(&io[i]) && !ev_is_pending(&io[i]), "a stopped watcher is neither active nor pending");
}
static void operation(bool in_callback)
{
	int i = (int)vp_concrete(vp_upto(WATCHERS - 1)), fd;

	switch (vp_concrete(vp_upto(in_callback ? 3 : 4))) {
	case 0:
		vp_assume(!want[i].active);
		fd = FD((int)vp_concrete(vp_upto(FDS - 1)));
		start(i, fd, 1 + (int)vp_upto(2));
#ifndef WITH_TIMER
		vp_reach("start");
#endif
		break;
	case 1:
		vp_assume(want[i].active);
		stop(i);
		vp_reach("stop");
		break;
	case 2:
		want[i].fed |= EV_CUSTOM;
		ev_feed_event(EV_DEFAULT_UC_ &io[i], EV_CUSTOM);
		vp_check(ev_is_pending(&io[i]), "a fed event is pending");
		vp_reach("feed");
		break;
	case 3:
		break;
	case 4:                 /* the descriptor is closed, and another one gets its number */
		fd = FD((int)vp_concrete(vp_upto(FDS - 1)));
		vp_assume(interest(fd) == 0);
		fds[fd].watched = false;
		fds[fd].file = vp_concrete(vp_bool());
		fds[fd].ready = 0;
#if OPS && !defined(WITH_TIMER)
		vp_reach("reopened");
#endif
		break;
	}
}
static void called(ev_io *w, int revents)
{
	int i = (int)(w - io), fed;

	vp_check(running, "callbacks are called by the loop only");
	vp_check(i >= 0 && i < WATCHERS, "a watcher of ours");
	fed = want[i].fed;
	vp_check(want[i].expect != 0 || fed != 0, "a watcher is called once for what happened to it, and only while it is active");
	vp_check(revents == (want[i].expect | fed), "the callback is told what happened");
	if (plain && polled) {
		vp_check(ev_priority(w) <= last_pri, "higher priorities come first");
		vp_check(!timer_fired || ev_priority(w) <= -1, "higher priorities come first");
		last_pri = ev_priority(w);
	}
	want[i].fed = want[i].expect = 0;
	want[i].missed = 0;
	vp_reach("called");
	if (ops > 0) {
		ops--;
		plain = false;
		operation(true);
		becomes_its_child();
	}
}
static void timed(ev_timer *w, int revents)
{
	(void)w;
	vp_check(revents == EV_TIMER && timer_due && !timer_fired, "the timer fires once");
	timer_fired = true;
}
static void turn(void)
{
	int i;

	running = true;
	polled = false;
	plain = true;
	ops = CBOPS;
	ev_run(EV_DEFAULT_UC_ EVRUN_NOWAIT);
	running = false;
	vp_check(polled, "the loop asks for news");
	for (i = 0; i < WATCHERS; i++) {
		vp_check(want[i].fed == 0, "no fed event is forgotten");
		if (want[i].expect != 0) {
#ifdef EPOLL
			want[i].missed++;
			vp_check(want[i].missed < 2, "no ready descriptor is forgotten");
#else
			vp_check(0, "no ready descriptor is forgotten");
#endif
		}
		want[i].expect = 0;
		vp_check(!!ev_is_active(&io[i]) == want[i].active, "watchers stay as they are");
	}
	for (i = 0; i < FDS; i++)
		vp_check(fds[FD(i)].useless < 2, "nothing keeps the loop busy that nobody waits for");
	vp_check(timer_fired == timer_due, "a due timer fires");
}

static int any_state(void)
{
	unsigned char b = vp_u8();

	vp_assume((b & ~(POLLIN | POLLOUT | POLLERR | POLLHUP)) == 0);
	return b;
}

void vp_main(void)
{
	int i, t;

#ifdef EPOLL
	i = ev_default_loop(EVBACKEND_EPOLL | EVFLAG_NOENV);
#elif defined SELECT
	i = ev_default_loop(EVBACKEND_SELECT | EVFLAG_NOENV);
#else
	i = ev_default_loop(EVBACKEND_POLL | EVFLAG_NOENV);
#endif
	vp_harness(i, "a loop");
	ev_timer_init(&timer, timed, 0, 0);
	ev_set_priority(&timer, -1);
	for (i = 0; i < WATCHERS; i++) {
		ev_init(&io[i], called);
		ev_set_priority(&io[i], i == 0 ? 0 : i == 1 ? 1 : -1);
	}
#ifdef FILES
	fds[1].file = true;
#endif
#ifdef STARTED
	for (i = 0; i < STARTED; i++)
		start(i, FD(i / 2 % FDS), i % 2 == 0 ? EV_READ : EV_WRITE);
#endif
	for (t = 0; t < TURNS; t++) {
		for (i = 0; i < OPS; i++) {
			becomes_its_child();
			operation(false);
		}
		becomes_its_child();
		for (i = 0; i < FDS; i++)
			fds[FD(i)].ready = any_state();
#ifdef WITH_TIMER
		timer_fired = timer_due = false;
		if (vp_concrete(vp_bool())) {
			ev_timer_start(EV_DEFAULT_UC_ &timer);
			timer_due = true;
			clock_ms++;
		}
#endif
		turn();
	}
	/* And on without any changes: nothing is forgotten, nothing spins. */
	timer_fired = timer_due = false;
	for (t = 0; t < 2; t++)
		turn();
}
