/*
 * L06: many descriptors in the bundled event library, whose tables grow with
 * them.  The library's own loop and its backends run on a stand-in kernel.
 */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#ifndef FDS
# define FDS 150        /* descriptors */
#endif
#define STEP 3          /* between their numbers */
#define FD(i) (4 + STEP * (i))
#define FDMAX FD(FDS - 1)
#define EPFD 3

static ev_io io[FDS];

/* ------------------------------------------------------------- the system */
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = 1;
	ts->tv_nsec = 0;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = 1;
	tv->tv_usec = 0;
	return 0;
}
static struct {
	int ready;
	bool watched;                   /* in the epoll set */
	uint32_t events;
	uint64_t data;
	int useless;                    /* times it was reported without any watcher */
} fds[FDS];

/* --------------------------------------------------------- what is expected */
static struct {
	bool active;
	int events;
	int expect;                     /* what this turn must report */
	int waits;                      /* turns it was ready in, and not called */
} want[FDS];
static bool running, polled;
static int from;                        /* the first one on the kernel's list */

static int told(int ready)
{
#ifdef SELECT
	return ((ready & (POLLIN | POLLERR | POLLHUP)) != 0) * EV_READ | ((ready & (POLLOUT | POLLERR)) != 0) * EV_WRITE;
#endif
	return ((ready & (POLLIN | POLLERR | POLLHUP)) != 0) * EV_READ | ((ready & (POLLOUT | POLLERR | POLLHUP)) != 0) * EV_WRITE;
}
static int number(int fd)
{
	int i = (fd - 4) / STEP;

	vp_check(fd >= 4 && i < FDS && FD(i) == fd, "a descriptor of ours");
	return i;
}
static int interest(int i) { return want[i].active ? want[i].events : 0; }

int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	nfds_t k;
	int i, r = 0;
	static bool seen[FDS];

	(void)timeout;
	vp_check(running && !polled, "the loop asks once per turn");
	polled = true;
	for (i = 0; i < FDS; i++)
		seen[i] = false;
	for (k = 0; k < n; k++) {
		int e = ((p[k].events & POLLIN) != 0) * EV_READ | ((p[k].events & POLLOUT) != 0) * EV_WRITE;

		i = number(p[k].fd);
		vp_check(!seen[i], "a descriptor is asked about once");
		seen[i] = true;
		vp_check(e == interest(i), "the loop asks for what the watchers wait for");
		p[k].revents = (short)(fds[i].ready & (p[k].events | POLLERR | POLLHUP));
		want[i].expect = e & told(fds[i].ready);
		r += p[k].revents != 0;
	}
	for (i = 0; i < FDS; i++)
		vp_check(seen[i] || interest(i) == 0, "no watched descriptor is forgotten");
	return r;
}
int STUB(select)(int n, fd_set * restrict rd, fd_set * restrict wr, fd_set * restrict ex, struct timeval * restrict tv)
{
	unsigned long *p = (unsigned long *)rd, *q = (unsigned long *)wr;
	int i, fd, r = 0;

	(void)tv;
	vp_check(running && !polled && ex == NULL, "the loop asks once per turn");
	polled = true;
	vp_check(n >= 0 && n <= (FDMAX / 64 + 1) * 64, "as many descriptors as there are");
	for (fd = 0; fd < n; fd++) {    /* (The sets may be larger than an fd_set.) */
		unsigned long bit = 1UL << fd % 64;
		int asks = ((p[fd / 64] & bit) != 0) * EV_READ | ((q[fd / 64] & bit) != 0) * EV_WRITE, is;

		i = fd < 4 || (fd - 4) % STEP != 0 ? FDS : (fd - 4) / STEP;
		if (i >= FDS) {
			vp_check(asks == 0, "a descriptor of ours");
			continue;
		}
		vp_check(asks == interest(i), "the loop asks for what the watchers wait for");
		is = asks & told(fds[i].ready);
		p[fd / 64] = (p[fd / 64] & ~bit) | ((is & EV_READ) ? bit : 0);
		q[fd / 64] = (q[fd / 64] & ~bit) | ((is & EV_WRITE) ? bit : 0);
		want[i].expect = is;
		r += is != 0;
	}
	for (i = 0; i < FDS; i++)
		vp_check(FD(i) < n || interest(i) == 0, "no watched descriptor is forgotten");
	return r;
}
int STUB(epoll_create1)(int f)
{
	(void)f;
	return EPFD;
}
int STUB(epoll_create)(int n) { return STUB(epoll_create1)(n); }
int STUB(epoll_ctl)(int e, int op, int fd, struct epoll_event *ev)
{
	int i = number(fd);

	vp_check(e == EPFD, "the library's own set");
	if (op == EPOLL_CTL_ADD ? fds[i].watched : !fds[i].watched) {
		errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT;
		return -1;
	}
	fds[i].watched = op != EPOLL_CTL_DEL;
	fds[i].events = ev->events;
	fds[i].data = ev->data.u64;
	return 0;
}
int STUB(epoll_wait)(int e, struct epoll_event *ev, int max, int timeout)
{
	int k, i, r = 0;

	(void)timeout;
	vp_check(e == EPFD && max > 0 && running && !polled, "the loop asks once per turn");
	polled = true;
	for (k = 0; k < FDS && r < max; k++) {
		uint32_t got;

		i = (from + k) % FDS;
		if (!fds[i].watched)
			continue;
		got = (uint32_t)fds[i].ready & (fds[i].events | EPOLLERR | EPOLLHUP);
		if (got == 0)
			continue;
		if (interest(i) == 0)   /* (Epoll's registrations are removed once they turn out to be useless.) */
			vp_check(++fds[i].useless < 2, "nothing keeps the loop busy that nobody waits for");
		ev[r].events = got;
		ev[r++].data.u64 = fds[i].data;
		want[i].expect = interest(i) & told(fds[i].ready);
	}
	from = (from + k) % FDS;        /* those which were reported come last next time */
#ifdef EPOLL
	if (r == max)
		vp_reach("more than fit");
#endif
	return r;
}
int STUB(close)(int fd)
{
	(void)fd;
	vp_check(0, "the library closes its own descriptors only");
	return -1;
}
int STUB(fcntl)(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }

/* ------------------------------------------------------------- the program */
static int stops, calls;        /* what the first callback stops: one of two, the following ones */
static void start(int i, int events)
{
	ev_io_set(&io[i], FD(i), events);
	ev_io_start(EV_DEFAULT_UC_ &io[i]);
	want[i].active = true;
	want[i].events = events;
	want[i].waits = 0;
	fds[i].useless = 0;
}
static void stop(int i)
{
	ev_io_stop(EV_DEFAULT_UC_ &io[i]);
	want[i].active = false;
	want[i].expect = want[i].waits = 0;
	vp_check(!ev_is_active(&io[i]) && !ev_is_pending(&io[i]), "a stopped watcher is neither active nor pending");
}
static void called(ev_io *w, int revents)
{
	int i = (int)(w - io), j;

	vp_check(running && i >= 0 && i < FDS, "a watcher of ours is called by the loop");
	vp_check(want[i].expect != 0, "a watcher is called once for what happened to it, and only while it is active");
	vp_check(revents == want[i].expect, "the callback is told what happened");
	want[i].expect = want[i].waits = 0;
	if (calls++ == 0)
		for (j = 0; j < FDS && stops != 0; j++)
			if (j != i && want[j].active && (stops == 2 || j % 2 == 1))
				stop(j);
}
static void turn(void)
{
	int i;

	running = true;
	polled = false;
	calls = 0;
	ev_run(EV_DEFAULT_UC_ EVRUN_NOWAIT);
	running = false;
	vp_check(polled, "the loop asks for news");
	for (i = 0; i < FDS; i++) {
		vp_check(want[i].expect == 0, "no ready descriptor is forgotten");
		if (want[i].active && (want[i].events & told(fds[i].ready)))
			vp_check(++want[i].waits <= 4, "every ready descriptor gets its turn");
		vp_check(!!ev_is_active(&io[i]) == want[i].active, "watchers stay as they are");
	}
}
static void happens(int pattern, int other)
{
	int i;

	for (i = 0; i < FDS; i++)
		fds[i].ready = pattern == 0 || (pattern == 1 && i % 2 == 0) || (pattern == 2 && i >= FDS / 2) ? POLLIN | POLLOUT : 0;
	fds[0].ready = fds[FDS / 2].ready = fds[FDS - 1].ready = other;
}
void vp_main(void)
{
	int i, other;

#ifdef EPOLL
	i = ev_default_loop(EVBACKEND_EPOLL | EVFLAG_NOENV);
#elif defined SELECT
	i = ev_default_loop(EVBACKEND_SELECT | EVFLAG_NOENV);
#else
	i = ev_default_loop(EVBACKEND_POLL | EVFLAG_NOENV);
#endif
	vp_harness(i, "a loop");
	other = vp_u8();
	vp_assume((other & ~(POLLIN | POLLOUT | POLLERR | POLLHUP)) == 0);
	for (i = 0; i < FDS; i++)
		ev_io_init(&io[i], called, 0, 0);
	if (vp_concrete(vp_bool())) {
		for (i = 0; i < FDS; i++)
			start(i, i % 3 == 0 ? EV_READ : i % 3 == 1 ? EV_WRITE : EV_READ | EV_WRITE);
		vp_reach("upwards");
	} else {
		for (i = FDS; i-- > 0;)
			start(i, EV_READ);
		vp_reach("downwards");
	}
	happens((int)vp_concrete(vp_upto(3)), other);
	turn();
	turn();
	/* Some are stopped, by the program or by a callback of the next turn. */
	stops = (int)vp_concrete(vp_upto(2));
	if (stops == 0) {
		int n = (int)vp_concrete(vp_upto(FDS - 1) / 37 * 37);

		stop(n);
		stop((n + 1) % FDS);
	}
	happens((int)vp_concrete(vp_upto(1)), other);
	turn();
	stops = 0;
	for (i = 0; i < FDS; i++)
		if (!want[i].active)
			start(i, EV_READ);
	happens(0, other);
	for (i = 0; i < 5; i++)
		turn();
	vp_reach("done");
}
