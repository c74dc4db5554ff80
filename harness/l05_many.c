/*
 * L05: many timers in the bundled event library, whose heap and tables grow
 * with them.  The library's own loop runs with a clock of our own.
 */
#include <errno.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#ifndef TIMERS
# define TIMERS 200
#endif

static struct ev_loop *loop;
static ev_timer timer[TIMERS];

/* ------------------------------------------------------------- the system */
static long clock_ms = 1000;
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = clock_ms / 1000;
	ts->tv_nsec = clock_ms % 1000 * 1000000;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = clock_ms / 1000;
	tv->tv_usec = clock_ms % 1000 * 1000;
	return 0;
}
int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	(void)p;
	(void)n;
	(void)timeout;
	return 0;
}

/* --------------------------------------------------------- what is expected */
static struct {
	int active;             /* waiting to expire */
	int due;                /* must fire in this turn */
	long at;
} want[TIMERS];
static int running, calls, stops;
static long last;               /* expiry of the timer fired last */

static void start(int i, long after)
{
	ev_timer_set(&timer[i], after, 0);
	ev_timer_start(loop, &timer[i]);
	want[i].active = 1;
	want[i].at = clock_ms + after;
}
static void stop(int i)
{
	ev_timer_stop(loop, &timer[i]);
	want[i].active = want[i].due = 0;
	vp_check(!ev_is_active(&timer[i]) && !ev_is_pending(&timer[i]), "a stopped timer is neither active nor pending");
}
static void fire(struct ev_loop *l, ev_timer *w, int revents)
{
	int i = (int)(w - timer), j;

	vp_check(l == loop && revents == EV_TIMER && running && i >= 0 && i < TIMERS, "the loop tells which timer is due");
	vp_check(want[i].active, "only active timers fire, and once");
	vp_check(want[i].at <= clock_ms, "only due timers fire");
	vp_check(want[i].at >= last, "timers fire in the order of their expiry");
	last = want[i].at;
	want[i].active = want[i].due = 0;
	vp_check(!ev_is_active(w), "one-shot timers are over when they fire");
	if (calls++ == 3)
		for (j = 0; j < TIMERS; j++)
			if (stops == 1 ? j % 3 == 1 : stops == 2)
				stop(j);
}
static void turn(long ms)
{
	int i;

	clock_ms += ms;
	calls = 0;
	last = -1;
	for (i = 0; i < TIMERS; i++)
		want[i].due = want[i].active && want[i].at < clock_ms;
	running = 1;
	ev_run(loop, EVRUN_NOWAIT);
	running = 0;
	for (i = 0; i < TIMERS; i++) {
		vp_check(!want[i].due, "no due timer is forgotten");
		vp_check(!!ev_is_active(&timer[i]) == want[i].active, "timers are active until they fire or are stopped");
		if (want[i].active)
			vp_check(ev_timer_remaining(loop, &timer[i]) == want[i].at - clock_ms, "the remaining time is right");
	}
}
static long after(int pattern, int i)
{
	switch (pattern) {
	case 0: return i;
	case 1: return TIMERS - i;
	case 2: return 50;
	default: return (i * 97 + 13) % 211;
	}
}
void vp_main(void)
{
	int i, k, pattern;
	unsigned char one;

	loop = ev_loop_new(EVBACKEND_POLL | EVFLAG_NOENV);
	vp_harness(loop != NULL, "a loop");
	pattern = (int)vp_concrete(vp_upto(3));
	one = vp_u8();
	k = (int)vp_concrete(vp_upto(3));       /* where in the order of starting the one is that takes any time */
	k = k == 0 ? 0 : k == 1 ? TIMERS / 3 : k == 2 ? TIMERS - 2 : TIMERS - 1;
	for (i = 0; i < TIMERS; i++) {
		ev_timer_init(&timer[i], fire, 0, 0);
		start(i, i == k ? one : after(pattern, i));
	}
	stops = (int)vp_concrete(vp_upto(2));
	if (stops == 0) {                       /* stopped by the program */
		for (i = 0; i < TIMERS; i += 7)
			stop(i);
		for (i = 0; i < TIMERS; i += 14)
			start(i, 120 - i / 2);
	}
	turn(1);
	turn(55);
	turn(60);
	for (i = 0; i < TIMERS; i++)
		if (!want[i].active)
			start(i, after(3 - pattern, i));
	turn(90);
	turn(300);
	for (i = 0; i < TIMERS; i++)
		vp_check(!want[i].active, "every timer fires in the end");
	vp_reach("done");
	ev_loop_destroy(loop);
}
