/*
 * L05: the timers of the bundled event library.  The library's own loop runs
 * (with the poll(2) backend and a clock of our own); a plain list of expiry
 * times says what must happen.
 */
#include <errno.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "evts.h"
#include <ev.h>
#include "vp.h"

#ifndef TIMERS
# define TIMERS 3
#endif
#ifndef STEPS
# define STEPS 3
#endif

static struct ev_loop *loop;
static ev_timer timer[TIMERS];

/* ------------------------------------------------------------- the system */
static long clock_ms = 1000;
int STUB(clock_gettime)(clockid_t id, struct timespec *ts)
{
	(void)id;
	ts->tv_sec = clock_ms / 1000;
	ts->tv_nsec = clock_ms % 1000 * 1000000;
	return 0;
}
int STUB(gettimeofday)(struct timeval *tv, void *tz)
{
	(void)tz;
	tv->tv_sec = clock_ms / 1000;
	tv->tv_usec = clock_ms % 1000 * 1000;
	return 0;
}

/* --------------------------------------------------------- what is expected */
static struct {
	int active;             /* waiting to expire */
	int fired;              /* within this run of the loop */
	int cancelled;          /* stopped or restarted within this run */
	int fresh;              /* started within this run */
	long at, repeat;
} want[TIMERS];
static int running, repeated;
static long now, last;          /* the loop's time; expiry of the timer fired last */

int STUB(poll)(struct pollfd *p, nfds_t n, int timeout)
{
	(void)p;
	(void)n;
#ifdef SLEEP
	/* It must not sleep past the first expiry, nor for no time before it. */
	long first = -1;

	for (int i = 0; i < TIMERS; i++)
		if (want[i].active && (first < 0 || want[i].at < first))
			first = want[i].at;
	vp_check(first >= 0, "it waits only if there is something to wait for");
	vp_check(timeout >= 0, "it waits for a limited time");
	if (first > clock_ms) {
		vp_check(timeout <= first - clock_ms, "it doesn't sleep past the first expiry");
		vp_check(timeout > 0, "it doesn't spin");
	} else
		vp_check(timeout == 0, "it doesn't sleep while a timer is due");
	if (timeout > 0)
		vp_reach("sleeps");
	clock_ms += (long)vp_concrete((unsigned)timeout) + (long)vp_concrete(vp_upto(1));
	now = clock_ms;
#else
	(void)timeout;
#endif
	return 0;
}

static void start(int i, long after, long repeat)
{
	if (want[i].active)
		return;
	ev_timer_set(&timer[i], after, repeat);
	ev_timer_start(loop, &timer[i]);
	want[i].active = 1;
	want[i].at = now + after;
	want[i].repeat = repeat;
	want[i].fresh = running;
}
static void stop(int i)
{
	ev_timer_stop(loop, &timer[i]);
	want[i].active = 0;
	want[i].cancelled = 1;
	vp_check(!ev_is_active(&timer[i]) && !ev_is_pending(&timer[i]), "a stopped timer is neither active nor pending");
}
static void again(int i)
{
	ev_timer_again(loop, &timer[i]);
	want[i].cancelled = 1;
	if (want[i].repeat) {
		want[i].active = 1;
		want[i].at = now + want[i].repeat;
		want[i].fresh = running;
	} else
		want[i].active = 0;
}
#ifdef RANGE
# define AFTER() ((long)vp_upto(RANGE))
#else
# define AFTER() ((long)vp_u8())
#endif
static void operation(int from_callback)
{
	int i = (int)vp_concrete(vp_upto(TIMERS - 1));
	long after;

	switch (vp_concrete(vp_upto(from_callback ? 3 : 2))) {
	case 0:
		after = AFTER();
		vp_assume(!want[i].active);
		start(i, after, vp_concrete(vp_bool()) ? 20 : 0);
#ifndef HEAP
		vp_reach("start");
#endif
		break;
	case 1:
		vp_assume(from_callback || want[i].active);
		stop(i);
		vp_reach("stop");
		break;
	case 2:
		vp_assume(want[i].repeat);
		again(i);
#ifndef HEAP
		vp_reach("again");
#endif
		break;
	case 3:
		break;
	}
}
static int ops;
static void fire(struct ev_loop *l, ev_timer *w, int revents)
{
	int i = (int)(w - timer);

	vp_check(l == loop && revents == EV_TIMER, "the callback is told what happened");
	vp_check(running, "timers fire from the loop only");
	vp_check(want[i].active || (want[i].fired && !want[i].cancelled), "only active timers fire");
	vp_check(!want[i].cancelled || want[i].fresh, "stopped timers don't fire");
	vp_check(want[i].active && !want[i].fired, "a timer fires once");
	vp_check(want[i].at <= now, "only due timers fire");
	if (!want[i].fresh) {
		vp_check(want[i].at >= last, "timers fire in the order of their expiry");
		last = want[i].at;
	}
	want[i].fired = 1;
	if (want[i].repeat) {
		want[i].at += want[i].repeat;
		if (want[i].at < now)
			want[i].at = now;
		vp_check(ev_is_active(w), "repeating timers go on");
		repeated = 1;
#ifndef HEAP
		vp_reach("repeating");
#endif
	} else {
		want[i].active = 0;
		vp_check(!ev_is_active(w), "one-shot timers are over when they fire");
		vp_reach("one-shot");
	}
#ifdef IN_CALLBACK
	if (ops > 0) {
		ops--;
		operation(1);
		vp_reach("operation while timers fire");
	}
#endif
}
static void turn(void)
{
	int i, was[TIMERS];

	for (i = 0; i < TIMERS; i++) {
		was[i] = want[i].active && want[i].at < clock_ms;
		want[i].fired = want[i].cancelled = want[i].fresh = 0;
	}
	now = clock_ms;
	last = -1;
	running = 1;
#ifdef SLEEP
	ev_run(loop, EVRUN_ONCE);
#else
	ev_run(loop, EVRUN_NOWAIT);
#endif
	running = 0;
	for (i = 0; i < TIMERS; i++) {
		if (was[i] && !want[i].cancelled)
			vp_check(want[i].fired, "no due timer is forgotten");
		vp_check(!!ev_is_active(&timer[i]) == want[i].active, "timers are active until they fire or are stopped");
		if (want[i].active)
			vp_check(ev_timer_remaining(loop, &timer[i]) == want[i].at - now, "the remaining time is right");
	}
}
void vp_main(void)
{
	int i;

	loop = ev_loop_new(EVBACKEND_POLL | EVFLAG_NOENV);
	vp_harness(loop != NULL, "a loop");
	now = clock_ms;
	for (i = 0; i < TIMERS; i++)
		ev_timer_init(&timer[i], fire, 0, 0);
	for (i = 0; i < START; i++) {
#ifdef FIXED
		static const long fixed[START] = FIXED;
		long after = fixed[i] < 0 ? AFTER() : fixed[i];
#else
		long after = AFTER();
#endif

		start(i, after, REPEAT >> i & 1 ? 20 : 0);
	}
	for (i = 0; i < STEPS; i++) {
#ifdef IN_CALLBACK
		ops = IN_CALLBACK;
#endif
#ifndef IN_CALLBACK
		operation(0);
#endif
#ifdef SLEEP
		{
			int k, any = 0;

			for (k = 0; k < TIMERS; k++)
				any |= want[k].active;
			if (!any)
				break;
		}
		turn();
#else
		if (i == STEPS - 1 || vp_concrete(vp_bool())) {
			static const long step[] = { 1, 30, 300, 2000 };

			clock_ms += step[vp_concrete(vp_upto(sizeof(step) / sizeof(*step) - 1))];
			turn();
		}
#endif
	}
	for (i = 0; i < TIMERS; i++)
		stop(i);
	ev_loop_destroy(loop);
}
