/*
 * Stand-in for libev (4.x semantics of the calls the code makes): watchers are
 * registered in a table, the harness decides which one fires when.
 */
#ifndef H_EV_H
#define H_EV_H
#include <ev.h>

enum { HE_IO = 1, HE_TIMER, HE_ASYNC, HE_IDLE, HE_SIGNAL };
#ifndef HE_MAX
# define HE_MAX 10
#endif
static struct {
	struct { void *w; int type; } tab[HE_MAX];
	struct { void *w; int revents; } pend[HE_MAX];
	int npend;
	int broken;
} HE;
#ifdef VP_SYM
ev_tstamp ev_rt_now;
# define HE_NOW ev_rt_now
#else
ev_tstamp vpstub_ev_rt_now;
# define HE_NOW vpstub_ev_rt_now
#endif

static int he_find(void *w)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].w == w && HE.tab[i].type != 0)
			return i;
	return -1;
}
static void he_unpend(void *w)
{
	int i;

	for (i = 0; i < HE.npend; i++)
		if (HE.pend[i].w == w)
			HE.pend[i].w = NULL;
	((ev_watcher *)w)->pending = 0;
}
static void he_start(void *w, int type)
{
	int i;

	if (((ev_watcher *)w)->active)
		return;
	for (i = 0; i < HE_MAX && HE.tab[i].type != 0; i++)
		;
	vp_harness(i < HE_MAX, "number of watchers within the stand-in's space");
	HE.tab[i].w = w;
	HE.tab[i].type = type;
	((ev_watcher *)w)->active = 1;
}
static void he_stop(void *w)
{
	int i;

	he_unpend(w);
	if (!((ev_watcher *)w)->active)
		return;
	i = he_find(w);
	vp_check(i >= 0, "an active watcher is registered");
	HE.tab[i].w = NULL;
	HE.tab[i].type = 0;
	((ev_watcher *)w)->active = 0;
}
static int he_active(void)
{
	int i, n = 0;

	for (i = 0; i < HE_MAX; i++)
		n += HE.tab[i].type != 0;
	return n;
}
void STUB(ev_invoke)(void *w, int revents)
{
	((ev_watcher *)w)->cb(w, revents);
}
void STUB(ev_io_start)(ev_io *w)
{
	vp_check(w->fd >= 0, "only valid descriptors are watched");
	he_start(w, HE_IO);
}
void STUB(ev_io_stop)(ev_io *w) { he_stop(w); }
static ev_tstamp he_started_after;      /* delay of the last timer started */
void STUB(ev_timer_start)(ev_timer *w)
{
	if (w->active)
		return;
	he_started_after = w->at;
	w->at += HE_NOW;
	he_start(w, HE_TIMER);
}
void STUB(ev_timer_stop)(ev_timer *w)
{
	if (w->active)
		w->at -= HE_NOW;
	he_stop(w);
}
void STUB(ev_timer_again)(ev_timer *w)
{
	he_unpend(w);
	if (w->active) {
		if (w->repeat > 0.)
			w->at = HE_NOW + w->repeat;
		else
			STUB(ev_timer_stop)(w);
	} else if (w->repeat > 0.) {
		w->at = w->repeat;
		STUB(ev_timer_start)(w);
	}
}
ev_tstamp STUB(ev_timer_remaining)(ev_timer *w) { return w->at - (w->active ? HE_NOW : 0.); }
void STUB(ev_async_start)(ev_async *w) { he_start(w, HE_ASYNC); }
void STUB(ev_async_stop)(ev_async *w) { he_stop(w); }
void STUB(ev_idle_start)(ev_idle *w) { he_start(w, HE_IDLE); }
void STUB(ev_idle_stop)(ev_idle *w) { he_stop(w); }
void STUB(ev_signal_start)(ev_signal *w) { he_start(w, HE_SIGNAL); }
void STUB(ev_signal_stop)(ev_signal *w) { he_stop(w); }
void STUB(ev_feed_event)(void *w, int revents)
{
	if (((ev_watcher *)w)->pending) {
		HE.pend[((ev_watcher *)w)->pending - 1].revents |= revents;
		return;
	}
	vp_harness(HE.npend < HE_MAX, "number of pending events within the stand-in's space");
	HE.pend[HE.npend].w = w;
	HE.pend[HE.npend++].revents = revents;
	((ev_watcher *)w)->pending = HE.npend;
}
int STUB(ev_clear_pending)(void *w) { he_unpend(w); return 0; }
ev_tstamp STUB(ev_time)(void) { return HE_NOW; }
void STUB(ev_now_update)(void) { }
void STUB(ev_break)(int how) { (void)how; HE.broken = 1; }
int STUB(ev_default_loop)(unsigned flags) { (void)flags; return 1; }
void STUB(ev_loop_fork)(void) { }

/* What the loop does when the event happens. */
static void he_fire(void *w, int revents)
{
	int i = he_find(w);

	vp_harness(i >= 0 && ((ev_watcher *)w)->active, "only active watchers fire");
	if (HE.tab[i].type == HE_TIMER) {
		ev_timer *t = w;

		if (t->repeat > 0.)
			t->at = HE_NOW + t->repeat;
		else
			STUB(ev_timer_stop)(t);
	}
	((ev_watcher *)w)->cb(w, revents);
}
/* Callbacks fed by the code itself. */
#ifndef HE_ROUNDS
# define HE_ROUNDS 64
#endif
static void he_run_pending(void)
{
	int rounds = 0;

	while (HE.npend > 0) {
		vp_check(rounds++ < HE_ROUNDS, "the callbacks do not keep the event loop busy forever");
		void *w = HE.pend[--HE.npend].w;
		int revents = HE.pend[HE.npend].revents;

		if (w != NULL) {
			((ev_watcher *)w)->pending = 0;
			((ev_watcher *)w)->cb(w, revents);
		}
	}
}
#endif
