/*
 * S09, S10, S12: the real fifo.c + buffer.c against a command file that is
 * absent, not a pipe, full, interrupted or broken at any point, and temporary
 * files that fail at any point.
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#if HAVE_POSIX_AIO
# include <aio.h>
#endif
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#include "h_ev.h"
#include "fifo.h"

#ifdef OOM
# include "h_oom.h"             /* R01: one allocation fails */
OOM_FUNCTIONS(n, 's')
void STUB(exit)(int c)
{
	vp_check(oom_seen && c == EXIT_FAILURE, "running out of memory is reported");
	vp_reach("out of memory");
	vp_stop();
}
#endif
#ifndef K
# define K 4
#endif
#define S09 9
#define S10 10
#define S12 12
#ifndef DRAIN
# define DRAIN 12
#endif
#ifndef QMAX
# define QMAX 400
#endif

/* --- what is still to be delivered --------------------------------------- */
static unsigned char q[QMAX];
static size_t qh, qt;
static void q_add(const void *p, size_t n)
{
	size_t i;

	vp_harness(qt + n <= QMAX, "queue within the harness's space");
	for (i = 0; i < n; i++)
		q[qt++] = ((const unsigned char *)p)[i];
}
static void q_take(const void *p, size_t n, int dump)
{
	size_t i;
	bool same = true;

	if (dump)
		vp_check(n <= qt - qh, "only queued data is written to the temporary file");
	else
		vp_check(n <= qt - qh, "only queued data is written to the pipe");
	for (i = 0; i < n; i++)
		same = same & (q[qh + i] == ((const unsigned char *)p)[i]);
	if (dump)
		vp_check(same, "the temporary file receives the queued data in order");
	else
		vp_check(same, "the pipe receives the queued data in order");
	qh += n;
}

/* --- the environment ----------------------------------------------------- */
static bool calm;               /* nothing fails any more */
static bool absent;              /* there is no reader for now */
static int choose(int n) { return calm ? 0 : (int)vp_concrete(vp_upto((unsigned long)n)); }

#define FD_PIPE 101
static struct { bool open, checked, is_pipe; } pf[8];
static int npf;
static struct { bool open, in_flight, done, ok; size_t written, expected; char name[24]; } dump;
static int ndump, eintr, wr_eintr, wr_again;
static int opens;

int STUB(open)(const char *path, int flags, ...)
{
	int o;

	vp_check(strcmp(path, "/cmd") == 0, "the command file is opened");
	vp_check((flags & O_ACCMODE) == O_WRONLY && (flags & O_NONBLOCK) != 0, "write-only and non-blocking");
	vp_check((flags & (O_CREAT | O_TRUNC | O_APPEND)) == 0, "never created nor truncated");
	opens++;
#if MODE == S12
	o = choose(3);
#elif defined(MANY)
	o = absent ? 2 : choose(1) * 2;
#else
	o = choose(1) * 2;
#endif
	if (o == 2) {
		errno = ENXIO;
		return -1;
	}
	if (o == 3) {
		if (eintr++ == 0) {
			errno = EINTR;
			return -1;
		}
		errno = ENOENT;
		return -1;
	}
	vp_harness(npf < 8, "number of descriptors");
	pf[npf].open = true;
	pf[npf].is_pipe = o == 0;
	return FD_PIPE + npf++;
}
static int kinds[] = { S_IFREG, S_IFSOCK, S_IFCHR, S_IFDIR, S_IFBLK };
int STUB(fstat)(int fd, struct stat *sb)
{
	int i = fd - FD_PIPE;

	vp_check(i >= 0 && i < npf && pf[i].open, "status of the opened descriptor");
	memset(sb, 0, sizeof(*sb));
#if MODE == S12
	if (choose(1) == 1) {
		sb->st_mode = S_IFIFO;
		errno = EIO;
		return -1;
	}
#endif
	pf[i].checked = true;
	sb->st_mode = pf[i].is_pipe ? S_IFIFO | 0600 : (mode_t)(kinds[vp_concrete(vp_upto(4))] | 0600);
	return 0;
}
/* By the time a path is examined it may refer to something else. */
static int path_status(const char *path, struct stat *sb)
{
	int o = calm ? 0 : (int)vp_concrete(vp_upto(2));

	vp_check(strcmp(path, "/cmd") == 0, "the command file is examined");
	memset(sb, 0, sizeof(*sb));
	if (o == 2) {
		errno = ENOENT;
		return -1;
	}
	sb->st_mode = o == 0 ? S_IFIFO | 0600 : S_IFREG | 0600;
	return 0;
}
int STUB(stat)(const char * restrict path, struct stat * restrict sb) { return path_status(path, sb); }
int STUB(lstat)(const char * restrict path, struct stat * restrict sb) { return path_status(path, sb); }
static void command_expected(void)
{
	char c[64];

	strcpy(c, "[1] PROCESS_FILE;");
	strcat(c, dump.name);
	strcat(c, ";1\n");
	q_add(c, strlen(c));
#if MODE == S10
	vp_reach("PROCESS_FILE due");
#endif
}
int STUB(close)(int fd)
{
	int i = fd - FD_PIPE;

	if (fd == 77) {
		int o;

		vp_check(dump.open, "the temporary file is closed once");
		vp_check(!dump.in_flight, "the temporary file is not closed while it is being written");
		o = choose(2);
		if (o == 2 && eintr++ == 0) {
			errno = EINTR;
			return -1;
		}
		dump.open = false;
		if (o != 0) {
			errno = EIO;
			return -1;
		}
		if (dump.done && dump.ok)
			command_expected();
		return 0;
	}
	vp_check(i >= 0 && i < npf && pf[i].open, "only open descriptors are closed, once");
	pf[i].open = false;
	return 0;
}
ssize_t STUB(write)(int fd, const void *buf, size_t n)
{
	int i = fd - FD_PIPE, o;

	if (fd == 77) {
		size_t m = n;

		vp_check(dump.open && n > 0, "the temporary file is open");
		o = choose(3);
		if (o == 1) {
			errno = EIO;
			dump.done = true;
			dump.ok = false;
			qh = qt;
			return -1;
		}
		if (o == 2 && wr_eintr++ == 0) {
			errno = EINTR;
			return -1;
		}
		if (o == 3 && n > 1)
			m = n - 1;
		if (dump.written == 0) {
			dump.expected = qt - qh;
			vp_check(n == qt - qh, "everything queued goes into the temporary file");
		}
		q_take(buf, m, 1);
		dump.written += m;
		dump.done = dump.ok = dump.written == dump.expected;
		return (ssize_t)m;
	}
	vp_check(i >= 0 && i < npf && pf[i].open && pf[i].checked && pf[i].is_pipe, "only a verified named pipe is written to");
	vp_check(n <= PIPE_BUF, "no write exceeds what is atomic");
	vp_check(n > 0, "something is written");
	o = choose(3);
	if (o == 1 && wr_again++ < 2) {
		errno = EAGAIN;
		return -1;
	}
	if (o == 2 && wr_eintr++ == 0) {
		errno = EINTR;
		return -1;
	}
	if (o == 3) {
		errno = EPIPE;
#if MODE == S09
		vp_reach("reader gone");
#endif
		return -1;
	}
	q_take(buf, n, 0);
	return (ssize_t)n;
}
static int pipe_open(void);
int STUB(mkstemp)(char *t)
{
	size_t n = strlen(t);

	vp_check(n > 6 && strcmp(t + n - 6, "XXXXXX") == 0 && strncmp(t, "/t/", 3) == 0, "temporary file in the configured directory");
	vp_check(!dump.open, "one temporary file at a time");
	vp_check(pipe_open() > 0, "without a reader the data stays queued");
	if (choose(1) == 1) {
		errno = ENOSPC;
		qh = qt;        /* given up */
		return -1;
	}
	memset(&dump, 0, sizeof(dump));
	memcpy(t + n - 6, "aaaaa", 5);
	t[n - 1] = (char)('a' + ndump++);
	vp_harness(n < sizeof(dump.name), "length of the temporary file's name");
	strcpy(dump.name, t);
	dump.open = true;
	return 77;
}
time_t STUB(time)(time_t *t) { if (t != NULL) *t = 1; return 1; }

#if HAVE_POSIX_AIO
static const struct aiocb *aio;
static void (*aio_handler)(int, siginfo_t *, void *);
static int aio_signo;
int STUB(sigaction)(int s, const struct sigaction *restrict a, struct sigaction *restrict o)
{
	(void)o;
	aio_signo = s;
	aio_handler = a->sa_sigaction;
	vp_check((a->sa_flags & SA_SIGINFO) != 0, "the signal handler is given the request");
	return 0;
}
int STUB(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int STUB(__libc_current_sigrtmin)(void) { return 34; }
int STUB(aio_write)(struct aiocb *cb)
{
	vp_check(dump.open && cb->aio_fildes == 77, "the new temporary file is written");
	vp_check(!dump.in_flight && !dump.done, "one request at a time");
	vp_check(cb->aio_offset == 0, "it is written from its start");
	vp_check(cb->aio_sigevent.sigev_notify == SIGEV_SIGNAL && cb->aio_sigevent.sigev_signo == aio_signo, "completion is signalled");
	if (choose(1) == 1) {
		errno = EAGAIN;
		qh = qt;
		return -1;
	}
	vp_check(cb->aio_nbytes == qt - qh, "everything queued goes into the temporary file");
	q_take((const void *)cb->aio_buf, cb->aio_nbytes, 1);
	dump.in_flight = true;
	aio = cb;
	return 0;
}
static int aio_outcome;
int STUB(aio_error)(const struct aiocb *cb)
{
	vp_check(cb == aio && (dump.in_flight || dump.done), "the request in flight");
	return dump.in_flight ? EINPROGRESS : aio_outcome == 1 ? EIO : 0;
}
ssize_t STUB(aio_return)(struct aiocb *cb)
{
	vp_check(cb == aio && dump.done, "the completed request");
	return (ssize_t)(aio_outcome == 2 ? cb->aio_nbytes - 1 : cb->aio_nbytes);
}
static void aio_complete(int how)
{
	volatile unsigned char x;
	size_t i;

	/* The request's memory must still be there. */
	for (i = 0; i < aio->aio_nbytes; i++)
		x = ((volatile unsigned char *)aio->aio_buf)[i];
	(void)x;
	dump.in_flight = false;
	dump.done = true;
	aio_outcome = how;
	dump.ok = how == 0;
	memset((void *)&aio->__error_code, 0, sizeof(aio->__error_code));
}
int STUB(aio_cancel)(int fd, struct aiocb *cb)
{
	(void)fd; (void)cb;
	if (dump.in_flight && vp_concrete(vp_upto(1))) {
		aio_complete(1);
		return AIO_CANCELED;
	}
	return dump.in_flight ? AIO_NOTCANCELED : AIO_ALLDONE;
}
int STUB(aio_suspend)(const struct aiocb *const l[], int n, const struct timespec *t)
{
	vp_check(n >= 1 && l[0] == aio, "the request in flight");
	(void)t;
	if (dump.in_flight) {
		static bool interrupted;

		if (!interrupted && vp_bool()) {
			interrupted = true;
			errno = EINTR;
			return -1;
		}
		aio_complete(0);
	}
	return 0;
}
static bool async_sent;
static void *async_w;
void STUB(ev_async_send)(ev_async *w)
{
	async_w = w;
	async_sent = true;
}
static bool completion_due(void) { return dump.in_flight; }
static void completion(void)
{
	siginfo_t si;

	aio_complete(choose(2));
	memset(&si, 0, sizeof(si));
	si.si_code = SI_ASYNCIO;
	si.si_value = aio->aio_sigevent.sigev_value;
	aio_handler(aio_signo, &si, NULL);
	vp_check(async_sent && ((ev_watcher *)async_w)->active, "the loop is told about the completion");
	async_sent = false;
	he_fire(async_w, EV_ASYNC);
}
#else
static int find_type(int type)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == type)
			return i;
	return -1;
}
static bool completion_due(void) { return find_type(HE_IDLE) >= 0; }
static bool timeout_path;
static void completion(void)
{
	int i = find_type(HE_IDLE);

	if (choose(1) == 1) {
		int j;

		for (j = 0; j < HE_MAX; j++)
			if (HE.tab[j].type == HE_TIMER) {
				HE_NOW += 10.0;
				he_fire(HE.tab[j].w, EV_TIMER);
				return;
			}
	}
	he_fire(HE.tab[i].w, EV_IDLE);
}
#endif

/* --- events -------------------------------------------------------------- */
static fifo_state *fifo;
static void *watcher(int type)
{
	int i;

	for (i = 0; i < HE_MAX; i++)
		if (HE.tab[i].type == type)
			return HE.tab[i].w;
	return NULL;
}
static int pipe_open(void)
{
	int i, n = 0;

	for (i = 0; i < npf; i++)
		n += pf[i].open;
	return n;
}
static bool sync_pending(void)
{
#if HAVE_POSIX_AIO
	return dump.in_flight;
#else
	return watcher(HE_IDLE) != NULL;
#endif
}
static void invariants(void)
{
	int i;

#ifdef OOM
	vp_check(!oom_seen, "without memory the program doesn't go on");
#endif
	vp_check(pipe_open() <= 1, "at most one descriptor of the command file is open");
	for (i = 0; i < npf; i++)
		vp_check(!pf[i].open || (pf[i].checked && pf[i].is_pipe), "anything but a named pipe is closed again");
	if (pipe_open() == 0) {
		ev_timer *t = watcher(HE_TIMER);

		vp_check(t != NULL && t->at == HE_NOW + 10.0 && t->repeat == 0., "a retry is due 10 seconds later");
		vp_check(watcher(HE_IO) == NULL, "no closed descriptor is watched");
	} else {
		ev_io *w = watcher(HE_IO);

		vp_check(w == NULL || pf[w->fd - FD_PIPE].open, "the open pipe is watched");
		vp_check(w == NULL || (w->events & (EV_READ | EV_WRITE)) == EV_WRITE, "it is watched for writability");
		if (qt > qh && !sync_pending())
			vp_check(w != NULL, "pending data is sent as soon as the pipe is writable");
		if (qt == qh)
			vp_check(w == NULL, "an idle pipe is not watched");
	}
	vp_check(!dump.open || dump.in_flight, "a temporary file is only open while it is being written");
}
static const size_t sizes[] = { SIZES };
#define NSIZES (sizeof(sizes) / sizeof(sizes[0]))
static void submit(void)
{
	size_t n = sizes[vp_concrete(vp_upto(NSIZES - 1))], i;
	unsigned char *d = malloc(n);

	for (i = 0; i < n; i++)
		d[i] = i < 4 ? vp_u8() : (unsigned char)('A' + i + i / 251);
	q_add(d, n);
#ifdef NOFREE
	fifo_write(fifo, d, n, NULL);
	memset(d, '?', n);
	free(d);
#else
	fifo_write(fifo, d, n, free);
#endif
}
static bool timer_fires(void)
{
	ev_timer *t;
	int i;

	if (pipe_open())
		return false;
	t = watcher(HE_TIMER);
	i = opens;
	HE_NOW += 10.0;
	he_fire(t, EV_TIMER);
	vp_check(opens > i, "the retry opens the command file again");
	return true;
}

void vp_main(void)
{
	int k;

	fifo = fifo_start("/cmd", "/t", 0);
	invariants();
#ifdef MANY     /* a long history without failures, then anything */
	{
		int kind = (int)vp_concrete(vp_upto(2)), n = (int)VP_PICK(1, 9, 64, MANY);

		calm = true;
		absent = kind == 2;
		for (k = 0; k < n; k++) {
			if (absent)
				timer_fires();
			submit();
			if (kind == 0 && watcher(HE_IO) != NULL)
				he_fire(watcher(HE_IO), EV_WRITE);
			invariants();
		}
		if (kind == 1)
			vp_reach("many pending");
		if (absent)
			vp_reach("many submissions without a reader");
		calm = absent = false;
	}
#endif
	for (k = 0; k < K; k++) {
		switch (vp_concrete(vp_upto(3))) {
		case 0:
			submit();
			break;
		case 1:
			if (!timer_fires())
				vp_stop();
			if (pipe_open()) {
				vp_reach("opened later");
			}
			break;
		case 2:
			if (watcher(HE_IO) == NULL)
				vp_stop();
			he_fire(watcher(HE_IO), EV_WRITE);
			break;
		default:
			if (!completion_due())
				vp_stop();
			HE_NOW += 1.0;
			completion();
			break;
		}
		/* The retry stays due 10 seconds after it was scheduled. */
		if (pipe_open() == 0 && HE_NOW < ((ev_timer *)watcher(HE_TIMER))->at)
			HE_NOW = ((ev_timer *)watcher(HE_TIMER))->at - 10.0;
		invariants();
	}
	if (vp_concrete(vp_upto(1))) {
		calm = true;
		for (k = 0; k < DRAIN && (qt > qh || dump.in_flight); k++) {
			if (completion_due())
				completion();
			else if (pipe_open() == 0)
				timer_fires();
			else {
				vp_check(watcher(HE_IO) != NULL, "pending data is sent once the pipe is writable");
				he_fire(watcher(HE_IO), EV_WRITE);
			}
		}
		vp_check(qt == qh, "in the end everything queued was delivered");
		vp_reach("drained");
	} else if (qt > qh)
		vp_reach("stopped with a backlog");
	fifo_stop(fifo);
	vp_check(pipe_open() == 0 && !dump.open && !dump.in_flight, "every descriptor is closed");
	vp_check(he_active() == 0, "every watcher is stopped");
}
