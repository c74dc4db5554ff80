/*
 * S11: fifo.c's bound on the backlog, for every maximum and every sequence of
 * submission sizes (64 bits).  buffer.c is a stand-in that records sizes only.
 */
#include <config.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <aio.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#include "h_ev.h"
#include "fifo.h"
#include "buffer.h"

static bool present;
/* Submissions are sizes here: there is no room to make copies of them. */
void *n_malloc(size_t n)
{
	if (n > 4096) {
		vp_check(present, "without a reader the data stays queued");
		vp_harness(0, "submissions are not copied");
	}
	return malloc(n);
}
#define N (K + 2)
struct buffer_s { size_t size; int n; const void *id[N]; };
static struct buffer_s *cur;
buffer *STUB(buffer_new)(void)
{
	struct buffer_s *b = malloc(sizeof(*b));

	b->size = 0;
	b->n = 0;
	cur = b;
	return b;
}
void STUB(buffer_append)(buffer * restrict b, const void * restrict p, size_t n)
{
	vp_harness(b->n < N, "number of entries");
	b->id[b->n++] = p;
	b->size += n;
}
size_t STUB(buffer_size)(buffer *b) { return b->size; }
void STUB(buffer_free)(buffer *b)
{
	if (cur == b)
		cur = NULL;
	free(b);
}
size_t STUB(buffer_read)(buffer * restrict b, void * restrict p, size_t n)
{
	(void)b; (void)p;
	vp_harness(0, "nothing is read here");
	return n;
}
void *STUB(buffer_slurp)(buffer *b, size_t *n)
{
	(void)b; (void)n;
	vp_harness(0, "nothing is read here");
	return NULL;
}

int STUB(open)(const char *p, int f, ...)
{
	(void)p; (void)f;
	if (present)
		return 5;
	errno = ENXIO;
	return -1;
}
int STUB(fstat)(int fd, struct stat *sb) { (void)fd; memset(sb, 0, sizeof(*sb)); sb->st_mode = S_IFIFO; return 0; }
int STUB(close)(int fd) { (void)fd; return 0; }
ssize_t STUB(write)(int fd, const void *b, size_t n) { (void)fd; (void)b; (void)n; errno = EAGAIN; return -1; }
int STUB(mkstemp)(char *t)
{
	(void)t;
	vp_check(present, "without a reader the data stays queued");
	return 6;
}
int STUB(sigaction)(int s, const struct sigaction *restrict a, struct sigaction *restrict o) { (void)s; (void)a; (void)o; return 0; }
int STUB(sigemptyset)(sigset_t *s) { (void)s; return 0; }
int STUB(__libc_current_sigrtmin)(void) { return 34; }
int STUB(aio_write)(struct aiocb *cb) { (void)cb; return 0; }
int STUB(aio_error)(const struct aiocb *cb) { (void)cb; return 0; }
ssize_t STUB(aio_return)(struct aiocb *cb) { return (ssize_t)cb->aio_nbytes; }
int STUB(aio_suspend)(const struct aiocb *const l[], int n, const struct timespec *t) { (void)l; (void)n; (void)t; return 0; }
void STUB(ev_async_send)(ev_async *w) { (void)w; }
time_t STUB(time)(time_t *t) { (void)t; return 1; }

static int freed;
static void release(void *p)
{
	freed++;
	free(p);
}

void vp_main(void)
{
	size_t max = vp_u64(), old, size, i;
	fifo_state *fifo;
	int k, n;
	bool dropped = false;

	vp_assume(max <= ((size_t)1 << 43));
	present = vp_concrete(vp_upto(1));
	fifo = fifo_start("/cmd", "/t", max);
	max *= 1024 * 1024;
	if (present) {
		/* A dump that does not complete, a pipe that stays full. */
		fifo_write(fifo, malloc(1), 5000, free);
		fifo_write(fifo, malloc(1), 1, free);
		vp_check(cur->size == 0, "one submission is being written");
	}
	for (k = 0; k < K; k++) {
		void *p = malloc(1);
		bool copy = vp_concrete(vp_upto(1));

		size = vp_u64();
		vp_assume(size >= 1 && size <= ((size_t)1 << 40));
		if (present && k == 0)
			vp_assume(size > 4096);
		old = cur->size;
		n = cur->n;
		freed = 0;
		fifo_write(fifo, p, size, copy ? NULL : release);
		vp_check(cur != NULL, "there is a backlog");
		if (k == 0 && !present && !copy) {
			vp_check(cur->size == 0 && freed == 0, "the first submission is held on its own");
			continue;
		}
		vp_check(cur->n > 0 && cur->id[cur->n - 1] == p, "the new submission is kept");
		if (max == 0 || old + size <= max) {
			vp_check(cur->n == n + 1 && cur->size == old + size, "nothing is dropped below the limit");
		} else {
			vp_check(cur->n == 1 && cur->size == size, "the older backlog is dropped, the new submission is whole");
			if (n > 1)
				dropped = true;
		}
		vp_check(max == 0 || cur->size <= max || cur->size == size, "the backlog is bounded");
		vp_check(freed == (copy ? 0 : 1), "the submission is released once");
		if (copy)
			free(p);
	}
	if (dropped)
		vp_reach("backlog dropped");
	if (max == 0 && present)
		vp_reach("unlimited");
	for (i = 0; i < 1; i++)
		;
	vp_stop();
}
