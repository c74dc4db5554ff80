#define _GNU_SOURCE
/* Native replay runtime: feeds the recorded inputs, reports the verdict. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include "vp.h"

static FILE *in;
static long live;
#define NLIVE 65536
static void *tab[NLIVE];

/* Allocation bookkeeping: fills fresh memory, counts what is never freed. */
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static unsigned char fill_byte;

static void
track(void *p)
{
	long i;

	for (i = 0; p != NULL && i < NLIVE; i++)
		if (tab[i] == NULL) {
			tab[i] = p;
			live++;
			return;
		}
}

static void
untrack(void *p)
{
	long i;

	for (i = 0; p != NULL && i < NLIVE; i++)
		if (tab[i] == p) {
			tab[i] = NULL;
			live--;
			return;
		}
}

void *
__wrap_malloc(size_t n)
{
	void *p = __real_malloc(n);

	if (p != NULL)
		memset(p, fill_byte, n);
	track(p);
	return p;
}

void *
__wrap_calloc(size_t a, size_t b)
{
	void *p = __wrap_malloc(a * b);

	if (p != NULL)
		memset(p, 0, a * b);
	return p;
}

void *
__wrap_realloc(void *o, size_t n)
{
	void *p;

	untrack(o);
	p = __real_realloc(o, n);
	track(p);
	return p;
}

void
__wrap_free(void *p)
{
	untrack(p);
	__real_free(p);
}

char *
__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;

	return memcpy(__wrap_malloc(n), s, n);
}

char *
__wrap_strndup(const char *s, size_t n)
{
	char *p;

	n = strnlen(s, n);
	p = memcpy(__wrap_malloc(n + 1), s, n);
	p[n] = 0;
	return p;
}

int
__wrap_vasprintf(char **out, const char *fmt, va_list ap)
{
	va_list aq;
	int n;

	va_copy(aq, ap);
	n = vsnprintf(NULL, 0, fmt, aq);
	va_end(aq);
	*out = __wrap_malloc((size_t)n + 1);
	return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}

int
__wrap_asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = __wrap_vasprintf(out, fmt, ap);
	va_end(ap);
	return n;
}

static int verbose;
static unsigned long count, checks;

unsigned long
vp_native_next(const char *kind)
{
	char buf[64];

	count++;
	if (fgets(buf, sizeof(buf), in) == NULL) {
		if (verbose)
			fprintf(stderr, "[replay] input #%lu (%s): exhausted, using 0\n", count, kind);
		return 0;
	}
	if (verbose > 1)
		fprintf(stderr, "[replay] input #%lu (%s): %s", count, kind, buf);
	return strtoul(buf, NULL, 0);
}

void
vp_native_check(int ok, const char *msg, const char *file, int line)
{
	int harness = strncmp(msg, "(harness)", 9) == 0;

	checks += !harness;
	if (!ok) {
		fprintf(stderr, "[replay] CHECK FAILED: %s (%s:%d)\n", msg, file, line);
		fflush(NULL);
		_exit(harness ? 79 : 42);
	}
}

void
vp_native_assume(int ok, const char *file, int line)
{
	if (!ok) {
		fprintf(stderr, "[replay] assumption not met (%s:%d)\n", file, line);
		fflush(NULL);
		_exit(77);
	}
}

void
vp_native_stop(void)
{
	fprintf(stderr, "[replay] path ends here without a failure\n[replay] summary checks=%lu\n", checks);
	fflush(NULL);
	_exit(0);
}

void
vp_native_reach(const char *tag)
{
	fprintf(stderr, "[replay] reached: %s\n", tag);
}

void
vp_native_trace(const char *fmt, ...)
{
	va_list ap;

	if (!verbose)
		return;
	fputs("[replay] ", stderr);
	va_start(ap, fmt);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fputc('\n', stderr);
}

/* Contexts: threads of which one runs at a time. */
static struct { pthread_t t; sem_t go; void (*f)(void); int done; } ctx[4];
static int nctx, current;
static void *
context(void *p)
{
	int i = (int)(long)p;

	while (sem_wait(&ctx[i].go) != 0)
		;
	ctx[i].f();
	ctx[i].done = 1;
	current = 0;
	sem_post(&ctx[0].go);
	return NULL;
}
int
vp_native_spawn(void (*f)(void))
{
	if (nctx == 0)
		sem_init(&ctx[nctx++].go, 0, 0);
	if (nctx == 4)
		vp_native_check(0, "(harness) too many contexts", __FILE__, __LINE__);
	sem_init(&ctx[nctx].go, 0, 0);
	ctx[nctx].f = f;
	if (pthread_create(&ctx[nctx].t, NULL, context, (void *)(long)nctx) != 0)
		vp_native_check(0, "(harness) pthread_create", __FILE__, __LINE__);
	return nctx++;
}
void
vp_native_switch(int c)
{
	int self = current;

	if (c >= nctx || c == self || ctx[c].done)
		return;
	current = c;
	sem_post(&ctx[c].go);
	while (sem_wait(&ctx[self].go) != 0)
		;
}
int
vp_native_done(int c)
{
	return c >= nctx || ctx[c].done;
}

/* (The library is not linked.) */
__attribute__((weak)) void OPENSSL_cleanse(void *p, size_t n) { while (n-- > 0) ((volatile char *)p)[n] = 0; }

int
main(int argc, char **argv)
{
	if (argc < 2 || (in = fopen(argv[1], "r")) == NULL) {
		fprintf(stderr, "usage: %s INPUTS [v]\n", argv[0]);
		return 2;
	}
	verbose = argc > 2 ? (int)strlen(argv[2]) : 0;
	if (getenv("VP_FILL") != NULL)
		fill_byte = (unsigned char)atoi(getenv("VP_FILL"));
	alarm(15);
	vp_main();
	if (getenv("VP_LEAK") != NULL && atoi(getenv("VP_LEAK")) && live > 0)
		vp_native_check(0, "memory leak", __FILE__, __LINE__);
	fprintf(stderr, "[replay] finished without a failure\n[replay] summary checks=%lu\n", checks);
	return 0;
}
