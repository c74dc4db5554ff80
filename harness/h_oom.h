/*
 * R01: one allocation of the code under test fails, at any point.  The code's
 * calls are renamed to n_malloc() and so on (c_malloc() in a program of its
 * own), see OOMF in vp/jobs.py.
 */
#ifndef H_OOM_H
#define H_OOM_H
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"

static int oom_left = OOM, oom_seen;
static char oom_side;
static bool oom(char side)
{
	if (oom_left == 0 || !vp_concrete(vp_bool()))
		return false;
	oom_left--;
	oom_seen++;
	oom_side = side;
	errno = ENOMEM;
	return true;
}
#define OOM_FUNCTIONS(P, SIDE) \
void *P##_malloc(size_t n) { return oom(SIDE) ? NULL : malloc(n); } \
void *P##_calloc(size_t n, size_t m) { return oom(SIDE) ? NULL : calloc(n, m); } \
void *P##_realloc(void *p, size_t n) { return oom(SIDE) ? NULL : realloc(p, n); } \
char *P##_strdup(const char *s) { return oom(SIDE) ? NULL : strdup(s); } \
int P##_vasprintf(char **r, const char *f, va_list ap) { if (oom(SIDE)) { *r = NULL; return -1; } return vasprintf(r, f, ap); } \
int P##_asprintf(char **r, const char *f, ...) \
{ \
	va_list ap; \
	int n; \
\
	va_start(ap, f); \
	n = P##_vasprintf(r, f, ap); \
	va_end(ap); \
	return n; \
}
#endif
