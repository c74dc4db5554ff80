/*
 * C01, C02: conversion of input records into monitoring commands.
 * OP 0: check results, OP 1: raw commands.
 */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#include "parse.h"

#ifndef NMAX
# define NMAX 5
#endif
static const time_t clocks[] = { 0, 1700000000, 4102444800 };
static time_t now;
static bool started;
static unsigned fields;

time_t STUB(time)(time_t *t)
{
	if (t != NULL)
		*t = now;
	return now;
}
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }

#ifdef HUGE_SIZES
# define BIGGEST 140000
#else
# define BIGGEST 3000
#endif
#if OP == 0
void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE, "an error is reported");
	vp_check(started && fields < 3, "only records with too few fields are refused");
#if !defined(FIELDS) && !defined(SIZES)
	vp_reach("refused");
#endif
	vp_stop();
}
#ifdef SIZES
static char want[64 + 2 * BIGGEST];
#else
static char want[64 + 2 * 40];
#endif
static size_t pos;
static void put(const char *s)
{
	for (; *s != '\0'; s++)
		want[pos++] = *s;
}
static void put_escaped(char c)
{
	if (c == '\n') {
		want[pos++] = '\\';
		want[pos++] = 'n';
	} else if (c == '\\') {
		want[pos++] = '\\';
		want[pos++] = '\\';
	} else
		want[pos++] = c;
}
void vp_main(void)
{
#ifdef SIZES
	static char copy[BIGGEST];
	char *in, *cmd, *x;
	size_t k, which;
#else
	char *in, *cmd, copy[NMAX + 8];
#endif
	char d = (char)vp_nz();
	size_t i, n;
	unsigned seen = 0;
	char ts[24];

	vp_assume(d != '\27' && d != '\n' && d != '\\'); /* (refused by -d) */
#ifdef HUGE_SIZES
	now = clocks[1];
#else
	now = clocks[vp_concrete(vp_upto(2))];
#endif
#ifdef SIZES    /* fields of all sizes, with any number of escapes */
	vp_assume(d < 'A' || d > 'A' + 58);
	in = malloc(BIGGEST);
	n = 0;
	which = vp_concrete(vp_upto(2));
	for (i = 0; i < 3; i++) {
		if (i != which)
			in[n++] = 'x';
		else {
#ifdef HUGE_SIZES
			x = vp_filled(VP_PICK(1, 65537));
#else
			x = vp_filled(VP_PICK(1, 63, 64, 127, 128, 255, 256, 257, 1023, 2000));
#endif
			for (k = 0; x[k] != '\0'; k++)
				in[n++] = x[k];
			free(x);
		}
		in[n++] = d;
	}
	in[n++] = 'x';
#ifdef HUGE_SIZES
	k = which != 0 ? 1 : VP_PICK(1, 65537);
#else
	k = which != 0 ? 1 : VP_PICK(0, 1, 15, 16, 63, 64, 127, 128, 129, 255, 256, 257);
#endif
	which = k > 1 && vp_concrete(vp_bool());
	while (k-- > 0)
		in[n++] = which ? '\n' : '\\';
	in[n] = '\0';
	in = realloc(in, n + 1);
#elif defined(FIELDS)   /* start with two complete fields */
	n = vp_concrete(vp_size(0, NMAX));
	in = malloc(n + 5);
	in[0] = 'h';
	in[1] = d;
	in[2] = '0';
	in[3] = d;
	vp_assume(d != 'h' && d != '0');
	for (i = 4; i < n + 4; i++)
		in[i] = (char)vp_nz();
	in[n + 4] = '\0';
	n += 4;
#else
	n = vp_concrete(vp_size(0, NMAX));
	in = malloc(n + 1);
	for (i = 0; i < n; i++)
		in[i] = (char)vp_nz();
	in[n] = '\0';
#endif
	memcpy(copy, in, n + 1);
	fields = 1;
	for (i = 0; i < n; i++)
		if (copy[i] == d)
			fields++;
	snprintf(ts, sizeof(ts), "[%lu] ", (unsigned long)now);
	put(ts);
	put(fields == 3 ? "PROCESS_HOST_CHECK_RESULT;" : "PROCESS_SERVICE_CHECK_RESULT;");
	for (i = 0; i < n; i++) {
		if (copy[i] == d && seen < 3) {
			seen++;
			want[pos++] = ';';
		} else
			put_escaped(copy[i]);
	}
	want[pos] = '\0';
	started = true;
	cmd = parse_check_result(in, d);
	vp_check(fields >= 3, "records with too few fields are refused");
	vp_check(memcmp(in, copy, n + 1) == 0, "the record itself is left alone");
	for (i = 0; i <= pos; i++)
		vp_check(cmd[i] == want[i], "the command consists of the timestamp, the kind and exactly the fields, escaped");
#ifndef SIZES
	if (fields == 3)
		vp_reach("host");
	else
#endif
		vp_reach("service");
	cmd[pos] = '\n'; /* As the client does. */
	free(cmd);
	free(in);
}
#else
void STUB(exit)(int c) { (void)c; vp_check(0, "raw commands are never refused"); vp_stop(); }
void vp_main(void)
{
#ifdef SIZES
	static char copy[BIGGEST];
	char *in, *cmd;
#else
	char *in, *cmd, copy[NMAX + 1];
#endif
	size_t i, n, b = 0, t = 0;
	char ts[24];

	(void)fields;
	now = clocks[vp_concrete(vp_upto(2))];
#ifdef SIZES
# ifdef HUGE_SIZES
	n = VP_PICK(32767, 32768, 65535, 65536, 70001);
# else
	n = VP_PICK(1, 2, 63, 64, 127, 128, 255, 256, 257, 1023, 2047, 2900);
# endif
	in = vp_filled(n);
	for (i = vp_pick((const size_t[]){ 0, 1, 60, 127, 128, 256 }, 6); i > 0; i--)
		if (i < n)
			in[i - 1] = ' ';
#else
	n = vp_concrete(vp_size(0, NMAX));
	in = malloc(n + 1);
	for (i = 0; i < n; i++)
		in[i] = (char)vp_nz();
	in[n] = '\0';
#endif
	memcpy(copy, in, n + 1);
	started = true;
	cmd = parse_command(in);
	vp_check(started && memcmp(in, copy, n + 1) == 0, "the line itself is left alone");
	while (copy[b] == ' ' || copy[b] == '\t')
		b++;
	if (copy[b] != '[') {
		snprintf(ts, sizeof(ts), "[%lu] ", (unsigned long)now);
		t = strlen(ts);
		vp_check(memcmp(cmd, ts, t) == 0, "a missing timestamp is added");
		vp_reach("timestamp added");
	} else
		vp_reach("timestamp given");
	for (i = b; i <= n; i++)
		vp_check(cmd[t + i - b] == copy[i], "the command is passed on verbatim");
	cmd[t + n - b] = '\n';
	free(cmd);
	free(in);
}
#endif
