/*
 * L01: log.c for symbolic formats, arguments, error texts, levels and targets.
 * The format is a sequence of up to NT pieces; the expected message is built
 * piece by piece.
 */
#include <config.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include "vp.h"
#ifndef VP_SYM /* die() is inline. */
void vpstub_exit(int) __attribute__((__noreturn__));
# define exit vpstub_exit
#endif
#include "log.h"
#undef exit

#ifndef NT
# define NT 3
#endif
#ifndef SMAX
# define SMAX 2
#endif
#ifndef EMAX
# define EMAX 2
#endif
#ifndef PREFIX
# define PREFIX 0
#endif

static char *err_text;
static int err_no;
char *STUB(strerror)(int e)
{
	vp_check(e == err_no, "the current error is described");
	return err_text;
}
const char *STUB(getprogname)(void) { return "prog"; }

static char exp_msg[4096], got[4096];
static int exp_len, outputs, level, expect_targets, n_open, flushed;
static bool want;
static const char *const names[] = { "FATAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG" };
static const int prio[] = { LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG };

static void judge(const char *lead, const char *tail)
{
	size_t n = strlen(lead), m, i, lim = LOG_BUFFER_SIZE - 1;

	vp_check(want, "messages above the configured level are not emitted");
	vp_check(strncmp(got, lead, n) == 0, "the message is introduced as documented");
	m = strlen(got + n);
	vp_check(m >= strlen(tail) && strcmp(got + n + m - strlen(tail), tail) == 0, "the message is terminated");
	m -= strlen(tail);
	vp_check(m <= lim, "the message fits its buffer");
#if PREFIX == 0
	if ((size_t)exp_len <= lim) {
		vp_check(m == (size_t)exp_len, "the message is complete");
		for (i = 0; i < m; i++)
			vp_check(got[n + i] == exp_msg[i], "the message is the format with everything inserted");
		vp_reach("complete");
	} else
#endif
	{
		if (PREFIX == 0 || m > lim - 6) {
# if PREFIX == 0
			vp_check(m == lim, "an over-long message is cut to what fits");
			vp_check(memcmp(got + n + lim - 6, " [...]", 6) == 0, "an over-long message is marked");
			vp_reach("cut");
# endif
			m = lim - 6;
		}
# if PREFIX > 0
		vp_reach("long format");
# endif
		for (i = 0; i < m; i++)
			vp_check(got[n + i] == exp_msg[i], "the message is the format with everything inserted");
	}
}
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...)
{
	va_list ap;
	char lead[64];

	(void)f;
	va_start(ap, fmt);
	vp_check(vsnprintf(got, sizeof(got), fmt, ap) < (int)sizeof(got), "output of limited length");
	va_end(ap);
	if (got[0] == '<') {
		vp_check(!(outputs & LOG_TARGET_SYSTEMD), "one message");
		outputs |= LOG_TARGET_SYSTEMD;
		snprintf(lead, sizeof(lead), "<%d>", prio[level]);
	} else {
		vp_check(!(outputs & LOG_TARGET_STDERR), "one message");
		outputs |= LOG_TARGET_STDERR;
		snprintf(lead, sizeof(lead), "prog: [%s] ", names[level]);
	}
	flushed = 0;
	judge(lead, "\n");
	return 1;
}
int STUB(fflush)(FILE *f) { (void)f; flushed = 1; return 0; }
void STUB(syslog)(int pri, const char *fmt, ...)
{
	va_list ap;
	char lead[64];

	va_start(ap, fmt);
	vp_check(vsnprintf(got, sizeof(got), fmt, ap) < (int)sizeof(got), "output of limited length");
	va_end(ap);
	vp_check(pri == prio[level], "the priority is the message's");
	vp_check(!(outputs & LOG_TARGET_SYSLOG), "one message");
	outputs |= LOG_TARGET_SYSLOG;
	snprintf(lead, sizeof(lead), "[%s] ", names[level]);
	judge(lead, "");
}
void STUB(openlog)(const char *id, int opt, int fac) { (void)opt; (void)fac; vp_check(strcmp(id, "prog") == 0, "the program's name is logged"); n_open++; }
void STUB(closelog)(void) { n_open--; }
static void finish(void)
{
	vp_check(outputs == (want ? expect_targets : 0), "the message reaches exactly the configured targets");
}
void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE && level == 0, "only fatal messages end the program, with an error");
	want = true;
	finish();
#if PREFIX == 0 && !defined(FIXED)
	vp_reach("fatal");
#endif
	vp_stop();
}

static void out(char c)
{
	exp_msg[exp_len++] = c;
}
static void add(const char *s)
{
	while (*s != '\0')
		out(*s++);
}
#define CALL(...) do {                                                  \
	switch (level) {                                                \
	case 0: if (vp_concrete(vp_bool())) die(__VA_ARGS__);           \
		want = true; critical(__VA_ARGS__); break;              \
	case 1: error(__VA_ARGS__); break;                              \
	case 2: warning(__VA_ARGS__); break;                            \
	case 3: notice(__VA_ARGS__); break;                             \
	case 4: info(__VA_ARGS__); break;                               \
	default: debug(__VA_ARGS__); break;                             \
	}                                                               \
} while (0)

#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
void vp_main(void)
{
	char fmt[PREFIX + 2 * NT + 16], *str[2], num[24];
	int fl = 0, i, n, nargs = 0, type[2] = { 0, 0 }, threshold, expanded = 0;
	int numv[2] = { 0, 0 };

	#ifdef FIXED
# define CHOICE(max, def) (def)
#else
# define CHOICE(max, def) ((int)vp_concrete(vp_upto(max)))
#endif
	expect_targets = CHOICE(7, LOG_TARGET_STDERR);
	log_set(-1, expect_targets);
	threshold = CHOICE(6, 5) - 1;
	log_set(threshold, -1);
	if (threshold == -1)
		threshold = LOG_LEVEL_INFO;
	vp_check(n_open == !!(expect_targets & LOG_TARGET_SYSLOG), "the system log is opened once when needed");
#if PREFIX > 0
	n = PREFIX - (int)vp_concrete(vp_upto(8));
	for (i = 0; i < n; i++) {
		fmt[fl++] = 'x';
		out('x');
	}
#endif
	err_text = vp_string(0, EMAX);
	n = (int)vp_concrete(vp_upto(NT));
	for (i = 0; i < n; i++)
		switch (vp_concrete(vp_upto(nargs < 2 ? 5 : 3))) {
		case 0:
			fmt[fl] = (char)vp_nz();
			vp_assume(fmt[fl] != '%');
			out(fmt[fl++]);
			expanded++;
			break;
		case 1:
			fmt[fl++] = '%';
			fmt[fl++] = 'm';
			add(err_text);
			expanded += 2 * EMAX;
			break;
		case 2:
			fmt[fl++] = '%';
			fmt[fl++] = '%';
			out('%');
			break;
		case 3:
			fmt[fl++] = 'm';
			out('m');
			break;
		case 4:
			fmt[fl++] = '%';
			fmt[fl++] = 's';
			type[nargs] = 1;
			str[nargs] = vp_string(0, SMAX);
			add(str[nargs++]);
			break;
		default:
			fmt[fl++] = '%';
			fmt[fl++] = 'd';
			type[nargs] = 2;
			numv[nargs] = vp_range(-9, 9);
			snprintf(num, sizeof(num), "%d", numv[nargs++]);
			add(num);
			break;
		}
	fmt[fl] = '\0';
	exp_msg[exp_len] = '\0';
	level = CHOICE(5, 3);
	want = level <= threshold;
	err_no = errno = (int)vp_upto(200);
	if (nargs == 0)
		CALL(fmt);
	else if (nargs == 1 && type[0] == 1)
		CALL(fmt, str[0]);
	else if (nargs == 1)
		CALL(fmt, numv[0]);
	else if (type[0] == 1 && type[1] == 1)
		CALL(fmt, str[0], str[1]);
	else if (type[0] == 1)
		CALL(fmt, str[0], numv[1]);
	else if (type[1] == 1)
		CALL(fmt, numv[0], str[1]);
	else
		CALL(fmt, numv[0], numv[1]);
	finish();
#ifndef FIXED
	if (!want)
		vp_reach("not emitted");
#endif
	log_close();
}
