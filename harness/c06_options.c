/*
 * C06, C07: the start of send_nsca, from its command line and configuration
 * file to the connection.
 * OP 0: the -d and -e options; OP 1: options against the file, startup delay.
 */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#include "h_prog.h"
#include "h_file.h"
#include "client.h"
#include "log.h"

int vp_prog_main(int, char **);
unsigned set_psk(void *s, const char *h, char *i, unsigned n, unsigned char *p, unsigned m)
{ (void)s; (void)h; (void)i; (void)n; (void)p; (void)m; return 0; }
#include "h_host.h"
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }

#ifndef OMAX
# define OMAX 6
#endif
static bool started, ran, slept;
static long delay;

static void finish(void);
void STUB(exit)(int c)
{
	vp_check(!started, "the client only exits before connecting");
	vp_check(c == EXIT_FAILURE, "errors are reported");
#if OP == 0
	finish();
#else
	vp_check(0, "proper options and settings are accepted");
#endif
	vp_stop();
}

#if OP == 0
enum { REFUSE = -1, EITHER = -2 };
static int hex(char c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if (c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return 99;
}
static int number(const char *s, int base)
{
	int v = 0;

	if (*s == '\0')
		return REFUSE;
	for (; *s != '\0'; s++) {
		if (hex(*s) >= base)
			return REFUSE;
		if (v < 10000)
			v = v * base + hex(*s);
	}
	return v;
}
/* The documented meaning of an argument. */
static int meaning(const char *s)
{
	static const char from[] = "abfnrtv", to[] = "\a\b\f\n\r\t\v";
	size_t n = strlen(s);
	const char *p;
	int v;

	if (n == 1)
		return (unsigned char)s[0];
	if (n == 0 || (s[0] != '0' && s[0] != '\\'))
		return REFUSE;
	if (s[0] == '\\' && n == 2) {
		for (p = from; *p != '\0'; p++)
			if (s[1] == *p)
				return to[p - from];
		/* Not mentioned explicitly. */
		if (s[1] == '\\' || s[1] == '"' || s[1] == '\'' || s[1] == '?' || s[1] == 'e')
			return EITHER;
	}
	if (s[1] == 'x' || s[1] == 'X')
		v = number(s + 2, 16);
	else
		v = number(s + 1, 8);
	if (v == REFUSE || v > 127)
		return REFUSE;
	return n > 5 || s[1] == 'X' ? EITHER : v;
}
static int want_d = '\t', want_e = '\27';

static char *argument(size_t min)
{
#ifdef LEADS    /* longer arguments with typical beginnings */
	static const char *const lead[] = { "0x", "\\x", "0", "\\", "\\0", "00", "+", " 0x" };
	const char *l = lead[vp_concrete(vp_upto(sizeof(lead) / sizeof(*lead) - 1))];
	size_t i, n = strlen(l), k = vp_concrete(vp_size(0, OMAX));
	char *s = malloc(n + k + 1);

	(void)min;
	memcpy(s, l, n);
	for (i = 0; i < k; i++)
		s[n + i] = (char)vp_nz();
	s[n + k] = '\0';
	return s;
#else
	return vp_string(min, OMAX);
#endif
}
static bool fine(int d, int e)
{
	return d != REFUSE && e != REFUSE && d != '\27' && d != '\n' && d != '\0' && d != '\\' && d != e;
}
static void finish(void)
{
	if (want_d == EITHER || want_e == EITHER)
		return;
	vp_check(started == fine(want_d, want_e), "exactly the documented, permitted and different characters are accepted");
	if (!started)
		vp_reach("refused");
}
#endif

static const char *const v_server[2] = { "cfg.example", "opt.example" };
static const char *const v_port[2] = { "1111", "2222" };
static const char *x_server = "localhost", *x_port = "5668";
static double x_timeout = 15;

client_state *STUB(client_start)(const char *hp, const char *ciphers, ev_tstamp timeout, int mode, char d, char e)
{
	char want[64];

	(void)ciphers; (void)mode;
	vp_check(!started, "one connection is started");
	started = true;
#if OP == 0
	if (want_d != EITHER)
		vp_check((unsigned char)d == want_d, "the delimiter is the denoted character");
	if (want_e != EITHER)
		vp_check((unsigned char)e == want_e, "the separator is the denoted character");
	vp_reach("accepted");
	finish();
#else
	vp_check(d == '\t' && e == '\27', "tab and ETB are the defaults");
	vp_check(slept == (delay != 0), "the client sleeps exactly if a delay is configured");
	if (!slept)
		vp_reach("no delay");
#endif
	snprintf(want, sizeof(want), "%s:%s", x_server, x_port);
	vp_check(strcmp(hp, want) == 0, "server and port are those of the options, else of the file, else the defaults");
	vp_check(timeout == x_timeout, "the timeout is that of the options, else of the file, else the default");
	return (client_state *)&started;
}
int STUB(ev_run)(int f)
{
	(void)f;
	vp_check(started, "the event loop runs after the connection was started");
	ran = true;
	return 0;
}
int STUB(RAND_bytes)(unsigned char *b, int n)
{
	int i;

	for (i = 0; i < n; i++)
		b[i] = vp_u8();
	return 1;
}
int STUB(nanosleep)(const struct timespec *t, struct timespec *r)
{
	(void)r;
	vp_check(!slept && !started, "the client sleeps once, before connecting");
	slept = true;
	vp_check(delay > 0, "without a delay the client doesn't sleep");
	vp_check(t->tv_nsec >= 0 && t->tv_nsec < 1000000000L, "the fraction of a second is valid");
	vp_check(t->tv_sec >= 0 && (t->tv_sec < delay || (t->tv_sec == delay && t->tv_nsec == 0)), "the client sleeps no longer than the configured number of seconds");
#if OP == 1 && !defined(TIMEOUTS)
	vp_reach("delay");
#endif
	return 0;
}

#if OP == 1
static char file[256];
static void setting(const char *k, const char *v)
{
	strcat(file, k);
	strcat(file, " = ");
	strcat(file, v);
	strcat(file, "\n");
}
static const char *const delays[] = { "0", "1", "2", "59", "3600", "2147483647" };
static const long delay_v[] = { 0, 1, 2, 59, 3600, 2147483647 };
static char *number_arg(long *v)
{
	static char buf[2][8];
	static int k;
	char *b = buf[k++];
	size_t i, n = vp_concrete(vp_size(1, k == 1 ? 2 : 1));

	*v = 0;
	for (i = 0; i < n; i++) {
		b[i] = (char)('0' + vp_concrete(vp_upto(9)));
		*v = *v * 10 + (b[i] - '0');
	}
	b[n] = '\0';
	if (k == 1 && n == 2)
		vp_assume(b[0] != '0'); /* (octal in the file) */
	return b;
}
#endif

void vp_main(void)
{
	char *argv[12] = { "send_nsca" };
	int argc = 1, r;

	HF.name = "/usr/local/etc/send_nsca.cfg";
#if OP == 0
	{
		size_t which = vp_concrete(vp_upto(BOTH ? 1 : 2));

		if (BOTH || which != 1) {
			argv[argc++] = "-d";
			argv[argc] = argument(0);
			want_d = meaning(argv[argc++]);
		}
		if (BOTH || which != 0) {
			argv[argc++] = "-e";
			argv[argc] = argument(BOTH);
			want_e = meaning(argv[argc++]);
		}
	}
#else
	{
		char *n;
		long v;
		size_t i;

		if (vp_concrete(vp_bool())) {
			x_server = v_server[0];
			setting("server", x_server);
		}
		if (vp_concrete(vp_bool())) {
			x_port = v_port[0];
			setting("port", x_port);
		}
# ifdef TIMEOUTS
		if (vp_concrete(vp_bool())) {
			n = number_arg(&v);
			setting("timeout", n);
			x_timeout = (double)v;
		}
		if (vp_concrete(vp_bool())) {
			n = number_arg(&v);
			argv[argc++] = "-o";
			argv[argc++] = n;
			x_timeout = (double)v;
			vp_reach("-o");
		}
# else
		(void)n; (void)v; (void)number_arg;
		if (vp_concrete(vp_bool())) {
			i = vp_concrete(vp_upto(7));
			if (i == 6) {
				setting("delay", "-1");
				delay = 0;
			} else if (i == 7) {
				setting("delay", "4294967296");
				delay = 4294967296;
			} else {
				setting("delay", delays[i]);
				delay = delay_v[i];
			}
		}
		if (vp_concrete(vp_bool())) {
			i = vp_concrete(vp_upto(5));
			argv[argc++] = "-D";
			argv[argc++] = (char *)delays[i];
			delay = delay_v[i];
		}
# endif
		if (vp_concrete(vp_bool())) {
			argv[argc++] = "-H";
			argv[argc++] = (char *)(x_server = v_server[1]);
		}
		if (vp_concrete(vp_bool())) {
			argv[argc++] = "-p";
			argv[argc++] = (char *)(x_port = v_port[1]);
		}
		HF.data = file;
		HF.len = strlen(file);
	}
#endif
	argv[argc] = NULL;
	r = vp_prog_main(argc, argv);
	vp_check(started && ran, "the client connects");
	vp_check(r == 0, "the exit status is that of the session");
}
