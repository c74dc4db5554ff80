/*
 * C10: the command line of send_nsca: what is passed on, what is refused, and
 * what only prints information.
 */
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "vp.h"
#include "h_prog.h"
#include "h_file.h"
#include "client.h"
#include "log.h"
#include "send_nsca.h"

int vp_prog_main(int, char **);
unsigned set_psk(void *s, const char *h, char *i, unsigned n, unsigned char *p, unsigned m)
{ (void)s; (void)h; (void)i; (void)n; (void)p; (void)m; return 0; }
#include "h_host.h"

#ifndef K
# define K 2
#endif

/* What is printed. */
static int on_out, on_err;
static void printed(FILE *f) { if (f == stdout) on_out++; else on_err++; }
int STUB(puts)(const char *s) { vp_check(strlen(s) > 4, "some text"); on_out++; return 1; }
int STUB(printf)(const char * restrict fmt, ...) { (void)fmt; on_out++; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)fmt; printed(f); return 1; }
int STUB(fputs)(const char * restrict s, FILE * restrict f) { (void)s; printed(f); return 1; }

/* The log. */
int log_level = LOG_LEVEL_INFO;
static int l_target = -1;
void log_set(int level, int target)
{
	if (level != -1)
		log_level = level;
	if (target != -1)
		l_target = target;
}
void log_close(void) {}
void vlog(int level, const char *fmt, va_list ap) { (void)level; (void)fmt; (void)ap; }

/* What should happen. */
static enum { RUN, INFO, REFUSE, OVER } x_end;
static bool x_stray;
static int x_verbose, x_target, x_mode = CLIENT_MODE_CHECK_RESULT;
static char x_d = '\t', x_e = '\27';
static double x_timeout = 15;
static const char *x_server = "localhost", *x_port = "5668", *x_file = "/usr/local/etc/send_nsca.cfg";
static const char *x_ciphers = "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-3DES-EDE-CBC-SHA:PSK-RC4-SHA";
static bool started, ran;

void STUB(exit)(int c)
{
	vp_check(!started, "the client only exits before connecting");
	if (x_end == RUN && (x_stray || x_d == x_e))
		x_end = REFUSE;
	else if (x_end == INFO && x_stray)
		x_end = OVER;           /* (which one comes first is not defined) */
	vp_check(x_end != RUN, "a proper command line is accepted");
	if (x_end == INFO) {
		vp_check(c == EXIT_SUCCESS, "asking for information is not an error");
		vp_check(on_out > 0 && on_err == 0, "the information goes to the standard output");
		vp_check(HF.opened == 0, "information does not need a configuration");
		vp_reach("information");
	} else if (x_end == REFUSE) {
		vp_check(c != EXIT_SUCCESS, "errors are reported");
		vp_check(on_out == 0, "errors do not go to the standard output");
		vp_reach("refused");
	}
	vp_stop();
}
client_state *STUB(client_start)(const char *hp, const char *ciphers, ev_tstamp timeout, int mode, char d, char e)
{
	char want[32];
	static const int level[] = { LOG_LEVEL_WARNING, LOG_LEVEL_NOTICE, LOG_LEVEL_INFO, LOG_LEVEL_DEBUG };

	vp_check(!started, "one connection is started");
	started = true;
	vp_check(x_end == RUN && !x_stray && x_d != x_e, "an improper command line is refused");
	vp_check(HF.opened == 2, "the configuration was read");
	snprintf(want, sizeof(want), "%s:%s", x_server, x_port);
	vp_check(strcmp(hp, want) == 0, "server and port are those of the last option, else of the file, else the defaults");
	vp_check(timeout == x_timeout, "the timeout is that of the last option, else of the file, else the default");
	vp_check(strcmp(ciphers, x_ciphers) == 0, "the ciphers are those of the file, else the default");
	vp_check(mode == x_mode, "raw commands are expected exactly with -C");
	vp_check(d == x_d, "the delimiter is the one of the last -d");
	vp_check(e == x_e, "the separator is the one of the last -e");
	vp_check(log_level == level[x_verbose < 3 ? x_verbose : 3], "each -v raises the level once, up to three times");
	vp_check(l_target == (x_target != 0 ? x_target : LOG_TARGET_STDERR), "messages go where the options say, else to the standard error output");
	vp_reach("started");
	return (client_state *)&started;
}
int STUB(ev_run)(int f)
{
	(void)f;
	vp_check(started && !ran, "the event loop runs after the connection was started");
	ran = true;
	exit_code = vp_concrete(vp_bool()) ? EXIT_FAILURE : EXIT_SUCCESS;
	return 0;
}
int STUB(RAND_bytes)(unsigned char *b, int n) { (void)b; (void)n; vp_check(0, "no delay is configured"); return 1; }
int STUB(nanosleep)(const struct timespec *t, struct timespec *r) { (void)t; (void)r; vp_check(0, "no delay is configured"); return 0; }

static char *argv[2 * K + 3] = { "send_nsca" };
static int argc = 1;
static void arg(const char *s) { argv[argc++] = strdup(s); }
static void over(int how) { if (x_end == RUN) x_end = how; }

static void item(int i)
{
	static char server[K][4], file[K][4], unknown[K][3];
	char c;

	switch (vp_concrete(vp_upto(i == K - 1 ? 26 : 23))) {
	case 0: break;
	case 1: arg("-C"); x_mode = CLIENT_MODE_COMMAND; break;
	case 2: arg("-v"); x_verbose++; break;
	case 3: arg("-vv"); x_verbose += 2; break;
	case 4: arg("-s"); x_target |= LOG_TARGET_SYSLOG; break;
	case 5: arg("-S"); x_target |= LOG_TARGET_STDERR; break;
	case 6: arg("-St"); x_target |= LOG_TARGET_STDERR; break;
	case 7: arg("-t"); break;
	case 8: arg("-V"); over(INFO); break;
	case 9: arg("-h"); over(INFO); break;
	case 10: arg("-vCs"); x_verbose++; x_mode = CLIENT_MODE_COMMAND; x_target |= LOG_TARGET_SYSLOG; break;
	case 11:        /* the configuration file */
		file[i][0] = 'f';
		file[i][1] = (char)vp_nz();
		arg("-c");
		arg(file[i]);
		x_file = file[i];
		break;
	case 12:
		arg("-cg");
		x_file = "g";
		break;
	case 13:
		server[i][0] = (char)vp_nz();
		arg("-H");
		arg(server[i]);
		x_server = server[i];
		break;
	case 14: arg("-H::1"); x_server = "::1"; break;
	case 15: arg("-p"); arg("77"); x_port = "77"; break;
	case 16: arg("-o"); arg("7"); x_timeout = 7; break;
	case 17: arg("-o0"); x_timeout = 0; break;
	case 18: arg("-o"); arg("-1"); over(REFUSE); break;
	case 19: arg("-D"); arg("-1"); over(REFUSE); break;
	case 20: arg("-d"); arg(","); x_d = ','; break;
	case 21: arg("-e"); arg(i % 2 == 0 ? "," : ";"); x_e = i % 2 == 0 ? ',' : ';'; break;
	case 22:        /* no such option */
		c = (char)vp_nz();
		vp_assume(strchr("CcDdeHhopSstVv-", c) == NULL);
		unknown[i][0] = '-';
		unknown[i][1] = c;
		arg(unknown[i]);
		over(REFUSE);
		break;
	case 23: arg(vp_concrete(vp_bool()) ? "stray" : "-"); x_stray = true; break;
	case 24: {      /* an option without its argument */
		static const char *const opt[] = { "-c", "-D", "-d", "-e", "-H", "-o", "-p" };

		arg(opt[vp_concrete(vp_upto(6))]);
		over(REFUSE);
		break;
	}
	case 25: arg("--"); break;
	case 26:        /* long ones, alone */
		arg(vp_concrete(vp_bool()) ? "--help" : "--version");
		if (argc == 2)
			over(INFO);
		else
			over(OVER);
		break;
	}
}

void vp_main(void)
{
	static char text[64];
	int i, r;

	for (i = 0; i < K; i++)
		item(i);
	argv[argc] = NULL;
	HF.name = x_file;
	if (vp_concrete(vp_bool())) {
		strcat(text, "tls_ciphers = A:B\n");
		x_ciphers = "A:B";
	}
	HF.data = text;
	HF.len = strlen(text);
	r = vp_prog_main(argc, argv);
	vp_check(started && ran, "the client connects");
	vp_check((r == 0) == (exit_code == 0), "the exit status is that of the session");
}
