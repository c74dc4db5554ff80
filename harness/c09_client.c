/*
 * C09, the client: where the password of the configuration has been in memory
 * it is overwritten before that memory is released.  The real main() and
 * conf.c; the memory functions of the code are wrapped.  The bytes of the
 * password are such as occur nowhere else.
 */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "h_prog.h"
#include "h_file.h"
#include "client.h"
#include "log.h"

#ifdef OOM
# include "h_oom.h"             /* R01 */
#else
static bool oom(char c) { (void)c; return false; }
static const int oom_seen;
#endif
int vp_prog_main(int, char **);
unsigned set_psk(void *s, const char *h, char *i, unsigned n, unsigned char *p, unsigned m)
{ (void)s; (void)h; (void)i; (void)n; (void)p; (void)m; return 0; }
#include "h_host.h"
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }

#ifndef PWMAX
# define PWMAX 4
#endif
static int watching = 1;        /* blocks released now are looked at */
static int held;
#define NB 64
static struct { void *p; size_t n; } blk[NB];
static void enter(void *p, size_t n)
{
	int i;

	if (p == NULL)
		return;
	vp_check(!oom_seen, "without memory the client doesn't go on");
	for (i = 0; i < NB && blk[i].p != NULL; i++)
		;
	vp_harness(i < NB, "few blocks of memory");
	blk[i].p = p;
	blk[i].n = n;
}
static int secret(char c) { return (unsigned char)c >= 0xa0 && (unsigned char)c <= 0xaf; }
static void leave(void *p, int look)
{
	int i;
	size_t k;

	for (i = 0; i < NB && (p == NULL || blk[i].p != p); i++)
		;
	if (i == NB)
		return; /* (not from these functions) */
	blk[i].p = NULL;
	for (k = 0; look && watching && !oom_seen && k < blk[i].n; k++)
		vp_check(!secret(((char *)p)[k]), "no memory that held the password is released without being overwritten");
}
/* (Fresh memory is filled, so that it holds nothing by accident.) */
void *n_malloc(size_t n) { void *p = oom(0) ? NULL : malloc(n); if (p != NULL) memset(p, 'u', n); enter(p, n); return p; }
void *n_calloc(size_t n, size_t m) { void *p = oom(0) ? NULL : calloc(n, m); enter(p, n * m); return p; }
void *n_realloc(void *p, size_t n) { if (oom(0)) return NULL; leave(p, 0); p = realloc(p, n); enter(p, n); return p; }
char *n_strdup(const char *s) { char *p; if (oom(0)) return NULL; p = strdup(s); enter(p, strlen(s) + 1); return p; }
void n_free(void *p) { leave(p, 1); free(p); }
#ifdef OOM
int n_vasprintf(char **r, const char *f, va_list ap) { if (oom(0)) { *r = NULL; return -1; } return vasprintf(r, f, ap); }
#endif

static void finish(void)
{
	int i;
	size_t k;

	watching = 1;
	hp_run_atexit();
	for (i = 0; i < NB; i++)
		for (k = 0; blk[i].p != NULL && k < blk[i].n; k++)
			vp_check(!secret(((char *)blk[i].p)[k]), "no memory holds the password when the client has exited");
	if (held)
		vp_reach("with a password");
	else
		vp_reach("without a password");
}
static int failing, odd;          /* odd: settings that may be refused */
void STUB(exit)(int c)
{
#ifdef OOM
	watching = 0;
	if (oom_seen) {
		vp_check(c == EXIT_FAILURE, "running out of memory is reported");
		hp_run_atexit();
		vp_reach("out of memory");
		vp_stop();
	}
#endif
	vp_check((failing || odd) && c == EXIT_FAILURE, "the client only fails if something fails");
	vp_reach("failed");
	finish();
	vp_stop();
}
client_state *STUB(client_start)(const char *hp, const char *ciphers, ev_tstamp timeout, int mode, char d, char e)
{
	static int x;

	(void)hp; (void)ciphers; (void)timeout; (void)mode; (void)d; (void)e;
	vp_check(!oom_seen, "without memory the client doesn't go on");
	if ((failing |= vp_bool()))
		STUB(exit)(EXIT_FAILURE);
	watching = 0;
	return (client_state *)&x;
}
int STUB(ev_run)(int f)
{
	(void)f;
	if ((failing |= vp_bool()))
		STUB(exit)(EXIT_FAILURE);
	return 0;
}
int STUB(RAND_bytes)(unsigned char *b, int n) { memset(b, 0, (size_t)n); return !(failing |= vp_bool()); }
int STUB(nanosleep)(const struct timespec *t, struct timespec *r) { (void)t; (void)r; return (failing |= vp_bool()) ? -1 : 0; }

void vp_main(void)
{
	static const char *const before[] = { "", "server = a\n", "# x\n\ndelay=1\n", "timeout = -1\n", "delay = -3\nport = \"\"\n", "timeout = 0\n" };
#ifdef OOM
	static const char *const lead[] = { "password = " }, *const tail[] = { "" };
	static const char *const after[] = { "\nidentity = \"me\"\n" };
#else
	static const char *const lead[] = { "password = ", "password=\"", " password\t='", "password = \\\n" };
	static const char *const tail[] = { "", "\"", "'", "" };
	static const char *const after[] = { "", "\n", " # c\r\n", "\nidentity = \"me\"\n" };
#endif
	static char file[256 + PWMAX];
	char *argv[] = { "send_nsca", NULL, NULL, NULL };
	int argc = 1, how;
	size_t i, n, l;

	HF.name = "/usr/local/etc/send_nsca.cfg";
	how = (int)vp_concrete(vp_upto(5));
	odd = how >= 3;
	strcpy(file, before[how]);
	if ((held = vp_bool())) {
		how = (int)vp_concrete(vp_upto(sizeof(lead) / sizeof(lead[0]) - 1));
#ifdef SIZES
		n = VP_PICK(15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 400);
#else
		n = vp_concrete(vp_range(1, PWMAX));
#endif
		strcat(file, lead[how]);
		l = strlen(file);
		for (i = 0; i < n; i++) {
#ifdef SIZES
			if (i != 0 && i != n / 2 && i != n - 1) {
				file[l + i] = (char)(0xa0 + i % 16);
				continue;
			}
#endif
			file[l + i] = (char)vp_u8();
			vp_assume(secret(file[l + i]));
		}
		file[l + n] = '\0';
		strcat(file, tail[how]);
	}
	strcat(file, after[vp_concrete(vp_upto(sizeof(after) / sizeof(after[0]) - 1))]);
	if (vp_bool()) {
		argv[argc++] = "-p";
		argv[argc++] = "99";
	}
	HF.data = file;
	HF.len = strlen(file);
	(void)vp_prog_main(argc, argv);
		finish();
}
