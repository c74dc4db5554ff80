/*
 * C05: the parser of the client's configuration file.
 * OP 0: a prefix, any bytes, a suffix; OP 1: tokens; OP 2: long lines;
 * OP 3: file errors; OP 4: memory safety only, with null bytes.
 */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "h_file.h"
#include "conf.h"

#include "h_host.h"
int STUB(puts)(const char *s) { (void)s; return 1; }
int STUB(fprintf)(FILE * restrict f, const char * restrict fmt, ...) { (void)f; (void)fmt; return 1; }

#ifndef FMAX
# define FMAX 64
#endif
#define LMAX FMAX
static char *file;
static size_t len;
enum { ACCEPT, REFUSE, LAX /* may be refused */, UNKNOWN };
static int want = ACCEPT;

enum { DELAY, ENCRYPTION, IDENTITY, PASSWORD, PORT, SERVER, TIMEOUT, CIPHERS, NSETTINGS };
static const char *const names[NSETTINGS] = { "delay", "encryption_method", "identity", "password", "port", "server", "timeout", "tls_ciphers" };
static char value[NSETTINGS][LMAX];
static bool assigned[NSETTINGS], number_known[NSETTINGS];
static long number[NSETTINGS];

void STUB(exit)(int c)
{
	vp_check(c == EXIT_FAILURE, "errors are reported");
	vp_check(want != ACCEPT, "a proper file is accepted");
#if OP < 2 || OP == 3
	vp_reach("refused");
#endif
	vp_stop();
}
static void lax(void) { if (want == ACCEPT) want = LAX; }

#if OP < 3
static bool blank(char c) { return c == ' ' || c == '\t'; }
/* One logical line, as the manual describes it. */
static void line(const char *l)
{
	size_t i, n;
	int k;
	char q = 0, v[LMAX];
	bool closed = false;

	if (want == REFUSE || want == UNKNOWN)
		return;
	while (blank(*l))
		l++;
	if (*l == '\0' || *l == '#')
		return;
	for (k = 0; k < NSETTINGS; k++) {
		n = strlen(names[k]);
		if (strncmp(l, names[k], n) == 0 && (blank(l[n]) || l[n] == '='))
			break;
	}
	if (k == NSETTINGS) {
		want = REFUSE;
		return;
	}
	l += n;
	while (blank(*l))
		l++;
	if (*l++ != '=') {
		want = REFUSE;
		return;
	}
	while (blank(*l))
		l++;
	if (*l == '\0' || *l == '#') {
		want = REFUSE;
		return;
	}
	if (*l == '"' || *l == '\'')
		q = *l++;
	for (n = 0; *l != '\0'; l++) {
		if (*l == '\\') {
			l++;
			if (*l == '\0') {
				want = UNKNOWN; /* A backslash ends the file. */
				return;
			}
			if (*l != '\\' && *l != '"' && *l != '\'')
				lax();
			v[n++] = *l;
			continue;
		}
		if (q != 0 && *l == q) {
			closed = true;
			l++;
			break;
		}
		if (q == 0 && (blank(*l) || *l == '#'))
			break;
		if (q == 0 && (*l == '"' || *l == '\''))
			lax(); /* It should have been quoted. */
		v[n++] = *l;
	}
	v[n] = '\0';
	if (q != 0 && !closed)
		lax();
	while (blank(*l))
		l++;
	if (*l != '\0' && *l != '#') {
		want = REFUSE;
		return;
	}
	strcpy(value[k], v);
	assigned[k] = true;
	if (k == DELAY || k == TIMEOUT) {
		bool neg = v[0] == '-';

		i = neg || v[0] == '+' ? 1 : 0;
		number_known[k] = v[i] >= '1' && v[i] <= '9';
		if (v[i] == '0' && v[i + 1] == '\0') {
			number_known[k] = true;
			i++;
		}
		for (number[k] = 0; v[i] >= '0' && v[i] <= '9'; i++)
			number[k] = number[k] * 10 + (v[i] - '0');
		if (neg)
			number[k] = -number[k];
		if (number_known[k]) {
			if (v[i] != '\0')
				want = REFUSE;
		} else if (n == 0)
			want = REFUSE;
		else {
			for (i = 0; i < n; i++)
				if (!(v[i] == ' ' || (v[i] >= '\t' && v[i] <= '\r') || v[i] == '+' || v[i] == '-' || v[i] == 'x' || v[i] == 'X' || (v[i] >= '0' && v[i] <= '9')
				    || (v[i] >= 'a' && v[i] <= 'f') || (v[i] >= 'A' && v[i] <= 'F')))
					want = REFUSE;
			if (v[0] == 'x' || v[0] == 'X' || (v[0] >= 'a' && v[0] <= 'f') || (v[0] >= 'A' && v[0] <= 'F'))
				want = REFUSE;
			lax();
		}
	}
}
static void expect(void)
{
	static char l[LMAX];
	size_t i, n = 0, start = 0; /* (of the physical line) */

	for (i = 0; i < len; i++) {
		if (file[i] != '\n') {
			l[n++] = file[i];
			continue;
		}
		if (n > start && l[n - 1] == '\\') {
			start = --n;
			continue;
		}
		if (n == start && n > 0 && (l[n - 1] == '\\' || l[n - 1] == '\r')) {
			want = UNKNOWN;
			return;
		}
		if (n > start && l[n - 1] == '\r') {
			n--;
			if (n > 0 && l[n - 1] == '\\') {
				want = UNKNOWN;
				return;
			}
		}
		l[n] = '\0';
		line(l);
		n = start = 0;
	}
	if (n > 0) {
		l[n] = '\0';
		line(l);
	}
}
#endif

void vp_main(void)
{
	conf *cfg;
	int k;
	size_t i;

	HF.name = "/etc/x.cfg";
#if OP == 0
	{
		static const char *const pre[] = PREFIXES, *const post[] = SUFFIXES;
		const char *a = pre[vp_concrete(vp_upto(sizeof(pre) / sizeof(*pre) - 1))];
		const char *b = post[vp_concrete(vp_upto(sizeof(post) / sizeof(*post) - 1))];
		size_t n = vp_concrete(vp_size(0, NMAX));

		file = malloc(strlen(a) + n + strlen(b) + 1);
		strcpy(file, a);
		len = strlen(a);
		for (i = 0; i < n; i++)
			file[len++] = (char)vp_nz();
		strcpy(file + len, b);
		len += strlen(b);
		vp_harness(len < LMAX, "a short file");
		expect();
	}
#elif OP == 1
	{
		static const char *const tok[] = TOKENS;
		size_t n = vp_concrete(vp_size(1, NMAX));

		file = malloc(FMAX);
		file[0] = '\0';
		strcpy(file, PREFIX);
		len = strlen(file);
		for (i = 0; i < n; i++) {
			const char *t = tok[vp_concrete(vp_upto(sizeof(tok) / sizeof(*tok) - 1))];

			strcpy(file + len, t);
			len += strlen(t);
		}
		vp_harness(len < FMAX, "a short file");
		expect();
	}
#elif OP == 2
	{       /* server = <long>, with an optional continuation, blanks or quotes */
		static const size_t around[] = { 511, 512, 1023, 1024, 2046, 2048, 2052, 2056, 2060 };
		size_t n = around[vp_concrete(vp_upto(sizeof(around) / sizeof(*around) - 1))] + vp_concrete(vp_upto(4)) - 2;
		size_t cont = vp_concrete(vp_upto(3));
		bool blanks = vp_concrete(vp_bool()), end = vp_concrete(vp_bool());

		file = malloc(FMAX);
		strcpy(file, "server =");
		len = 8;
		memset(file + len, blanks ? ' ' : 'a', n - 8);
		len = n;
		if (cont > 0) {
			len -= cont; /* so that the newline is at various places */
			file[len++] = '\\';
			file[len++] = '\n';
		}
		file[len++] = 'z';
		if (end)
			file[len++] = '\n';
		vp_harness(len < FMAX, "space for the line");
		expect();
		if (strlen(value[SERVER]) > 2040)
			lax(); /* The limit isn't documented. */
	}
#elif OP == 3
	file = malloc(17);
	strcpy(file, "port = 7\nport=8\n");
	len = 16;
	switch (vp_concrete(vp_upto(2))) {
	case 0:
		HF.open_fails = 1;
		break;
	case 1:
		HF.fail_at = vp_concrete(vp_upto(16));
		break;
	default:
		HF.close_fails = 1;
	}
	want = REFUSE;
#else
	len = vp_concrete(vp_size(0, NMAX));
	file = malloc(len + 1);
	for (i = 0; i < len; i++)
		file[i] = (char)vp_u8();
	want = UNKNOWN;
#endif
	HF.data = file;
	HF.len = len;
	cfg = conf_init("/etc/x.cfg");
	vp_check(want != REFUSE, "an improper file is refused");
	vp_check(HF.opened == 2, "the file is closed");
#if OP == 4
	vp_reach("parsed");
#endif
#if OP < 3
	if (want != UNKNOWN) {
		static const char *const def[NSETTINGS] = { NULL, NULL, H_HOST, "change-me", "5668", "localhost", NULL,
			"PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:PSK-3DES-EDE-CBC-SHA:PSK-RC4-SHA" };

		vp_reach("accepted");
		for (k = 0; k < NSETTINGS; k++) {
			if (k == DELAY || k == TIMEOUT) {
				long v = conf_getint(cfg, names[k]);

				if (!assigned[k])
					vp_check(v == (k == DELAY ? 0 : 15), "other settings keep their defaults");
				else if (number_known[k])
					vp_check(v == number[k], "exactly the given number is assigned");
			} else {
				const char *v = conf_getstr(cfg, names[k]);

				if (assigned[k]) {
					for (i = 0; value[k][i] != '\0'; i++)
						vp_check(v[i] == value[k][i], "exactly the documented value is assigned");
					vp_check(v[i] == '\0', "exactly the documented value is assigned");
				} else
					vp_check(def[k] == NULL ? v == NULL : v != NULL && strcmp(v, def[k]) == 0, "other settings keep their defaults");
			}
		}
	}
#else
	(void)k; (void)i; (void)lax; (void)number; (void)number_known; (void)value; (void)assigned;
#endif
	free(file);
	conf_free(cfg);
}
