/*
 * L03: the bundled formatted output functions against the C standard.
 * OP 0: one integer conversion; OP 1: one string, character or percent
 * conversion; OP 2: several in one format, and the allocating functions.
 */
#include <config.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"

int rpl_vsnprintf(char *, size_t, const char *, va_list);
int rpl_snprintf(char *, size_t, const char *, ...);
int rpl_vasprintf(char **, const char *, va_list);
int rpl_asprintf(char **, const char *, ...);

/* ------------------------------------------------------------ the standard */
static char want[160];
static size_t nwant;
static void put(char c) { vp_harness(nwant < sizeof(want), "room for the expected text"); want[nwant++] = c; }
static void pad(char c, int n) { while (n-- > 0) put(c); }

typedef struct { int minus, plus, space, num, zero, width, prec; } spec;     /* prec -1: none */

static void std_int(spec s, int sgn, uint64_t u, int neg, unsigned base, int up)
{
	static const char lo[] = "0123456789abcdef", hi[] = "0123456789ABCDEF";
	char digit[24];
	int n = 0, i, prec = s.prec, zeros, spaces, sign = 0, prefix;

	if (sgn)
		sign = neg ? '-' : s.plus ? '+' : s.space ? ' ' : 0;
	prefix = s.num && base == 16 && u != 0;
	while (u != 0) {
		digit[n++] = (up ? hi : lo)[u % base];
		u /= base;
	}
	zeros = (prec < 0 ? 1 : prec) - n;
	if (zeros < 0)
		zeros = 0;
	if (s.num && base == 8 && zeros == 0)
		zeros = 1;
	spaces = s.width - n - zeros - (sign != 0) - 2 * prefix;
	if (spaces < 0)
		spaces = 0;
	if (s.zero && !s.minus && prec < 0) {
		zeros += spaces;
		spaces = 0;
	}
	if (!s.minus)
		pad(' ', spaces);
	if (sign)
		put((char)sign);
	if (prefix) {
		put('0');
		put(up ? 'X' : 'x');
	}
	pad('0', zeros);
	for (i = n; i > 0; i--)
		put(digit[i - 1]);
	if (s.minus)
		pad(' ', spaces);
}
static void std_str(spec s, const char *v)
{
	int n = 0;

	while ((s.prec < 0 || n < s.prec) && v[n] != '\0')
		n++;
	if (!s.minus)
		pad(' ', s.width - n);
	for (int i = 0; i < n; i++)
		put(v[i]);
	if (s.minus)
		pad(' ', s.width - n);
}
static void std_chr(spec s, char c)
{
	if (!s.minus)
		pad(' ', s.width - 1);
	put(c);
	if (s.minus)
		pad(' ', s.width - 1);
}

/* ------------------------------------------------------------- the results */
static void compare(const char *b, size_t size, int r)
{
	size_t i;

	vp_check(r >= 0 && (size_t)r == nwant, "the length of the full result is returned");
	if (size == 0)
		return;
	for (i = 0; i < nwant && i < size - 1; i++)
		vp_check(b[i] == want[i], "the text is that of the standard");
	vp_check(b[i] == '\0', "the text is terminated within the buffer");
}
static char fmt[24];
static size_t nfmt;
static void f(char c) { fmt[nfmt++] = c; }
static int stars[2], nstars;
static void number(int n)
{
	if (n > 9)
		f((char)('0' + n / 10));
	f((char)('0' + n % 10));
}
#ifndef STARS
# define STARS 1
#endif
#ifndef WMAX
# define WMAX 4
#endif
#ifndef PMAX
# define PMAX 4
#endif
static spec directive(int flags)
{
	spec s;
	int w;

	memset(&s, 0, sizeof(s));
	f('%');
	s.prec = -1;
	if (flags & 1) {
		/* Flags in either order. */
		const char *o = flags & 8 ? "-+ #0" : "0# +-";

		for (; *o != '\0'; o++)
			if (vp_concrete(vp_bool()))
				switch (f(*o), *o) {
				case '-': s.minus = 1; break;
				case '+': s.plus = 1; break;
				case ' ': s.space = 1; break;
				case '#': s.num = 1; break;
				case '0': s.zero = 1; break;
				}
	}
	if (flags & 2) {
		switch (vp_concrete(vp_upto(STARS ? 2 : 1))) {
		case 1:
			w = (int)vp_concrete(vp_range(1, WMAX));
			number(w);
			s.width = w;
			break;
		case 2:
			w = (int)vp_concrete(vp_upto(2 * WMAX)) - WMAX;
			f('*');
			stars[nstars++] = w;
			if (w < 0)
				s.minus = 1;
			s.width = w < 0 ? -w : w;
			break;
		}
	}
	if (flags & 4) {
		switch (vp_concrete(vp_upto(STARS ? 2 : 1))) {
		case 1:
			w = (int)vp_concrete(vp_upto(PMAX + 1)) - 1;
			f('.');
			if (w >= 0)
				number(w);
			s.prec = w < 0 ? 0 : w;
			break;
		case 2:
			w = (int)vp_concrete(vp_upto(PMAX + 1)) - 1;
			f('.');
			f('*');
			stars[nstars++] = w;
			s.prec = w;
			break;
		}
	}
	return s;
}
#define CALL(fn, b, n, v) (nstars == 0 ? fn(b, n, fmt, v) : nstars == 1 ? fn(b, n, fmt, stars[0], v) : fn(b, n, fmt, stars[0], stars[1], v))
#ifdef VP_SYM
# define AGREE(v) (void)0
#else
/* (The expected text, too, is that of this system's library.) */
# define AGREE(v) do { char t_[200]; vp_harness(CALL(snprintf, t_, sizeof(t_), v) == (int)nwant && memcmp(t_, want, nwant) == 0, "the expected text is right"); } while (0)
#endif

#ifndef SLACK
# define SLACK 0
#endif
#ifndef FLAGS
# define FLAGS 7
#endif
/* A buffer of exactly the size given. */
#if SLACK
static size_t bufsize(void) { return vp_size(0, SLACK); }
#else
static size_t bufsize(void) { return 64; }
#endif

#if OP == 0
static void integers(void)
{
	static const char conv[] = "diuoxX";
	char c = conv[vp_concrete(vp_upto(5))];
	int mod, sgn = c == 'd' || c == 'i', bits;
	unsigned base = c == 'o' ? 8 : c == 'x' || c == 'X' ? 16 : 10;
	uint64_t u = 0, full;
	int neg = 0, r = 0;
	size_t size = bufsize();
	char *b = malloc(size);
	spec s = directive(FLAGS | (sgn ? 8 : 0));

# ifdef MODS
	mod = (int)vp_concrete(vp_upto(7));
# else
	mod = 0;
# endif
	switch (mod) {
	case 1: f('h'); f('h'); break;
	case 2: f('h'); break;
	case 3: f('l'); break;
	case 4: f('l'); f('l'); break;
	case 5: f('j'); break;
	case 6: f('z'); break;
	case 7: f('t'); break;
	}
	f(c);
	bits = mod == 0 ? 32 : mod == 1 ? 8 : mod == 2 ? 16 : 64;
# ifdef DECIMAL
	vp_assume(base == 10);
	full = vp_u8();
	if (sgn && vp_concrete(vp_bool()))
		full = -full;
# else
	if (base == 10) {       /* few of the values, all kinds */
		static const uint64_t edge[] = { 0, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 10, 100, 9, 99, 9999999999 };
		static const uint64_t some[] = { 0, 7, 10, 999, 0xffffffffffffffff, (uint64_t)-37, (uint64_t)-100 };

		full = mod ? edge[vp_concrete(vp_upto(sizeof(edge) / sizeof(*edge) - 1))] : some[vp_concrete(vp_upto(sizeof(some) / sizeof(*some) - 1))];
	} else {
#  ifdef BYTE
		full = vp_u8();
#  else
		/* any byte anywhere, among zeros or ones */
		unsigned at = (unsigned)vp_concrete(vp_upto(7)) * 8;

		full = vp_u8();
		full = vp_concrete(vp_bool()) ? ~(full << at) : full << at;
#  endif
	}
# endif
	/* What the conversion makes of it. */
	u = bits == 64 ? full : full & (((uint64_t)1 << bits) - 1);
	if (sgn && (u >> (bits - 1) & 1)) {
		neg = 1;
		u = bits == 64 ? -u : ((uint64_t)1 << bits) - u;
	}
	std_int(s, sgn, u, neg, base, c == 'X');
	if (bits < 64) {
		int v = (int)(uint32_t)full;

		AGREE(v);
		r = CALL(rpl_snprintf, b, size, v);
	} else {
		AGREE(full);
		r = CALL(rpl_snprintf, b, size, full);
	}
	compare(b, size, r);
	if (neg)
		vp_reach("negative");
	if (s.width < r)
		vp_reach("wider than asked for");
	free(b);
}
#endif
#if OP == 1
# ifndef TMAX
#  define TMAX 3
# endif
static void texts(void)
{
	size_t size = bufsize();
	char *b = malloc(size), *t;
	int r, k = (int)vp_concrete(vp_upto(3));
	spec s;

	if (k < 2)
		f('[');
	s = directive(FLAGS & 6);
	if (vp_concrete(vp_bool())) {   /* the only flag that makes sense */
		memmove(fmt + 2 + (k < 2), fmt + 1 + (k < 2), nfmt - 1 - (k < 2));
		fmt[1 + (k < 2)] = '-';
		nfmt++;
		s.minus = 1;
	}
	if (k < 2)
		put('[');
	if (k == 0) {
		f('s');
		f(']');
		int whole = 1;

		if (s.prec >= 0 && vp_bool()) { /* not necessarily terminated */
			whole = 0;
			t = malloc((size_t)s.prec);
			for (r = 0; r < s.prec; r++)
				t[r] = (char)vp_nz();
			vp_reach("unterminated");
		} else
			t = vp_string(0, TMAX);
		std_str(s, t);
		put(']');
		if (whole) /* (the sanitizer's own check is too strict otherwise) */
			AGREE(t);
		compare(b, size, CALL(rpl_snprintf, b, size, t));
		vp_reach("string");
		free(t);
	} else if (k == 1) {
		int c = (int)vp_u32();

		vp_assume(s.prec == -1 && nstars < 2);
		f('c');
		f(']');
		std_chr(s, (char)c);
		put(']');
		AGREE(c);
		compare(b, size, CALL(rpl_snprintf, b, size, c));
		vp_reach("character");
	} else {
		vp_assume(nfmt == 1);
		f('%');
		put('%');
		if (k == 3) {   /* plain text */
			f('a');
			put('a');
		}
		AGREE(0);
		compare(b, size, CALL(rpl_snprintf, b, size, 0));
		vp_reach("percent");
	}
	free(b);
}
#endif
#if OP == 2
static int va(int which, char **p, char *b, size_t n, const char *fm, ...)
{
	va_list ap;
	int r;

	va_start(ap, fm);
	r = which == 0 ? rpl_vsnprintf(b, n, fm, ap) : rpl_vasprintf(p, fm, ap);
	va_end(ap);
	return r;
}
static int nomem;
void *n_malloc(size_t n)
{
	if (vp_bool()) {
		nomem = 1;
		return NULL;
	}
	return malloc(n);
}
/* Texts with several conversions, most of all such as the programs use. */
static void several(void)
{
	static const spec none = { 0, 0, 0, 0, 0, 0, -1 };
	int which = (int)vp_concrete(vp_upto(3)), r = 0;
	size_t size = vp_size(0, 12);
	char *b = malloc(size), *p = NULL;
	char *s = vp_string(0, 2);
	unsigned u = vp_upto(255);
	spec z = none;
	const char *fm = vp_concrete(vp_bool()) ? "%s:%x%%<%02d>" : "%-3.1s%-#5.3hhx%d";
	int d = (int)vp_upto(9) - 3;

	if (fm[1] == 's') {
		z.zero = 1;
		z.width = 2;
		std_str(none, s);
		put(':');
		std_int(none, 0, u, 0, 16, 0);
		put('%');
		put('<');
		std_int(z, 1, (uint64_t)(d < 0 ? -d : d), d < 0, 10, 0);
		put('>');
	} else {        /* (nothing of one conversion is left for the next) */
		z.minus = 1;
		z.width = 3;
		z.prec = 1;
		std_str(z, s);
		z.num = 1;
		z.width = 5;
		z.prec = 3;
		std_int(z, 0, u, 0, 16, 0);
		std_int(none, 1, (uint64_t)(d < 0 ? -d : d), d < 0, 10, 0);
		vp_reach("fancy");
	}
	switch (which) {
	case 0: r = rpl_snprintf(b, size, fm, s, u, d); break;
	case 1: r = va(0, NULL, b, size, fm, s, u, d); break;
	case 2: r = rpl_asprintf(&p, fm, s, u, d); break;
	case 3: r = va(1, &p, NULL, 0, fm, s, u, d); break;
	}
	if (nomem) {
		vp_check(r == -1, "a failure is reported");
		vp_reach("out of memory");
	} else if (which < 2) {
		compare(b, size, r);
		vp_reach("into a buffer");
	} else {
		compare(p, nwant + 1, r);
		free(p);
		vp_reach("into fresh memory");
	}
	free(s);
	free(b);
}
#endif
void vp_main(void)
{
#if OP == 0
	integers();
#elif OP == 1
	texts();
#else
	several();
#endif
}
