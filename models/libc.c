/*
 * Solver-world models of the C library functions the code under test calls.  Natively the real C library is used.
 */
#include <config.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <search.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "vp.h"

/* --- ctype ------------------------------------------------------------- */
static const unsigned short vp_ctype_tab[384] = {
#include "../models/ctype_tab.h"
};
static const unsigned short *vp_ctype_ptr = vp_ctype_tab + 128;
const unsigned short **__ctype_b_loc(void) { return &vp_ctype_ptr; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

/* The standard streams: addresses only. */
static char vp_streams[3];
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)(void *)&vp_streams[0], *stdout = (FILE *)(void *)&vp_streams[1], *stderr = (FILE *)(void *)&vp_streams[2];

/* --- string ------------------------------------------------------------ */
static int errno_cell;
int *__errno_location(void) { return &errno_cell; }

size_t strlen(const char *s)
{
	size_t i;
	for (i = 0; s[i] != '\0'; i++)
		;
	return i;
}
char *strcpy(char *d, const char *s)
{
	size_t i;
	for (i = 0; (d[i] = s[i]) != '\0'; i++)
		;
	return d;
}
char *strncpy(char *d, const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n && s[i] != '\0'; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = '\0';
	return d;
}
char *strcat(char *d, const char *s)
{
	strcpy(d + strlen(d), s);
	return d;
}
char *strncat(char *d, const char *s, size_t n)
{
	size_t i, l = strlen(d);
	for (i = 0; i < n && s[i] != '\0'; i++)
		d[l + i] = s[i];
	d[l + i] = '\0';
	return d;
}
int strcmp(const char *a, const char *b)
{
	size_t i;
	for (i = 0; a[i] == b[i] && a[i] != '\0'; i++)
		;
	return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n)
{
	size_t i;
	for (i = 0; i < n && a[i] == b[i] && a[i] != '\0'; i++)
		;
	return i == n ? 0 : (unsigned char)a[i] - (unsigned char)b[i];
}
char *strchr(const char *s, int c)
{
	for (; *s != (char)c; s++)
		if (*s == '\0')
			return NULL;
	return (char *)s;
}
char *strrchr(const char *s, int c)
{
	const char *r = NULL;
	for (;; s++) {
		if (*s == (char)c)
			r = s;
		if (*s == '\0')
			return (char *)r;
	}
}
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	return memcpy(malloc(n), s, n);
}
int abs(int x) { return x < 0 ? -x : x; }
void *memcpy(void *d, const void *s, size_t n)
{
	unsigned char *a = d;
	const unsigned char *b = s;
	size_t i;
	for (i = 0; i < n; i++)
		a[i] = b[i];
	return d;
}
void *memmove(void *d, const void *s, size_t n)
{
	unsigned char *a = d;
	const unsigned char *b = s;
	size_t i;
	if (a < b)
		for (i = 0; i < n; i++)
			a[i] = b[i];
	else
		for (i = n; i > 0; i--)
			a[i - 1] = b[i - 1];
	return d;
}
/* (These are not optimised away.) */
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
void *memset(void *d, int c, size_t n)
{
	unsigned char *a = d;
	size_t i;
	for (i = 0; i < n; i++)
		a[i] = (unsigned char)c;
	return d;
}
int memcmp(const void *x, const void *y, size_t n)
{
	const unsigned char *a = x, *b = y;
	size_t i;
	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			return a[i] < b[i] ? -1 : 1;
	return 0;
}
void *memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	size_t i;
	for (i = 0; i < n; i++)
		if (p[i] == (unsigned char)c)
			return (void *)(p + i);
	return NULL;
}
void *memrchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	while (n-- > 0)
		if (p[n] == (unsigned char)c)
			return (void *)(p + n);
	return NULL;
}
size_t strnlen(const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n && s[i] != '\0'; i++)
		;
	return i;
}
static int vp_in_set(char c, const char *set)
{
	size_t i;
	for (i = 0; set[i] != '\0'; i++)
		if (set[i] == c)
			return 1;
	return 0;
}
size_t strspn(const char *s, const char *set)
{
	size_t i;
	for (i = 0; s[i] != '\0' && vp_in_set(s[i], set); i++)
		;
	return i;
}
size_t strcspn(const char *s, const char *set)
{
	size_t i;
	for (i = 0; s[i] != '\0' && !vp_in_set(s[i], set); i++)
		;
	return i;
}
char *strpbrk(const char *s, const char *set)
{
	size_t i = strcspn(s, set);
	return s[i] != '\0' ? (char *)s + i : NULL;
}
static char *vp_strtok_pos;
char *strtok_r(char *s, const char *delim, char **save)
{
	char *end;
	if (s == NULL)
		s = *save;
	if (s == NULL)
		return NULL;
	s += strspn(s, delim);
	if (*s == '\0') {
		*save = s;
		return NULL;
	}
	end = s + strcspn(s, delim);
	if (*end != '\0')
		*end++ = '\0';
	*save = end;
	return s;
}
char *strtok(char *s, const char *delim)
{
	return strtok_r(s, delim, &vp_strtok_pos);
}
char *strsep(char **sp, const char *delim)
{
	char *s = *sp, *end;
	if (s == NULL)
		return NULL;
	end = s + strcspn(s, delim);
	if (*end != '\0')
		*end++ = '\0', *sp = end;
	else
		*sp = NULL;
	return s;
}
char *strstr(const char *h, const char *n)
{
	size_t i, j;
	for (i = 0; ; i++) {
		for (j = 0; n[j] != '\0' && h[i + j] == n[j]; j++)
			;
		if (n[j] == '\0')
			return (char *)h + i;
		if (h[i] == '\0')
			return NULL;
	}
}
char *strchrnul(const char *s, int c)
{
	while (*s != '\0' && *s != (char)c)
		s++;
	return (char *)s;
}
char *stpcpy(char *d, const char *s)
{
	while ((*d = *s) != '\0')
		d++, s++;
	return d;
}
char *strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *d = malloc(l + 1);
	memcpy(d, s, l);
	d[l] = '\0';
	return d;
}
int strcasecmp(const char *a, const char *b)
{
	size_t i;
	for (i = 0; ; i++) {
		int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
		if (x != y)
			return x - y;
		if (x == 0)
			return 0;
	}
}
int strncasecmp(const char *a, const char *b, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) {
		int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
		if (x != y)
			return x - y;
		if (x == 0)
			return 0;
	}
	return 0;
}

/* --- numbers ----------------------------------------------------------- */
static unsigned long vp_strtoul(const char *s, char **end, int base, int *neg, int *any, int *over)
{
	const char *p = s;
	unsigned long v = 0;
	int digits = 0;
	*neg = *any = *over = 0;
	while (isspace((unsigned char)*p))
		p++;
	if (*p == '-' || *p == '+')
		*neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')
	    && isxdigit((unsigned char)p[2])) {
		p += 2;
		base = 16;
	} else if (base == 0)
		base = *p == '0' ? 8 : 10;
	for (;; p++) {
		int d;
		unsigned long nv;
		if (*p >= '0' && *p <= '9')
			d = *p - '0';
		else if (*p >= 'a' && *p <= 'z')
			d = *p - 'a' + 10;
		else if (*p >= 'A' && *p <= 'Z')
			d = *p - 'A' + 10;
		else
			break;
		if (d >= base)
			break;
		*any = 1;
		/* (With fewer digits, there's no need to bother the solver.) */
		if (digits++ >= 12 && v > ULONG_MAX / base)
			*over = 1;
		if (digits > 12 && v == ULONG_MAX / base && (unsigned)d > ULONG_MAX % base)
			*over = 1;
		nv = v * base + d;
		v = nv;
	}
	if (end != NULL)
		*end = (char *)(*any ? p : s);
	if (digits >= 12 && *over == 0)
		*over = -1; /* may exceed what is signed */
	return v;
}
long strtol(const char *s, char **end, int base)
{
	int neg, any, over;
	unsigned long v = vp_strtoul(s, end, base, &neg, &any, &over);
	if (over > 0 || (over < 0 && ((!neg && v > LONG_MAX) || (neg && v > (unsigned long)LONG_MAX + 1)))) {
		errno = ERANGE;
		return neg ? LONG_MIN : LONG_MAX;
	}
	return neg ? (long)(0UL - v) : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base)
{
	int neg, any, over;
	unsigned long v = vp_strtoul(s, end, base, &neg, &any, &over);
	if (over > 0) {
		errno = ERANGE;
		return ULONG_MAX;
	}
	return neg ? 0UL - v : v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
/* The headers may call these __isoc23_..., but code that sees other feature macros does not. */
long vp_plain_strtol(const char *, char **, int) __asm__("strtol");
unsigned long vp_plain_strtoul(const char *, char **, int) __asm__("strtoul");
long long vp_plain_strtoll(const char *, char **, int) __asm__("strtoll");
unsigned long long vp_plain_strtoull(const char *, char **, int) __asm__("strtoull");
long vp_plain_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long vp_plain_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long vp_plain_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long vp_plain_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
/* glibc: (int)strtol(s, NULL, 10) */
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtoll(s, NULL, 10); }
intmax_t vp_strtoimax(const char *, char **, int) __asm__("strtoimax");
uintmax_t vp_strtoumax(const char *, char **, int) __asm__("strtoumax");
intmax_t vp_strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t vp_strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
intmax_t vp_c23_strtoimax(const char *, char **, int) __asm__("__isoc23_strtoimax");
uintmax_t vp_c23_strtoumax(const char *, char **, int) __asm__("__isoc23_strtoumax");
intmax_t vp_c23_strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t vp_c23_strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }

/* --- formatted output: integers, characters, strings.  Anything else is an
 * error of the harness.                                                     */
struct vp_out { char *buf; size_t cap, len; };

static void vp_putc(struct vp_out *o, char c)
{
	if (o->buf != NULL && o->len + 1 < o->cap)
		o->buf[o->len] = c;
	o->len++;
}
struct vp_spec { int width, prec, zero, left, plus, space, alt; };
static void vp_pad(struct vp_out *o, int n, char c)
{
	while (n-- > 0)
		vp_putc(o, c);
}
static void vp_putnum(struct vp_out *o, unsigned long v, int neg, unsigned base, const struct vp_spec *f, int upper, int sgn)
{
	char tmp[24];
	int n = 0, zeros, sign = 0, len, alt2 = f->alt && base == 16 && v != 0;

	while (v != 0) {
		unsigned d = (unsigned)(v % base);
		tmp[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
		v /= base;
	}
	zeros = (f->prec >= 0 ? f->prec : 1) - n;
	if (zeros < 0)
		zeros = 0;
	if (f->alt && base == 8 && zeros == 0 && (n == 0 || tmp[n - 1] != '0'))
		zeros = 1;
	if (sgn)
		sign = neg ? '-' : f->plus ? '+' : f->space ? ' ' : 0;
	len = n + zeros + (sign != 0) + (alt2 ? 2 : 0);
	if (!f->left && !(f->zero && f->prec < 0))
		vp_pad(o, f->width - len, ' ');
	if (sign)
		vp_putc(o, (char)sign);
	if (alt2) {
		vp_putc(o, '0');
		vp_putc(o, upper ? 'X' : 'x');
	}
	if (!f->left && f->zero && f->prec < 0)
		vp_pad(o, f->width - len, '0');
	vp_pad(o, zeros, '0');
	while (n > 0)
		vp_putc(o, tmp[--n]);
	if (f->left)
		vp_pad(o, f->width - len, ' ');
}
int vp_vfmt(char *buf, size_t cap, const char *fmt, va_list ap)
{
	struct vp_out o = { buf, cap, 0 };
	size_t i;

	for (i = 0; fmt[i] != '\0'; i++) {
		struct vp_spec f = { 0, -1, 0, 0, 0, 0, 0 };
		int lng = 0;
		if (fmt[i] != '%') {
			vp_putc(&o, fmt[i]);
			continue;
		}
		for (i++;; i++)
			if (fmt[i] == '-')
				f.left = 1;
			else if (fmt[i] == '0')
				f.zero = 1;
			else if (fmt[i] == '+')
				f.plus = 1;
			else if (fmt[i] == ' ')
				f.space = 1;
			else if (fmt[i] == '#')
				f.alt = 1;
			else
				break;
		if (fmt[i] == '*') {
			i++;
			f.width = va_arg(ap, int);
			if (f.width < 0) {
				f.left = 1;
				f.width = -f.width;
			}
		}
		while (fmt[i] >= '0' && fmt[i] <= '9')
			f.width = f.width * 10 + (fmt[i++] - '0');
		if (fmt[i] == '.') {
			i++;
			if (fmt[i] == '*') {
				f.prec = va_arg(ap, int);
				i++;
			} else
				for (f.prec = 0; fmt[i] >= '0' && fmt[i] <= '9'; i++)
					f.prec = f.prec * 10 + (fmt[i] - '0');
		}
		while (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't' || fmt[i] == 'q')
			lng = 1, i++;
		if (fmt[i] == 'h') {
			i++;
			lng = 2;
			if (fmt[i] == 'h') {
				i++;
				lng = 3;
			}
		}
		switch (fmt[i]) {
		case '%':
			vp_putc(&o, '%');
			break;
		case 'c': {
			char c = (char)va_arg(ap, int);
			if (!f.left)
				vp_pad(&o, f.width - 1, ' ');
			vp_putc(&o, c);
			if (f.left)
				vp_pad(&o, f.width - 1, ' ');
			break;
		}
		case 's': {
			const char *s = va_arg(ap, const char *);
			size_t k, n;
			if (s == NULL)
				s = f.prec >= 0 && f.prec < 6 ? "" : "(null)";
			if (f.width > 0) {
				for (n = 0; (f.prec < 0 || n < (size_t)f.prec) && s[n] != '\0'; n++)
					;
				if (!f.left)
					vp_pad(&o, f.width - (int)n, ' ');
			}
			for (k = 0; (f.prec < 0 || k < (size_t)f.prec) && s[k] != '\0'; k++)
				vp_putc(&o, s[k]);
			if (f.left)
				vp_pad(&o, f.width - (int)k, ' ');
			break;
		}
		case 'd': case 'i': {
			long v = lng == 1 ? va_arg(ap, long) : (long)va_arg(ap, int);
			unsigned long u;
			if (lng == 2)
				v = (short)v;
			if (lng == 3)
				v = (signed char)v;
			u = v < 0 ? 0UL - (unsigned long)v : (unsigned long)v;
			vp_putnum(&o, u, v < 0, 10, &f, 0, 1);
			break;
		}
		case 'u': case 'x': case 'X': case 'o': {
			unsigned long v = lng == 1 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
			if (lng == 2)
				v = (unsigned short)v;
			if (lng == 3)
				v = (unsigned char)v;
			vp_putnum(&o, v, 0, fmt[i] == 'u' ? 10 : fmt[i] == 'o' ? 8 : 16, &f, fmt[i] == 'X', 0);
			break;
		}
		case 'p': {
			void *p = va_arg(ap, void *);
			(void)p;
			vp_putc(&o, 'p');
			break;
		}
		case 'm': {
			extern char *strerror(int);
			const char *s = strerror(errno);
			while (*s != '\0')
				vp_putc(&o, *s++);
			break;
		}
		default:
			vp_check(0, "MODEL unsupported conversion");
		}
	}
	if (buf != NULL && cap > 0)
		buf[o.len < cap ? o.len : cap - 1] = '\0';
	return (int)o.len;
}
int vsnprintf(char *buf, size_t cap, const char *fmt, va_list ap)
{
	return vp_vfmt(buf, cap, fmt, ap);
}
int snprintf(char *buf, size_t cap, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vp_vfmt(buf, cap, fmt, ap);
	va_end(ap);
	return n;
}
int sprintf(char *buf, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vp_vfmt(buf, (size_t)INT_MAX, fmt, ap);
	va_end(ap);
	return n;
}
int vasprintf(char **out, const char *fmt, va_list ap)
{
	int n;
	va_list aq;
	va_copy(aq, ap);
	n = vp_vfmt(NULL, 0, fmt, aq);
	va_end(aq);
	*out = malloc((size_t)n + 1);
	vp_vfmt(*out, (size_t)n + 1, fmt, ap);
	return n;
}
int asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vasprintf(out, fmt, ap);
	va_end(ap);
	return n;
}

/* Only what scans one short string: literals, blanks, %d, %i, %u, %x, %c, %s, %n. */
int vsscanf(const char *s, const char *fmt, va_list ap)
{
	const char *p = s;
	int done = 0;

	for (; *fmt != '\0'; fmt++) {
		int lng = 0, skip = 0, any = 0, neg = 0, over = 0;
		long width = 0;
		char *end;

		if (*fmt == ' ' || (*fmt >= '\t' && *fmt <= '\r')) {
			while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
				p++;
			continue;
		}
		if (*fmt != '%') {
			if (*p != *fmt)
				return *p == '\0' && done == 0 ? -1 : done;
			p++;
			continue;
		}
		fmt++;
		if (*fmt == '*') {
			skip = 1;
			fmt++;
		}
		while (*fmt >= '0' && *fmt <= '9')
			width = width * 10 + (*fmt++ - '0');
		while (*fmt == 'l' || *fmt == 'z' || *fmt == 'j') {
			lng = 1;
			fmt++;
		}
		if (*fmt == '%') {
			if (*p++ != '%')
				return done;
			continue;
		}
		if (*fmt == 'n') {
			*va_arg(ap, int *) = (int)(p - s);
			continue;
		}
		if (*fmt != 'c')
			while (*p == ' ' || (*p >= '\t' && *p <= '\r'))
				p++;
		if (*p == '\0')
			return done == 0 ? -1 : done;
		if (*fmt == 'c') {
			if (!skip)
				*va_arg(ap, char *) = *p;
			p++;
		} else if (*fmt == 's') {
			char *d = skip ? NULL : va_arg(ap, char *);
			long n = 0;

			while (*p != '\0' && *p != ' ' && !(*p >= '\t' && *p <= '\r') && (width == 0 || n < width)) {
				if (d != NULL)
					d[n] = *p;
				n++;
				p++;
			}
			if (d != NULL)
				d[n] = '\0';
		} else {
			unsigned long v = vp_strtoul(p, &end, *fmt == 'x' ? 16 : *fmt == 'i' ? 0 : 10, &neg, &any, &over);

			if (!any)
				return done;
			if (neg)
				v = 0 - v;
			if (!skip) {
				if (lng)
					*va_arg(ap, unsigned long *) = v;
				else
					*va_arg(ap, unsigned int *) = (unsigned int)v;
			}
			p = end;
		}
		if (!skip)
			done++;
	}
	return done;
}
int sscanf(const char *s, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vsscanf(s, fmt, ap);
	va_end(ap);
	return n;
}
int __isoc99_sscanf(const char *s, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vsscanf(s, fmt, ap);
	va_end(ap);
	return n;
}
/* --- search.h: glibc's single table ------------------------------------- */
#define VP_HMAX 400
static ENTRY vp_hent[VP_HMAX];
static size_t vp_hcap, vp_hnum;
int hcreate(size_t n)
{
	size_t d;
	if (vp_hcap != 0)
		return 0;
	if (n < 3)
		n = 3;
	for (n |= 1; ; n += 2) {
		for (d = 3; d * d <= n && n % d != 0; d += 2)
			;
		if (d * d > n)
			break;
	}
	vp_hcap = n;
	vp_hnum = 0;
	return 1;
}
void hdestroy(void) { vp_hcap = 0; }
ENTRY *hsearch(ENTRY e, ACTION a)
{
	size_t i;
	for (i = 0; i < vp_hnum; i++)
		if (strcmp(vp_hent[i].key, e.key) == 0)
			return &vp_hent[i];
	if (a == FIND) {
		errno = ESRCH;
		return NULL;
	}
	if (vp_hnum == vp_hcap || vp_hnum == VP_HMAX) {
		errno = ENOMEM;
		return NULL;
	}
	vp_hent[vp_hnum] = e;
	return &vp_hent[vp_hnum++];
}

void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	vp_check(0, "assert() of the code under test fails");
	vp_stop();
}
void abort(void)
{
	vp_check(0, "abort() of the code under test");
	vp_stop();
}
char *strerror(int e) { (void)e; return (char *)"Some error"; }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
void *mempcpy(void *d, const void *s, size_t n) { return (char *)memcpy(d, s, n) + n; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
void *memccpy(void *d, const void *s, int c, size_t n)
{
	unsigned char *a = d;
	const unsigned char *b = s;

	while (n-- > 0)
		if ((*a++ = *b++) == (unsigned char)c)
			return a;
	return NULL;
}
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
	const char *p = h;

	for (; hn >= nn; hn--, p++)
		if (memcmp(p, n, nn) == 0)
			return (void *)p;
	return NULL;
}
char *strcasestr(const char *h, const char *n)
{
	size_t l = strlen(n);

	for (;; h++) {
		if (strncasecmp(h, n, l) == 0)
			return (char *)h;
		if (*h == '\0')
			return NULL;
	}
}
void *reallocarray(void *p, size_t n, size_t m)
{
	if (m != 0 && n > SIZE_MAX / m) {
		errno = ENOMEM;
		return NULL;
	}
	return realloc(p, n * m);
}
void *bsearch(const void *k, const void *b, size_t n, size_t s, int (*f)(const void *, const void *))
{
	const char *p = b;

	while (n > 0) {
		const char *m = p + n / 2 * s;
		int r = f(k, m);

		if (r == 0)
			return (void *)m;
		if (r > 0) {
			p = m + s;
			n -= n / 2 + 1;
		} else
			n /= 2;
	}
	return NULL;
}
void qsort(void *b, size_t n, size_t s, int (*f)(const void *, const void *))
{
	char *p = b, t;
	size_t i, j, k;

	for (i = 1; i < n; i++)
		for (j = i; j > 0 && f(p + (j - 1) * s, p + j * s) > 0; j--)
			for (k = 0; k < s; k++) {
				t = p[j * s + k];
				p[j * s + k] = p[(j - 1) * s + k];
				p[(j - 1) * s + k] = t;
			}
}
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
char *stpncpy(char *d, const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	strncpy(d, s, n);
	return d + l;
}
size_t strlcpy(char *d, const char *s, size_t n)
{
	size_t l = strlen(s), c = l < n ? l : n - 1;
	if (n > 0) {
		memcpy(d, s, c);
		d[c] = '\0';
	}
	return l;
}
size_t strlcat(char *d, const char *s, size_t n)
{
	size_t l = strnlen(d, n);
	return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l);
}

/* Option parsing as in the GNU C library: options may follow other arguments,
 * which end up last. */
char *optarg;
int optind = 1, opterr = 1, optopt = '?';
static int vp_optpos, vp_optfirst;
static int vp_optskip;
int getopt(int argc, char *const argv[], const char *opts)
{
	char **av = (char **)argv;
	const char *p;
	int c, i, start;

	optarg = NULL;
	if (optind == 0 || vp_optfirst == 0) {
		if (optind == 0)
			optind = 1;
		vp_optfirst = 1;
		vp_optpos = 0;
		vp_optskip = 0;
	}
	if (vp_optpos == 0) {
		for (start = optind; start < argc - vp_optskip && (av[start][0] != '-' || av[start][1] == '\0');) {
			char *x = av[start];
			for (i = start; i + 1 < argc; i++)
				av[i] = av[i + 1];
			av[argc - 1] = x;
			vp_optskip++;
		}
		if (optind >= argc - vp_optskip)
			return -1;
		if (strcmp(av[optind], "--") == 0) {
			optind++;
			return -1; /* (the order of what was skipped and what follows is not kept) */
		}
		vp_optpos = 1;
	}
	c = (unsigned char)av[optind][vp_optpos++];
	p = c == ':' || c == ';' ? NULL : strchr(opts, c);
	if (p == NULL) {
		optopt = c;
		if (av[optind][vp_optpos] == '\0') {
			optind++;
			vp_optpos = 0;
		}
		return '?';
	}
	if (p[1] == ':') {
		if (av[optind][vp_optpos] != '\0') {
			optarg = &av[optind][vp_optpos];
			optind++;
		} else if (p[2] != ':') {
			if (optind + 1 >= argc - vp_optskip) {
				optopt = c;
				optind++;
				vp_optpos = 0;
				return opts[0] == ':' ? ':' : '?';
			}
			optarg = av[optind + 1];
			optind += 2;
		} else
			optind++;
		vp_optpos = 0;
	} else if (av[optind][vp_optpos] == '\0') {
		optind++;
		vp_optpos = 0;
	}
	return c;
}
