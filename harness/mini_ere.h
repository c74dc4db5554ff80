/*
 * POSIX extended regular expressions, as far as configuration patterns use
 * them, by backtracking over the parsed pattern: alternation, groups, . [ ]
 * * + ? {m,n} ^ $ and backslash escapes.
 */
#ifndef MINI_ERE_H
#define MINI_ERE_H
#include <stdlib.h>
#include <string.h>

enum { E_CHAR, E_ANY, E_SET, E_BOL, E_EOL, E_CAT, E_ALT, E_REP, E_EMPTY };
struct ere {
	int type, c, min, max, neg;
	const char *set;
	int setlen;
	struct ere *a, *b;
};
#define ERE_POOL 400
static struct ere ere_pool[ERE_POOL];
static int ere_used;
static int ere_newline, ere_icase, ere_err;

static struct ere *ere_new(int type)
{
	struct ere *e = &ere_pool[ere_used++];

	vp_harness(ere_used <= ERE_POOL, "pattern within the matcher's space");
	memset(e, 0, sizeof(*e));
	e->type = type;
	return e;
}
static struct ere *ere_alt(const char **p, int depth);
static struct ere *ere_atom(const char **p, int depth)
{
	struct ere *e;

	switch (**p) {
	case '(':
		(*p)++;
		e = ere_alt(p, depth + 1);
		if (**p != ')')
			ere_err = 1;
		else
			(*p)++;
		return e;
	case '.':
		(*p)++;
		return ere_new(E_ANY);
	case '^':
		(*p)++;
		return ere_new(E_BOL);
	case '$':
		(*p)++;
		return ere_new(E_EOL);
	case '[':
		e = ere_new(E_SET);
		(*p)++;
		if (**p == '^')
			e->neg = 1, (*p)++;
		e->set = *p;
		if (**p == ']')
			(*p)++;
		while (**p != ']' && **p != '\0')
			(*p)++;
		if (**p == '\0')
			ere_err = 1;
		e->setlen = (int)(*p - e->set);
		if (**p == ']')
			(*p)++;
		return e;
	case '\\':
		(*p)++;
		if (**p == '\0')
			ere_err = 1;
		/* FALLTHROUGH */
	default:
		e = ere_new(E_CHAR);
		e->c = (unsigned char)**p;
		if (**p != '\0')
			(*p)++;
		return e;
	}
}
static struct ere *ere_cat(const char **p, int depth)
{
	struct ere *l = NULL;

	while (**p != '\0' && **p != '|' && !(**p == ')' && depth > 0)) {
		struct ere *e = ere_atom(p, depth);

		while (**p == '*' || **p == '+' || **p == '?' || **p == '{') {
			struct ere *r = ere_new(E_REP);

			r->a = e;
			r->min = **p == '+';
			r->max = **p == '?' ? 1 : -1;
			if (**p == '{') {
				r->min = 0;
				for ((*p)++; **p >= '0' && **p <= '9'; (*p)++)
					r->min = r->min * 10 + (**p - '0');
				r->max = r->min;
				if (**p == ',') {
					(*p)++;
					r->max = -1;
					if (**p != '}')
						for (r->max = 0; **p >= '0' && **p <= '9'; (*p)++)
							r->max = r->max * 10 + (**p - '0');
				}
				if (**p != '}') {
					ere_err = 1;
					return e;
				}
			}
			(*p)++;
			e = r;
		}
		if (l == NULL)
			l = e;
		else {
			struct ere *c = ere_new(E_CAT);

			c->a = l;
			c->b = e;
			l = c;
		}
	}
	return l != NULL ? l : ere_new(E_EMPTY);
}
static struct ere *ere_alt(const char **p, int depth)
{
	struct ere *l = ere_cat(p, depth);

	while (**p == '|') {
		struct ere *c = ere_new(E_ALT);

		(*p)++;
		c->a = l;
		c->b = ere_cat(p, depth);
		l = c;
	}
	return l;
}

/* Matching with continuations; positions are indices into ere_s[0..ere_n). */
static const char *ere_s;
static int ere_n, ere_whole;
/* As in glibc, ^ and $ also hold next to a newline that the match itself consumes. */
static int ere_start, ere_min_end;
struct ere_k { const struct ere *e; int rep, from; const struct ere_k *next; };
static int ere_run(const struct ere *e, int i, const struct ere_k *k);

static int ere_fold(int c) { return ere_icase && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ere_inset(const struct ere *e, int c)
{
	int j, in = 0;

	for (j = 0; j < e->setlen; j++) {
		int lo = (unsigned char)e->set[j], hi = lo;

		if (j + 2 < e->setlen && e->set[j + 1] == '-') {
			hi = (unsigned char)e->set[j + 2];
			j += 2;
		}
		if ((c >= lo && c <= hi) || (ere_icase && ere_fold(c) >= ere_fold(lo) && ere_fold(c) <= ere_fold(hi)))
			in = 1;
	}
	return in;
}
static int ere_next(int i, const struct ere_k *k)
{
	if (k == NULL)
		return i >= ere_min_end && (!ere_whole || i == ere_n);
	if (k->rep < 0)
		return ere_run(k->e, i, k->next);
	/* inside a repetition, `rep' copies done */
	{
		const struct ere *r = k->e;

		if (i == k->from && k->rep > r->min)
			return 0;       /* an empty iteration adds nothing */
		if (r->max < 0 || k->rep < r->max) {
			struct ere_k nk = { r, k->rep + 1, i, k->next };

			if (ere_run(r->a, i, &nk))
				return 1;
		}
		return k->rep >= r->min ? ere_next(i, k->next) : 0;
	}
}
static int ere_run(const struct ere *e, int i, const struct ere_k *k)
{
	int c = i < ere_n ? (unsigned char)ere_s[i] : -1;

	switch (e->type) {
	case E_EMPTY:
		return ere_next(i, k);
	case E_CHAR:
		return c >= 0 && ere_fold(c) == ere_fold(e->c) && ere_next(i + 1, k);
	case E_ANY:
		return c > 0 && !(ere_newline && c == '\n') && ere_next(i + 1, k);
	case E_SET:
		return c >= 0 && ere_inset(e, c) != e->neg && !(ere_newline && e->neg && c == '\n') && ere_next(i + 1, k);
	case E_BOL:
		return (i == 0 || ((ere_newline || i > ere_start) && ere_s[i - 1] == '\n')) && ere_next(i, k);
	case E_EOL:
		if (i == ere_n || (ere_newline && c == '\n'))
			return ere_next(i, k);
		if (c == '\n') {
			int old = ere_min_end, r;

			if (ere_min_end < i + 1)
				ere_min_end = i + 1;
			r = ere_next(i, k);
			ere_min_end = old;
			return r;
		}
		return 0;
	case E_CAT: {
		struct ere_k nk = { e->b, -1, 0, k };

		return ere_run(e->a, i, &nk);
	}
	case E_ALT:
		return ere_run(e->a, i, k) || ere_run(e->b, i, k);
	default: {
		struct ere_k nk = { e, 0, -1, k };

		return ere_next(i, &nk);
	}
	}
}
/* whole: the match must span all of s; otherwise it may be anywhere. */
static int ere_match(const struct ere *e, const char *s, int n, int whole)
{
	int i;

	ere_s = s;
	ere_n = n;
	ere_whole = whole;
	for (i = 0; i <= (whole ? 0 : n); i++) {
		ere_start = i;
		ere_min_end = 0;
		if (ere_run(e, i, NULL))
			return 1;
	}
	return 0;
}
static struct ere *ere_parse(const char *p)
{
	struct ere *e = ere_alt(&p, 0);

	if (*p != '\0')
		ere_err = 1;
	return e;
}
#endif
