/*
 * L02: the string helpers of util.c for all short strings.
 * OP 0: concat, skip_newlines, skip_whitespace, chomp; 1: parse_line.
 */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "util.h"

#ifndef SMAX
# define SMAX 5
#endif
#ifndef AMAX
# define AMAX 4
#endif

void STUB(exit)(int c) { (void)c; vp_check(0, "the helpers do not end the program"); vp_stop(); }

#ifdef SIZES
# undef SMAX
# define SMAX 3000
/* Long ones that start with any number of characters of a kind. */
static char *text(void)
{
	size_t n = VP_PICK(0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 2900), k = VP_PICK(0, 1, 127, 128, 129, 255, 256, 257);
	char *s = vp_filled(n), c = (char)vp_nz();

	vp_assume(c == '\n' || c == '\r' || c == ' ' || c == '\t');
	for (; k > 0 && k <= n; k--)
		s[k - 1] = c;
	return s;
}
#else
static char *text(void) { return vp_string(0, SMAX); }
#endif
static bool blank(char c) { return c == ' ' || c == '\t'; }

#if OP == 0
static void simple(void)
{
	char *a = text(), *b, *ac, *bc, *r;
	size_t la = strlen(a), lb, i;

	switch (vp_concrete(vp_upto(3))) {
	case 0:
		b = text();
		lb = strlen(b);
		ac = strdup(a);
		bc = strdup(b);
		r = concat(a, b);
		for (i = 0; i < la; i++)
			vp_check(r[i] == ac[i], "the concatenation starts with the first string");
		for (i = 0; i < lb; i++)
			vp_check(r[la + i] == bc[i], "the concatenation goes on with the second string");
		vp_check(r[la + lb] == '\0', "the concatenation ends there");
		r[la + lb] = 'x'; /* It is a block of its own. */
		vp_check(strcmp(a, ac) == 0 && strcmp(b, bc) == 0, "the arguments are left alone");
		free(b);
		free(ac);
		free(bc);
		free(r);
		vp_reach("concat");
		break;
	case 1:
		ac = strdup(a);
		r = skip_newlines(a);
		for (i = 0; ac[i] == '\r' || ac[i] == '\n'; i++)
			;
		vp_check(r == a + i, "exactly the leading CR and LF are skipped");
		vp_check(strcmp(a, ac) == 0, "the argument is left alone");
		free(ac);
		if (i > 1)
			vp_reach("newlines");
		break;
	case 2:
		ac = strdup(a);
		r = skip_whitespace(a);
		for (i = 0; blank(ac[i]); i++)
			;
		vp_check(r == a + i, "exactly the leading blanks are skipped");
		vp_check(strcmp(a, ac) == 0, "the argument is left alone");
		free(ac);
		if (i > 1)
			vp_reach("blanks");
		break;
	default:
		ac = strdup(a);
		chomp(a);
		if (la > 0 && ac[la - 1] == '\n') {
			ac[la - 1] = '\0';
			vp_reach("chomped");
		}
		vp_check(strcmp(a, ac) == 0, "exactly one trailing newline is removed");
		free(ac);
		break;
	}
	free(a);
}

#else
static void split(void)
{
#ifdef SIZES
	char *line = malloc(SMAX + 1), *copy, *args[AMAX + 2], sep = (char)vp_u8();
	size_t i, j0, st[SMAX + 1], en[SMAX + 1], len = VP_PICK(1, 2, 127, 128, 255, 256, 257), gap = VP_PICK(1, 2, 128, 256), count = VP_PICK(0, 1, 2, 3, 4, 5, 100, 256, 257);
	int n = (int)vp_concrete(vp_upto(AMAX)), words = 0, j;
	bool r;

	vp_assume(sep == ' ' || sep == '\t' || sep == 'x');
	if (count * 3 > 20)
		len = gap = 1;
	for (i = 0, st[0] = 0; st[0] < count; st[0]++) {
		for (j0 = 0; j0 < gap; j0++)
			line[i++] = j0 == 0 ? ' ' : '\t';
		for (j0 = 0; j0 < len; j0++)
			line[i++] = (char)('A' + j0 % 50);
	}
	line[i] = '\0';
	if (i > 2)
		line[i / 2] = sep;
	line = realloc(line, i + 1);
	copy = strdup(line);
#else
	char *line = vp_string(0, SMAX), *copy = strdup(line), *args[AMAX + 2];
	size_t i, st[SMAX + 1], en[SMAX + 1];
	int n = (int)vp_concrete(vp_upto(AMAX)), words = 0, j;
	bool r;
#endif

	for (j = 0; j <= AMAX + 1; j++)
		args[j] = (char *)&words;
	for (i = 0; copy[i] != '\0';) {
		while (blank(copy[i]))
			i++;
		if (copy[i] == '\0')
			break;
		st[words] = i;
		while (copy[i] != '\0' && !blank(copy[i]))
			i++;
		en[words++] = i;
	}
	r = parse_line(line, args, n);
	vp_check(r == (words == n), "a line is accepted exactly if it has the requested number of words");
	for (j = n; j <= AMAX + 1; j++)
		vp_check(args[j] == (char *)&words, "nothing is stored behind the requested arguments");
	if (!r) {
		if (words > n)
			vp_reach("too many");
		else
			vp_reach("too few");
	}
	for (j = 0; r && j < n; j++) {
		vp_check(args[j] == line + st[j], "each argument starts where its word starts");
		vp_check(args[j][en[j] - st[j]] == '\0', "each argument ends where its word ends");
		for (i = st[j]; i < en[j]; i++)
			vp_check(line[i] == copy[i], "the words are left alone");
		vp_reach("accepted");
	}
	free(line);
	free(copy);
}

#endif
void vp_main(void)
{
#if OP == 0
	simple();
#else
	split();
#endif
}
