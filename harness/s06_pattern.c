/*
 * S06: conf.c + auth.c from a configured pattern to the decision about a
 * submitted command, against the documented meaning of the pattern: it must
 * match, as a whole, the whole text (or field).
 */
#include <config.h>
#include <sys/stat.h>
#include <ftw.h>
#include <regex.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "mini_confuse.h"
#include "mini_ere.h"
#include "auth.h"
#include "conf.h"

#ifndef TMAX
# define TMAX 5
#endif
#ifndef VMAX
# define VMAX 3
#endif
#define COMMANDS 0
#define HOSTS 1
#define SERVICES 2

void STUB(exit)(int c) { (void)c; vp_check(mc_errors > 0, "the server only refuses patterns it reported as erroneous"); vp_stop(); }

int STUB(stat)(const char * restrict p, struct stat * restrict sb) { (void)p; memset(sb, 0, sizeof(*sb)); sb->st_mode = S_IFREG; return 0; }
int STUB(nftw)(const char *p, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl) { (void)p; (void)f; (void)n; (void)fl; return -1; }
int STUB(cfg_include)(cfg_t *c, cfg_opt_t *o, int n, const char **v) { (void)c; (void)o; (void)n; (void)v; return 0; }
int STUB(cfg_parse_buf)(cfg_t *c, const char *b) { (void)c; (void)b; return 0; }

/* --- regex.h ------------------------------------------------------------- */
static const regex_t *re_ptr;
static struct ere *re_ast;
static int re_flags;
#ifndef VP_SYM
static regex_t real;
#endif
int STUB(regcomp)(regex_t * restrict re, const char * restrict pat, int flags)
{
	vp_trace("regcomp \"%s\" flags %d", pat, flags);
	vp_harness(re_ptr == NULL, "one pattern");
	vp_check((flags & REG_EXTENDED) != 0, "patterns are extended regular expressions");
	re_ptr = re;
	re_flags = flags;
	ere_err = 0;
	re_ast = ere_parse(strdup(pat));
#ifndef VP_SYM
	vp_model((regcomp(&real, pat, flags) != 0) == ere_err, "the matcher accepts the patterns the C library accepts");
#endif
	return ere_err ? REG_BADPAT : 0;
}
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	int r;

	(void)nm; (void)pm;
	vp_check(re == re_ptr && !fl, "the configured pattern is used");
	ere_newline = (re_flags & REG_NEWLINE) != 0;
	ere_icase = (re_flags & REG_ICASE) != 0;
	r = ere_match(re_ast, s, (int)strlen(s), 0);
	ere_newline = ere_icase = 0;
#ifndef VP_SYM
	vp_model((regexec(&real, s, 0, NULL, 0) == 0) == (r != 0), "the matcher agrees with the C library");
#endif
	return r ? 0 : REG_NOMATCH;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict b, size_t n) { (void)e; (void)re; if (n) b[0] = '\0'; return 1; }
void STUB(regfree)(regex_t *re) { (void)re; }

/* --- the configuration --------------------------------------------------- */
static const char *const setting[] = { "commands", "hosts", "services" };
static const char *value;
static int h_parse(cfg_t *cfg, const char *file)
{
	cfg_t *s = mc_section(cfg, "authorize", "a");

	(void)file;
	if (mc_set(s, "password", "p") != CFG_SUCCESS)
		return CFG_PARSE_ERROR;
	return mc_set(s, setting[KIND], value);
}

static const char *const corpus[] = {
#if KIND == COMMANDS
	"A", "A|B", "AB|C;x", "^A|B", "A|B$", "(A|B)C", "[AB]C", "A.*", "A|.*B", "[^;]+;x", "A{2}", "", "A+B?", "^A$", "A\\|B", "(A|B)|C",
#elif KIND == HOSTS
	"h", "h|i", ".*h", "[hi]", "h$|i", "^h|i", "(h|i)j", "h.?", ".+", "h{1,2}", "h[^;]*", "h\\.i", "|h",
#else
	"s", "s@h", "s|t", "s|t@h", "s@h|i", "s@t@h", ".*@h", "[s]@[hi]", "@h", "(s|t)@h", "s.?@h.?", "s@.+", ".+@h", ".+",
#endif
};
#define NCORPUS (sizeof(corpus) / sizeof(corpus[0]))

static struct ere *lit(const char *s, struct ere *next)
{
	size_t n = strlen(s);
	struct ere *e = next;

	while (n-- > 0) {
		struct ere *c = ere_new(E_CHAR), *k = ere_new(E_CAT);

		c->c = (unsigned char)s[n];
		k->a = c;
		k->b = e;
		e = k;
	}
	return e;
}
static struct ere *cat(struct ere *a, struct ere *b)
{
	struct ere *k = ere_new(E_CAT);

	k->a = a;
	k->b = b;
	return k;
}
static struct ere *spec;
static struct ere *vhost, *vserv;
static void build_spec(void)
{
	ere_err = 0;
#if KIND == COMMANDS
	spec = ere_parse(value);
#elif KIND == HOSTS
	vhost = ere_parse(value);
	spec = lit("PROCESS_HOST_CHECK_RESULT;", cat(vhost, lit(";", ere_parse(".+"))));
#else
	{
		const char *at = strrchr(value, '@');
		char *sv = strdup(value);

		if (at != NULL)
			sv[at - value] = '\0';
		vserv = ere_parse(sv);
		vhost = ere_parse(at != NULL ? at + 1 : "[^;]+");
		spec = lit("PROCESS_SERVICE_CHECK_RESULT;", cat(vhost, lit(";", cat(vserv, lit(";", ere_parse(".+;.+"))))));
	}
#endif
}

static const char *const prefix[] = {
#if KIND == COMMANDS
	"",
#elif KIND == HOSTS
	"PROCESS_HOST_CHECK_RESULT;", "PROCESS_HOST_CHECK_RESULT", "", "x;PROCESS_HOST_CHECK_RESULT;", "process_host_check_result;",
#else
	"PROCESS_SERVICE_CHECK_RESULT;", "PROCESS_SERVICE_CHECK_RESULT", "", "x;PROCESS_SERVICE_CHECK_RESULT;", "PROCESS_SVC_CHECK_RESULT;",
#endif
};
#define NPREFIX (sizeof(prefix) / sizeof(prefix[0]))

#ifdef STRICT
static int field_strict(const char *t, int n)
{
	int i, j;

	for (i = 0; i < n && t[i] != ';'; i++)
		;
	i++;
	for (j = i; j < n && t[j] != ';'; j++)
		;
	if (!ere_match(vhost, t + i, j - i, 1))
		return 0;
# if KIND == SERVICES
	for (i = ++j; j < n && t[j] != ';'; j++)
		;
	return ere_match(vserv, t + i, j - i, 1);
# else
	return 1;
# endif
}
#endif

void vp_main(void)
{
	char *text, *cmd;
	size_t n, i, pl;
	const char *pre;
	bool accepted, want, anchors;
	cfg_t *cfg;

#ifdef ALPHABET
	{
		char *v;
		size_t len = vp_concrete(vp_size(1, VMAX));

		v = malloc(len + 1);
		for (i = 0; i < len; i++) {
			v[i] = ALPHABET[vp_concrete(vp_upto(sizeof(ALPHABET) - 2))];
			/* quantifiers without an operand are not patterns */
			if ((v[i] == '*' || v[i] == '+') && (i == 0 || strchr("|^$*+@", v[i - 1]) != NULL))
				vp_stop();
		}
		v[len] = '\0';
		value = v;
	}
#else
	value = corpus[vp_concrete(vp_upto(NCORPUS - 1))];
#endif
	cfg = conf_parse("/etc/nsca-ng.cfg");
	vp_check(cfg != NULL && re_ptr != NULL, "a section's pattern is compiled");
	build_spec();
	vp_assume(!ere_err);

	pre = prefix[vp_concrete(vp_upto(NPREFIX - 1))];
	pl = strlen(pre);
	n = vp_concrete(vp_size(0, TMAX));
	text = malloc(4 + pl + n + 2);
	memcpy(text, "[1] ", 4);
	cmd = text + 4;
	memcpy(cmd, pre, pl);
	for (i = 0; i < n; i++) {
		cmd[pl + i] = (char)vp_nz();
		vp_assume(cmd[pl + i] != '\n');
	}
	if (n > 0)
		vp_assume(pl > 0 || (cmd[0] != ' ' && cmd[0] != '\t'));
	n += pl;
	cmd[n] = '\n';
	cmd[n + 1] = '\0';

	accepted = is_authorized("a", text);
	want = ere_match(spec, cmd, (int)n, 1) || ere_match(spec, cmd, (int)n + 1, 1);
	anchors = strpbrk(value, "^$") != NULL;
#ifdef STRICT
	if (accepted && want) {
		vp_reach("accepted");
		vp_check(field_strict(cmd, (int)n), "the pattern matches the field itself");
	}
#else
	vp_check(!accepted || want, "a command is accepted only if the whole pattern matches the whole text");
	vp_check(accepted || !want || anchors, "a command the whole pattern matches is accepted");
	if (accepted)
		vp_reach("accepted");
	else
		vp_reach("refused");
#endif
}
