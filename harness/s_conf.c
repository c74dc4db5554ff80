/*
 * S07 (MODE 7): global authorisation settings and passwords.
 * S08 (MODE 8): include directives and configuration directories.
 * The real conf.c, auth.c and hash.c over a small libConfuse.
 */
#include <config.h>
#include <sys/stat.h>
#include <errno.h>
#include <ftw.h>
#include <regex.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "mini_confuse.h"
#include "auth.h"
#include "conf.h"

#ifdef OOM
# include "h_oom.h"             /* R01: one allocation fails */
OOM_FUNCTIONS(n, 's')
#endif
static bool parsed, refuse;     /* refuse: the server must not start */
static void at_exit(int c);
void STUB(exit)(int c)
{
#ifdef OOM
	if (oom_seen) {
		vp_check(c == EXIT_FAILURE, "running out of memory is reported");
		vp_reach("out of memory");
		vp_stop();
	}
#endif
	at_exit(c);
	vp_stop();
}

#if MODE == 7
struct ssl_st { void *app; };
static SSL ssl;
int STUB(SSL_set_ex_data)(SSL *s, int i, void *p) { (void)i; s->app = p; return 1; }
void *STUB(SSL_get_ex_data)(const SSL *s, int i) { (void)i; return s->app; }
/* ------------------------------------------------- compiled patterns: tokens */
#ifdef MANY
# define NRE 400
#else
# define NRE 24
#endif
static struct { const regex_t *re; char tok; } res[NRE];
static int nres;
static char chosen;             /* the value whose pattern matches the submission */
static int badre;               /* regcomp() may fail that often */
/* Values are <a> to <x>. */
int STUB(regcomp)(regex_t * restrict re, const char * restrict pat, int flags)
{
	const char *p;
	char tok = 0;

	(void)flags;
	for (p = pat; *p != '\0'; p++)
		if (p[0] == '<') {
			vp_check(tok == 0 && p[1] != '\0' && p[2] == '>', "a pattern is made of one value");
			tok = p[1];
		}
	vp_check(tok != 0, "a pattern is made of a value");
	vp_harness(nres < NRE, "few patterns");
	if (badre > 0 && vp_bool()) {
		badre--;
		refuse = true;
		return REG_EBRACK;
	}
	res[nres].re = re;
	res[nres++].tok = tok;
	return 0;
}
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict buf, size_t n) { (void)e; (void)re; strncpy(buf, "bad", n); return 4; }
void STUB(regfree)(regex_t *re) { (void)re; }
int STUB(regexec)(const regex_t * restrict re, const char * restrict s, size_t nm, regmatch_t * restrict pm, int fl)
{
	int i;

	(void)s; (void)nm; (void)pm; (void)fl;
	for (i = 0; i < nres && res[i].re != re; i++)
		;
	vp_check(i < nres, "only compiled patterns are matched");
	return res[i].tok == chosen ? 0 : REG_NOMATCH;
}
int STUB(stat)(const char * restrict p, struct stat * restrict sb) { (void)p; memset(sb, 0, sizeof(*sb)); sb->st_mode = S_IFREG; return 0; }
int STUB(nftw)(const char *p, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl) { (void)p; (void)f; (void)n; (void)fl; return -1; }
int STUB(cfg_include)(cfg_t *c, cfg_opt_t *o, int n, const char **v) { (void)c; (void)o; (void)n; (void)v; return 0; }
int STUB(cfg_parse_buf)(cfg_t *c, const char *b) { (void)c; (void)b; return 0; }

#ifdef MANY
/* Any number of sections, one of which has a pattern. */
static size_t nsec, last, special, npat, pick;
static bool global;              /* the patterns are global ones */
#ifndef NSECS
# define NSECS 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60
#endif
static char title[320][8];
static void name(size_t i) { strcpy(title[i], i == last ? "*" : "client0"); if (i != last) { title[i][4] = (char)('a' + i % 7); title[i][5] = (char)('a' + i / 64); title[i][6] = (char)('0' + i % 64); } }
static int patterns(cfg_t *c)
{
	char v[4] = "<x>";
	size_t i;

	for (i = 0; i < npat; i++) {
		v[1] = (char)('A' + i);
		if (mc_set(c, "commands", v) != CFG_SUCCESS)
			return CFG_PARSE_ERROR;
	}
	return CFG_SUCCESS;
}
static int h_parse(cfg_t *cfg, const char *file)
{
	size_t i;
	char pw[4] = "p0";

	(void)file;
	parsed = true;
	nsec = VP_PICK(NSECS);
	last = vp_bool() ? nsec - 1 : nsec;     /* the one for everyone, if any */
	if (nsec == 3) {
		special = 1;
		npat = VP_PICK(1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50);
		global = vp_bool();
		pick = vp_concrete(vp_upto(npat));
	} else {
		special = nsec > 60 ? VP_PICK(0, 60, 99) : vp_concrete(vp_upto(nsec - 1));
		npat = 1;
		pick = 0;
	}
	for (i = 0; i < nsec; i++) {
		cfg_t *c;

		name(i);
		c = mc_section(cfg, "authorize", title[i]);
		pw[1] = (char)('0' + i % 70);
		if (mc_set(c, "password", pw) != CFG_SUCCESS || (i == special && !global && patterns(c) != CFG_SUCCESS))
			return CFG_PARSE_ERROR;
	}
	return global ? patterns(cfg) : CFG_SUCCESS;
}
static void at_exit(int c) { (void)c; vp_check(0, "a configuration is accepted whatever its number of sections"); }
void vp_main(void)
{
	char text[] = "[1] x\n", pw[8];
	size_t i, who;
	unsigned n;

	mc_root = conf_parse("/etc/nsca-ng.cfg");
	chosen = (char)('A' + pick);
	for (i = 0; i <= nsec; i++) {
		char *id = malloc(8);

		who = i;
		if (i == nsec) {
			strcpy(id, "nobody");
			who = last;
		} else
			strcpy(id, title[i]);
		vp_check(is_authorized(id, text) == ((global || who == special) && who < nsec && pick < npat), "every section is found, with its own patterns");
		memset(pw, 0, sizeof(pw));
		n = check_psk(&ssl, id, (unsigned char *)pw, sizeof(pw));
		vp_check(n == (who < nsec ? 2 : 0) && (who == nsec || pw[1] == (char)('0' + who % 70)), "every section is found, with its own password");
		free(id);
	}
	if (nsec > 20)
		vp_reach("many sections");
}
#else
static const char *const setting[4] = { "commands", "hosts", "services", "password" };
#ifndef NSEC
# define NSEC 2
#endif
#ifndef GVALS
# define GVALS 1
#endif
#ifndef VALS
# define VALS 2
#endif
static int nsec, nglob[4], nown[NSEC][4];
static char title[NSEC][3];
static char token(int sec, int s, int i) { return (char)('a' + (sec + 1) * 8 + s * 2 + i); } /* sec -1: global */
static int set(cfg_t *c, int sec, int s, int i)
{
	char v[4] = { '<', token(sec, s, i), '>', '\0' };

	if (i > 0 && !(STUB(cfg_getopt)(c, setting[s])->flags & CFGF_LIST))
		return CFG_PARSE_ERROR;
	return mc_set(c, setting[s], v);
}
static int globals(cfg_t *cfg)
{
	int s, j;

	for (s = 0; s < 4; s++)
		for (j = 0; j < nglob[s]; j++)
			if (set(cfg, -1, s, j) != CFG_SUCCESS)
				return CFG_PARSE_ERROR;
	return CFG_SUCCESS;
}
static int h_parse(cfg_t *cfg, const char *file)
{
	int i, j, s;
	bool before = vp_bool();

	(void)file;
	parsed = true;
	for (s = 0; s < 4; s++)
		nglob[s] = (int)vp_concrete(vp_upto(s == 3 ? 1 : GVALS));
	nsec = (int)vp_concrete(vp_upto(NSEC));
	if (before && globals(cfg) != CFG_SUCCESS)
		return CFG_PARSE_ERROR;
	for (i = 0; i < nsec; i++) {
		static const char *const titles[] = { "a", "*", "b" };
		cfg_t *c;

		strcpy(title[i], titles[i == 0 ? (int)vp_concrete(vp_upto(1)) : 2]);
		c = mc_section(cfg, "authorize", title[i]);
		for (s = 0; s < 4; s++) {
			nown[i][s] = (int)vp_concrete(vp_upto(s == 3 || (i > 0 && s < 2) ? 1 : VALS));
			for (j = 0; j < nown[i][s]; j++)
				if (set(c, i, s, j) != CFG_SUCCESS)
					return CFG_PARSE_ERROR;
		}
		if (!nown[i][3] && !nglob[3])
			refuse = true;
	}
	if (nsec == 0)
		refuse = true;
	return before ? CFG_SUCCESS : globals(cfg);
}
static void at_exit(int c)
{
	vp_check(parsed && refuse, "only an erroneous configuration is refused");
	vp_check(c == EXIT_FAILURE, "refusing a configuration is a failure");
	if (nsec == 0)
		vp_reach("no section");
	else
		vp_reach("no password");
}
void vp_main(void)
{
	static const char *const ids[] = { "a", "b", "c" };
	char text[] = "[1] x\n", want[NRE], pw[8];
	char *id;
	unsigned n;
	int who, i, j, s, sec, have;
	bool ok, in;

# ifdef BADRE
	badre = BADRE;
# endif
	mc_root = conf_parse("/etc/nsca-ng.cfg");
	vp_check(!refuse, "an erroneous configuration is refused");

	/* A client with any identity submits something one value's pattern matches. */
	who = (int)vp_concrete(vp_upto(2));
	sec = -1;
	for (i = 0; i < nsec; i++)
		if (strcmp(title[i], ids[who]) == 0)
			sec = i;
	for (i = 0; sec == -1 && i < nsec; i++)
		if (strcmp(title[i], "*") == 0)
			sec = i;
	have = 0;
	for (s = 0; sec != -1 && s < 3; s++) {
		for (j = 0; j < nown[sec][s]; j++)
			want[have++] = token(sec, s, j);
		for (j = 0; nown[sec][s] == 0 && j < nglob[s]; j++)
			want[have++] = token(-1, s, j);
	}
	chosen = (char)vp_u8();
	ok = is_authorized(ids[who], text);
	for (i = 0, in = 0; i < have; i++)
		in |= want[i] == chosen;
	vp_check(ok == in, "a section's own values count, global ones only where it has none");
	if (ok)
		vp_reach("authorised");
	else
		vp_reach("not authorised");

	id = malloc(2);
	strcpy(id, ids[who]);
	memset(pw, 0, sizeof(pw));
	n = check_psk(&ssl, id, (unsigned char *)pw, sizeof(pw));
	if (sec == -1) {
		vp_check(n == 0, "without a section there is no key");
		vp_reach("unknown client");
	} else {
		vp_check(n == 3 && pw[1] == (nown[sec][3] ? token(sec, 3, 0) : token(-1, 3, 0)), "a section's own password counts, the global one only if it has none");
		vp_reach("key");
	}
	free(id);
}
#endif
#endif

#if MODE == 8
/*
 * The world: "/d" may be a directory (with entries), a file, something else or
 * missing.  The configuration is either the file "/c" with include directives
 * or "/d" itself.
 */
# ifndef NMAX
#  define NMAX 6
# endif
# ifndef ENTRIES
#  define ENTRIES 2
# endif
enum { REGULAR, OTHER, DIRECTORY, UNREADABLE, DANGLING };
static struct { char path[NMAX + 16]; int kind; } ent[ENTRIES];
static int nent, walk_fails;
static char top[] = "/d";
static int top_kind = -1;       /* -1: missing */
static char todo[ENTRIES + 3][NMAX + 20];       /* the files to be parsed, in order */
static int ntodo, done, section;
static bool failed;             /* a file could not be parsed */
static bool nested;             /* "/d/x.cfg" includes another directory */

static void expect(const char *path) { strcpy(todo[ntodo++], path); }
static int parse_file(cfg_t *cfg, const char *path)
{
	vp_check(!failed, "parsing ends at the first error");
	vp_check(done < ntodo && strcmp(path, todo[done]) == 0, "exactly the files in question are parsed, in order");
	done++;
	if (vp_bool()) {
		failed = refuse = true;
		return vp_bool() ? CFG_PARSE_ERROR : CFG_FILE_ERROR;
	}
	if (!section) {
		section = 1;
		mc_set(mc_section(cfg, "authorize", "a"), "password", "x");
	}
	if (nested && strcmp(path, "/d/x.cfg") == 0) {
		cfg_opt_t *o = STUB(cfg_getopt)(cfg, "include");
		const char *arg[] = { "/e" };

		if (o->func(cfg, o, 1, arg) != 0) {
			vp_check(failed, "a proper include directive is accepted");
			return CFG_PARSE_ERROR;
		}
# if ENTRIES > 1
		vp_reach("directory within a directory");
# endif
	}
	return CFG_SUCCESS;
}
int STUB(regcomp)(regex_t * restrict re, const char * restrict pat, int flags) { (void)re; (void)pat; (void)flags; return 0; }
size_t STUB(regerror)(int e, const regex_t * restrict re, char * restrict buf, size_t n) { (void)e; (void)re; strncpy(buf, "bad", n); return 4; }
void STUB(regfree)(regex_t *re) { (void)re; }

static void fill(struct stat *sb, int kind)
{
	memset(sb, 0, sizeof(*sb));
	sb->st_mode = (kind == REGULAR ? S_IFREG : kind == DIRECTORY || kind == UNREADABLE ? S_IFDIR : S_IFIFO) | 0644;
}
int STUB(stat)(const char * restrict p, struct stat * restrict sb)
{
	int i;

	if (strcmp(p, "/c") == 0) {
		fill(sb, REGULAR);
		return 0;
	}
	if (strcmp(p, "/e") == 0 || strcmp(p, "/e/z.conf") == 0) {
		fill(sb, p[2] == '\0' ? DIRECTORY : REGULAR);
		return 0;
	}
	if (strcmp(p, top) == 0 && top_kind >= 0) {
		fill(sb, top_kind);
		return 0;
	}
	for (i = 0; i < nent; i++)
		if (strcmp(p, ent[i].path) == 0 && ent[i].kind != DANGLING) {
			fill(sb, ent[i].kind);
			return 0;
		}
	errno = ENOENT;
	return -1;
}
int STUB(lstat)(const char * restrict p, struct stat * restrict sb) { return STUB(stat)(p, sb); }
int STUB(nftw)(const char *p, int (*f)(const char *, const struct stat *, int, struct FTW *), int n, int fl)
{
	struct stat sb;
	struct FTW w;
	int i, r;

	if (nested && strcmp(p, "/e") == 0) {
		memset(&w, 0, sizeof(w));
		fill(&sb, DIRECTORY);
		if ((r = f(p, &sb, FTW_D, &w)) != 0)
			return r;
		fill(&sb, REGULAR);
		w.level = 1;
		w.base = 3;
		return f("/e/z.conf", &sb, FTW_F, &w);
	}
	vp_check(strcmp(p, top) == 0 && n > 0, "the directory is traversed");
	vp_check((fl & (FTW_PHYS | FTW_CHDIR | FTW_DEPTH)) == 0, "symbolic links are followed");
	memset(&w, 0, sizeof(w));
	w.base = 1;
	fill(&sb, DIRECTORY);
	if ((r = f(p, &sb, FTW_D, &w)) != 0)
		return r;
	w.level = 1;
	for (i = 0; i < nent; i++) {
		static const int types[] = { FTW_F, FTW_F, FTW_D, FTW_DNR, FTW_SLN };

		if (walk_fails == i + 1) {
			errno = EIO;
			return -1;
		}
		fill(&sb, ent[i].kind);
		w.base = (int)(strrchr(ent[i].path, '/') + 1 - ent[i].path);
		if ((r = f(ent[i].path, &sb, types[ent[i].kind], &w)) != 0)
			return r;
	}
	return 0;
}
/* The library's include function: a file (or the parser's own error). */
int STUB(cfg_include)(cfg_t *c, cfg_opt_t *o, int n, const char **v)
{
	(void)o;
	if (n != 1)
		return 1;
	return parse_file(c, v[0]) != CFG_SUCCESS;
}
/* One directive with string arguments, read as the library's scanner does. */
static int directive(cfg_t *c, const char *s)
{
	const char *args[4];
	char name[32], *a;
	int n = 0, k = 0, r, i;

	while (*s == ' ' || *s == '\t' || *s == '\n')
		s++;
	while ((*s >= 'a' && *s <= 'z') || *s == '_') {
		vp_harness(k < 31, "names of settings are short");
		name[k++] = *s++;
	}
	name[k] = '\0';
	while (*s == ' ')
		s++;
	if (*s++ != '(')
		return CFG_PARSE_ERROR;
	while (*s == ' ')
		s++;
	while (*s != ')') {
		char q = *s++;

		if (q != '\'' && q != '"')
			return CFG_PARSE_ERROR;
		vp_harness(n < 4, "few arguments");
		args[n++] = a = malloc(strlen(s) + 1);
		for (; *s != q; s++) {
			if (*s == '\0')
				return CFG_PARSE_ERROR;         /* unterminated */
			if (*s == '\\' && s[1] == '\n') {
				s++;
				continue;
			}
			if (*s == '\\' && q == '\'' && (s[1] == '\\' || s[1] == '\''))
				s++;
			else if (*s == '\\' && q == '"') {
				s++;
				vp_harness(*s == '\\' || *s == '"' || *s == '$', "a known escape sequence");
			} else if (*s == '$' && s[1] == '{' && q == '"')
				vp_harness(0, "a variable");
			*a++ = *s;
		}
		*a = '\0';
		s++;
		while (*s == ' ')
			s++;
		if (*s == ',')
			for (s++; *s == ' '; s++)
				;
		else if (*s != ')')
			return CFG_PARSE_ERROR;
	}
	for (s++; *s == ' ' || *s == '\n'; s++)
		;
	if (*s != '\0')
		return CFG_PARSE_ERROR;
	{
		cfg_opt_t *o = STUB(cfg_getopt)(c, name);

		vp_check(o != NULL && o->type == CFGT_FUNC, "there is such a directive");
		r = o->func(c, o, n, args);
	}
	for (i = 0; i < n; i++)
		free((char *)args[i]);
	return r == 0 ? CFG_SUCCESS : CFG_PARSE_ERROR;
}
int STUB(cfg_parse_buf)(cfg_t *c, const char *b) { return directive(c, b); }

static int suffix(const char *n)
{
	size_t l = strlen(n);

	return (l >= 4 && memcmp(n + l - 4, ".cfg", 4) == 0) || (l >= 5 && memcmp(n + l - 5, ".conf", 5) == 0);
}
static void expect_top(void)
{
	int i;

	if (top_kind == REGULAR)
		expect(top);
	else if (top_kind == DIRECTORY) {
		for (i = 0; i < nent; i++)
			if (walk_fails == i + 1) {
				refuse = true;
				return;
			} else if (ent[i].kind == REGULAR && suffix(strrchr(ent[i].path, '/') + 1)) {
				expect(ent[i].path);
				if (nested && strcmp(ent[i].path, "/d/x.cfg") == 0)
					expect("/e/z.conf");
				vp_reach("included from a directory");
			} else
				vp_reach("not included");
	} else
		refuse = true;
}
static const char *given;
static int h_parse(cfg_t *cfg, const char *file)
{
	static const char *const none[] = { "/d", "/e" };
	cfg_opt_t *o = STUB(cfg_getopt)(cfg, "include");
	const char *arg[] = { "/d" };
	int n;

	vp_check(o != NULL && o->type == CFGT_FUNC, "there is an include directive");
	vp_check(strcmp(file, given) == 0, "the configuration file is parsed");
	if (strcmp(file, "/c") != 0)
		return parse_file(cfg, file);
	n = (int)vp_concrete(vp_upto(3));
	if (n == 3)
		return parse_file(cfg, file); /* no directive */
	ntodo = 0;
	if (n == 1)
		expect_top();
	else
		refuse = true;
	if (o->func(cfg, o, n, n == 2 ? (const char **)none : (const char **)arg) != 0) {
		vp_check(refuse, "a proper include directive is accepted");
		return CFG_PARSE_ERROR;
	}
	vp_check(!refuse || failed, "an erroneous include directive is refused");
	if (!section) {
		section = 1;
		mc_set(mc_section(cfg, "authorize", "a"), "password", "x");
	}
	return CFG_SUCCESS;
}
static bool nothing;            /* nothing to be parsed in the directory */
static void at_exit(int c)
{
	vp_check(c == EXIT_FAILURE, "refusing a configuration is a failure");
	vp_check(refuse || nothing, "only an erroneous configuration is refused");
	vp_check(failed || done == ntodo, "everything before the error was parsed");
	vp_reach("refused");
}
void vp_main(void)
{
	int i, j;

	given = vp_bool() ? "/c" : "/d";

	top_kind = (int)vp_concrete(vp_range(-1, 2));
	if (top_kind == DIRECTORY) {
		nent = (int)vp_concrete(vp_upto(ENTRIES));
		nested = vp_concrete(vp_bool());
		walk_fails = (int)vp_concrete(vp_upto(nent));
	}
	for (i = 0; i < nent; i++) {
		if (i == nent - 1) {
			/* Any name, at the top or in a subdirectory. */
#ifdef SIZES
			/* A long one, full of what has to be quoted or not. */
			static const char *const ends[] = { ".cfg", ".conf", ".confi", "cfg" };
			const char *end = ends[vp_concrete(vp_upto(3))];
			size_t len = VP_PICK(8, 62, 63, 64, 125, 126, 127, 128, 200, 252, 253, 254, 255), at;
			char *n = malloc(len + 1), fill = "x'\\"[vp_concrete(vp_upto(2))];

			memset(n, fill, len + 1);
			strcpy(n + len - strlen(end), end);
			at = VP_PICK(0, 3, 31, 60, 100, 127, 199, 251);
			if (at < len)
				n[at] = vp_nz();
#else
			char *n = vp_string(1, NMAX);
#endif

			vp_assume(strchr(n, '/') == NULL);
			strcpy(ent[i].path, vp_bool() ? "/d/s.conf/" : "/d/");
			strcat(ent[i].path, n);
			free(n);
		} else {
			static const char *const names[] = { "/d/x.cfg", "/d/s.conf" };

			strcpy(ent[i].path, names[vp_concrete(vp_upto(1))]);
		}
		for (j = 0; j < i; j++)
			vp_assume(strcmp(ent[i].path, ent[j].path) != 0);
		ent[i].kind = (int)vp_concrete(vp_upto(4));
	}
	if (strcmp(given, "/c") == 0)
		expect("/c");
	else if (top_kind == OTHER)
		expect(given); /* (a pipe with the configuration) */
	else {
		expect_top();
		nothing = ntodo == 0;
	}
	mc_root = conf_parse(given);
	vp_check(!refuse, "an erroneous configuration is refused");
	vp_check(done == ntodo, "every file in question was parsed");
	vp_reach("accepted");
}
#endif
