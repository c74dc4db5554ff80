/*
 * Stand-in for the part of libConfuse the server uses after parsing: a fixed
 * set of authorize sections whose patterns and passwords the harness chooses.
 * Compiled patterns are opaque; whether one matches is decided by regexec().
 */
#ifndef H_CONFUSE_H
#define H_CONFUSE_H
#include <confuse.h>
#include <regex.h>
#include <string.h>
#include <stdlib.h>

#define H_NPAT 2
struct h_sect;
struct h_pat { struct h_sect *owner; int decided, result; };
struct h_opt { const char *name; unsigned n; struct h_pat *pat[H_NPAT]; struct h_pat store[H_NPAT]; };
struct h_sect { const char *title; char *password; struct h_opt opt[3]; };
static const char *const h_names[3] = { "hosts", "services", "commands" };

static void h_sect_init(struct h_sect *s, const char *title)
{
	int i, j;

	s->title = title;
	s->password = NULL;
	for (i = 0; i < 3; i++) {
		s->opt[i].name = h_names[i];
		s->opt[i].n = 0;
		for (j = 0; j < H_NPAT; j++) {
			s->opt[i].store[j].owner = s;
			s->opt[i].store[j].decided = 0;
			s->opt[i].store[j].result = 0;
			s->opt[i].pat[j] = &s->opt[i].store[j];
		}
	}
}

cfg_opt_t *STUB(cfg_getopt)(cfg_t *cfg, const char *name)
{
	struct h_sect *s = (struct h_sect *)cfg;
	int i;

	for (i = 0; i < 3; i++)
		if (strcmp(name, h_names[i]) == 0)
			return (cfg_opt_t *)&s->opt[i];
	vp_check(0, "only existing settings are looked up");
	return NULL;
}
unsigned int STUB(cfg_opt_size)(cfg_opt_t *opt) { return opt == NULL ? 0 : ((struct h_opt *)opt)->n; }
void *STUB(cfg_opt_getnptr)(cfg_opt_t *opt, unsigned int i)
{
	struct h_opt *o = (struct h_opt *)opt;

	vp_check(i < o->n, "pattern index within the list");
	return o->pat[i];
}
unsigned int STUB(cfg_size)(cfg_t *cfg, const char *name) { return STUB(cfg_opt_size)(STUB(cfg_getopt)(cfg, name)); }
void *STUB(cfg_getnptr)(cfg_t *cfg, const char *name, unsigned int i)
{
	return STUB(cfg_opt_getnptr)(STUB(cfg_getopt)(cfg, name), i);
}
void *STUB(cfg_getptr)(cfg_t *cfg, const char *name) { return STUB(cfg_getnptr)(cfg, name, 0); }
char *STUB(cfg_getstr)(cfg_t *cfg, const char *name)
{
	vp_check(strcmp(name, "password") == 0, "the only string setting is the password");
	return ((struct h_sect *)cfg)->password;
}
const char *STUB(cfg_title)(cfg_t *cfg) { return ((struct h_sect *)cfg)->title; }
#endif
