/*
 * A small libConfuse: the option tables are those of the code under test, the
 * "file" is whatever the harness's h_parse() sets with mc_set()/mc_section().
 * Follows the library's documented behaviour: lists append, scalars replace,
 * defaults count as one value unless CFGF_NODEFAULT, value callbacks and
 * validation callbacks can fail the parse.
 */
#ifndef MINI_CONFUSE_H
#define MINI_CONFUSE_H
#include <confuse.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>

#ifndef MC_VALS
# define MC_VALS 6
#endif
static unsigned mc_errors;
static cfg_t *mc_root;
static int h_parse(cfg_t *cfg, const char *file);

static cfg_opt_t *mc_opts(cfg_opt_t *opts)
{
	size_t i, n;
	cfg_opt_t *o;

	for (n = 0; opts[n].name != NULL; n++)
		;
	o = malloc((n + 1) * sizeof(*o));
	for (i = 0; i <= n; i++) {
		o[i] = opts[i];
		o[i].nvalues = 0;
		o[i].values = NULL;
		if (opts[i].name == NULL)
			break;
		if (o[i].type == CFGT_SEC)
			o[i].subopts = mc_opts(opts[i].subopts);
		o[i].values = malloc(MC_VALS * sizeof(cfg_value_t *));
		if (o[i].type == CFGT_SEC || o[i].type == CFGT_FUNC || (o[i].flags & (CFGF_NODEFAULT | CFGF_LIST)))
			continue;
		o[i].values[0] = malloc(sizeof(cfg_value_t));
		o[i].nvalues = 1;
		o[i].flags |= CFGF_RESET;
		if (o[i].type == CFGT_INT)
			o[i].values[0]->number = o[i].def.number;
		else if (o[i].type == CFGT_FLOAT)
			o[i].values[0]->fpnumber = o[i].def.fpnumber;
		else if (o[i].type == CFGT_STR)
			o[i].values[0]->string = o[i].def.string != NULL ? strdup(o[i].def.string) : NULL;
		else
			o[i].values[0]->ptr = NULL;
	}
	return o;
}
cfg_t *STUB(cfg_init)(cfg_opt_t *opts, cfg_flag_t flags)
{
	cfg_t *c = malloc(sizeof(*c));

	memset(c, 0, sizeof(*c));
	c->flags = flags;
	c->name = "root";
	c->opts = mc_opts(opts);
	mc_root = c;
	return c;
}
static void mc_free_opts(cfg_opt_t *o, int top)
{
	size_t i;
	unsigned j;

	for (i = 0; o[i].name != NULL; i++) {
		for (j = 0; j < o[i].nvalues; j++) {
			if (o[i].type == CFGT_STR)
				free(o[i].values[j]->string);
			else if (o[i].type == CFGT_SEC) {
				cfg_t *s = o[i].values[j]->section;

				mc_free_opts(s->opts, 0);
				free(s->title);
				free(s);
			} else if (o[i].type == CFGT_PTR && o[i].freecb != NULL && o[i].values[j]->ptr != NULL)
				o[i].freecb(o[i].values[j]->ptr);
			free(o[i].values[j]);
		}
		free(o[i].values);
		if (o[i].type == CFGT_SEC)
			mc_free_opts(o[i].subopts, 0);
	}
	free(o);
	(void)top;
}
static void (*mc_before_free)(void);
int STUB(cfg_free)(cfg_t *c)
{
	if (mc_before_free != NULL)
		mc_before_free();
	mc_free_opts(c->opts, 1);
	free(c);
	return CFG_SUCCESS;
}
cfg_opt_t *STUB(cfg_getopt)(cfg_t *c, const char *name)
{
	size_t i;

	for (i = 0; c->opts[i].name != NULL; i++)
		if (strcmp(c->opts[i].name, name) == 0)
			return &c->opts[i];
	return NULL;
}
unsigned int STUB(cfg_opt_size)(cfg_opt_t *o) { return o != NULL ? o->nvalues : 0; }
unsigned int STUB(cfg_size)(cfg_t *c, const char *name) { return STUB(cfg_opt_size)(STUB(cfg_getopt)(c, name)); }
static cfg_value_t *mc_val(cfg_opt_t *o, unsigned i)
{
	vp_check(o != NULL, "only existing settings are looked up");
	return i < o->nvalues ? o->values[i] : NULL;
}
long int STUB(cfg_opt_getnint)(cfg_opt_t *o, unsigned int i) { cfg_value_t *v = mc_val(o, i); return v ? v->number : o->def.number; }
double STUB(cfg_opt_getnfloat)(cfg_opt_t *o, unsigned int i) { cfg_value_t *v = mc_val(o, i); return v ? v->fpnumber : o->def.fpnumber; }
char *STUB(cfg_opt_getnstr)(cfg_opt_t *o, unsigned int i) { cfg_value_t *v = mc_val(o, i); return v ? v->string : NULL; }
const char *STUB(cfg_opt_getstr)(cfg_opt_t *o) { return STUB(cfg_opt_getnstr)(o, 0); }
void *STUB(cfg_opt_getnptr)(cfg_opt_t *o, unsigned int i) { cfg_value_t *v = mc_val(o, i); return v ? v->ptr : NULL; }
cfg_t *STUB(cfg_opt_getnsec)(cfg_opt_t *o, unsigned int i) { cfg_value_t *v = mc_val(o, i); return v ? v->section : NULL; }
long int STUB(cfg_getint)(cfg_t *c, const char *n) { return STUB(cfg_opt_getnint)(STUB(cfg_getopt)(c, n), 0); }
double STUB(cfg_getfloat)(cfg_t *c, const char *n) { return STUB(cfg_opt_getnfloat)(STUB(cfg_getopt)(c, n), 0); }
char *STUB(cfg_getstr)(cfg_t *c, const char *n) { return STUB(cfg_opt_getnstr)(STUB(cfg_getopt)(c, n), 0); }
char *STUB(cfg_getnstr)(cfg_t *c, const char *n, unsigned int i) { return STUB(cfg_opt_getnstr)(STUB(cfg_getopt)(c, n), i); }
void *STUB(cfg_getnptr)(cfg_t *c, const char *n, unsigned int i) { return STUB(cfg_opt_getnptr)(STUB(cfg_getopt)(c, n), i); }
cfg_t *STUB(cfg_getnsec)(cfg_t *c, const char *n, unsigned int i) { return STUB(cfg_opt_getnsec)(STUB(cfg_getopt)(c, n), i); }
const char *STUB(cfg_title)(cfg_t *c) { return c != NULL ? c->title : NULL; }
const char *STUB(cfg_opt_name)(cfg_opt_t *o) { return o != NULL ? o->name : NULL; }

/* The library's cfg_setopt(): parse a value text into an option. */
static cfg_value_t *mc_setopt(cfg_t *c, cfg_opt_t *o, const char *value)
{
	cfg_value_t *v;
	union { char *s; void *p; long n; double d; } r;

	if (o->nvalues == 0 || (o->flags & CFGF_LIST)) {
		vp_harness(o->nvalues < MC_VALS, "number of values within the stand-in's space");
		v = malloc(sizeof(*v));
		memset(v, 0, sizeof(*v));
		o->values[o->nvalues++] = v;
	} else
		v = o->values[0];
	o->flags &= ~CFGF_RESET;
	switch (o->type) {
	case CFGT_STR:
		if (o->parsecb != NULL) {
			r.s = NULL;
			if (o->parsecb(c, o, value, &r.s) != 0)
				return NULL;
		} else
			r.s = (char *)value;
		value = r.s != NULL ? strdup(r.s) : NULL;
		free(v->string);
		v->string = (char *)value;
		break;
	case CFGT_PTR:
		vp_check(o->parsecb != NULL, "a pointer setting has a value callback");
		r.p = NULL;
		if (o->parsecb(c, o, value, &r.p) != 0)
			return NULL;
		v->ptr = r.p;
		break;
	default:
		vp_harness(0, "unexpected option type");
	}
	return v;
}
cfg_value_t *STUB(cfg_setopt)(cfg_t *c, cfg_opt_t *o, const char *value) { return mc_setopt(c, o, value); }
int STUB(cfg_opt_setnstr)(cfg_opt_t *o, const char *value, unsigned int i)
{
	char *n;

	vp_check(o != NULL && i <= o->nvalues && i < MC_VALS, "an existing setting is set");
	n = value != NULL ? strdup(value) : NULL;
	if (i == o->nvalues) {
		o->values[i] = malloc(sizeof(cfg_value_t));
		o->values[i]->string = NULL;
		o->nvalues++;
	}
	free(o->values[i]->string);
	o->values[i]->string = n;
	return CFG_SUCCESS;
}
int STUB(cfg_setstr)(cfg_t *c, const char *name, const char *value) { return STUB(cfg_opt_setnstr)(STUB(cfg_getopt)(c, name), value, 0); }
int STUB(cfg_setnstr)(cfg_t *c, const char *name, const char *value, unsigned int i) { return STUB(cfg_opt_setnstr)(STUB(cfg_getopt)(c, name), value, i); }
int STUB(cfg_addlist)(cfg_t *c, const char *name, unsigned int n, ...)
{
	va_list ap;

	va_start(ap, n);
	while (n-- > 0)
		if (mc_setopt(c, STUB(cfg_getopt)(c, name), va_arg(ap, const char *)) == NULL) {
			va_end(ap);
			return CFG_FAIL;
		}
	va_end(ap);
	return CFG_SUCCESS;
}
static int mc_setnum(cfg_t *c, const char *name, long n, double d)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, name);

	vp_check(o != NULL && o->nvalues == 1, "an existing setting is set");
	if (o->type == CFGT_FLOAT)
		o->values[0]->fpnumber = d;
	else
		o->values[0]->number = n;
	o->flags &= ~CFGF_RESET;
	return CFG_SUCCESS;
}
int STUB(cfg_setint)(cfg_t *c, const char *name, long int n) { return mc_setnum(c, name, n, 0); }
int STUB(cfg_setfloat)(cfg_t *c, const char *name, double d) { return mc_setnum(c, name, 0, d); }
cfg_validate_callback_t STUB(cfg_set_validate_func)(cfg_t *c, const char *name, cfg_validate_callback_t f)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, name);
	cfg_validate_callback_t old;

	vp_check(o != NULL, "an existing setting is validated");
	old = o->validcb;
	o->validcb = f;
	return old;
}
void STUB(cfg_error)(cfg_t *c, const char *fmt, ...) { (void)c; (void)fmt; mc_errors++; }
int STUB(cfg_parse)(cfg_t *c, const char *file) { return h_parse(c, file); }
char *STUB(cfg_tilde_expand)(const char *s) { return strdup(s); }

/* --- what the "file" says (for h_parse) --------------------------------- */
static int mc_set(cfg_t *c, const char *name, const char *value)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, name);

	vp_check(o != NULL, "a documented setting exists");
	if (mc_setopt(c, o, value) == NULL)
		return CFG_PARSE_ERROR;
	if (o->validcb != NULL && o->validcb(c, o) != 0)
		return CFG_PARSE_ERROR;
	return CFG_SUCCESS;
}
static int mc_set_num(cfg_t *c, const char *name, long n, double d)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, name);

	mc_setnum(c, name, n, d);
	if (o->validcb != NULL && o->validcb(c, o) != 0)
		return CFG_PARSE_ERROR;
	return CFG_SUCCESS;
}
static cfg_t *mc_section(cfg_t *c, const char *name, const char *title)
{
	cfg_opt_t *o = STUB(cfg_getopt)(c, name);
	cfg_t *s = malloc(sizeof(*s));

	vp_check(o != NULL && o->type == CFGT_SEC && (o->flags & CFGF_MULTI) && (o->flags & CFGF_TITLE), "a titled section that may be repeated");
	vp_harness(o->nvalues < MC_VALS, "number of sections within the stand-in's space");
	memset(s, 0, sizeof(*s));
	s->name = (char *)name;
	s->title = strdup(title);
	s->opts = mc_opts(o->subopts);
	o->values[o->nvalues] = malloc(sizeof(cfg_value_t));
	o->values[o->nvalues++]->section = s;
	return s;
}
#endif
