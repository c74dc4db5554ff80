/*
 * vp.h -- the interface between the harnesses and the two worlds they run in:
 *
 *  - the solver world (VP_SYM): inputs are symbolic, vp_check() is an assertion
 *    that must hold for all of them;
 *  - the native replay world: inputs are read from a file (the solver's
 *    counterexample), the same harness and the same stubs run on the real
 *    compiled code under ASan/UBSan, vp_check() aborts.
 *
 * STUB(f) names the stand-in for the environment function f.  In the solver
 * world it simply is f; natively it is called vpstub_f and the objects of the
 * code under test are rewritten (objcopy) to call it.
 */
#ifndef VP_H
#define VP_H

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#ifdef VP_SYM /* the symbolic executor */

unsigned char vp_sym_u8(void);
unsigned int vp_sym_u32(void);
unsigned long vp_sym_u64(void);
unsigned long vp_sym_range(unsigned long max);
unsigned char vp_sym_nz(void);
void vp_sym_check(int ok, const char *msg);
void vp_sym_assume(int ok);
void vp_sym_reach(const char *tag);
void vp_sym_stop(void) __attribute__((__noreturn__));
unsigned long vp_sym_concrete(unsigned long v);
int vp_sym_valid(const void *p, unsigned long n);
int vp_sym_spawn(void (*f)(void));
void vp_sym_switch(int context);
int vp_sym_done(int context);

static inline unsigned char vp_u8(void) { return vp_sym_u8(); }
static inline unsigned int vp_u32(void) { return vp_sym_u32(); }
static inline unsigned long vp_u64(void) { return vp_sym_u64(); }
static inline bool vp_bool(void) { return vp_sym_range(1) != 0; }
/* A byte that is not zero. */
static inline unsigned char vp_nz(void) { return vp_sym_nz(); }
static inline unsigned long vp_upto(unsigned long n) { return vp_sym_range(n); }
# define vp_check(c, msg) vp_sym_check(!!(c), msg)
/* Limits of the harness itself; a model compared with the real library (natively only). */
# define vp_harness(c, msg) do { if (!(c)) vp_sym_check(0, "(harness) " msg); } while (0)
# define vp_model(c, msg) ((void)0)
# define vp_assume(c) vp_sym_assume(!!(c))
# define vp_reach(tag) vp_sym_reach(tag)
# define vp_stop() vp_sym_stop()
# define vp_concrete(v) vp_sym_concrete(v)
# define STUB(f) f
# define vp_trace(...) ((void)0)
/* Further contexts (threads) besides the first one, which is number 0. */
# define vp_spawn(f) vp_sym_spawn(f)
# define vp_switch(c) vp_sym_switch(c)
# define vp_done(c) vp_sym_done(c)

#else /* native replay */

unsigned long vp_native_next(const char *kind);
void vp_native_check(int ok, const char *msg, const char *file, int line);
void vp_native_assume(int ok, const char *file, int line);
void vp_native_stop(void) __attribute__((__noreturn__));
void vp_native_trace(const char *fmt, ...);
void vp_native_reach(const char *tag);
int vp_native_spawn(void (*f)(void));
void vp_native_switch(int context);
int vp_native_done(int context);

static inline unsigned char vp_u8(void)
{ return (unsigned char)vp_native_next("u8"); }
static inline unsigned int vp_u32(void)
{ return (unsigned int)vp_native_next("u32"); }
static inline unsigned long vp_u64(void)
{ return vp_native_next("u64"); }
static inline bool vp_bool(void)
{ return vp_native_next("bool") != 0; }

static inline unsigned char vp_nz(void)
{
	unsigned long v = vp_native_next("nz");
	vp_native_assume(v != 0, __FILE__, __LINE__);
	return (unsigned char)v;
}
static inline unsigned long vp_upto(unsigned long n)
{
	unsigned long v = vp_native_next("upto");
	vp_native_assume(v <= n, __FILE__, __LINE__);
	return v;
}
# define vp_concrete(v) (v)
# define vp_check(c, msg) vp_native_check(!!(c), msg, __FILE__, __LINE__)
# define vp_harness(c, msg) vp_native_check(!!(c), "(harness) " msg, __FILE__, __LINE__)
# define vp_model(c, msg) vp_native_check(!!(c), "(harness) model: " msg, __FILE__, __LINE__)
# define vp_assume(c) vp_native_assume(!!(c), __FILE__, __LINE__)
# define vp_reach(tag) vp_native_reach(tag)
# define vp_stop() vp_native_stop()
# define STUB(f) vpstub_##f
# define vp_trace(...) vp_native_trace(__VA_ARGS__)
# define vp_spawn(f) vp_native_spawn(f)
# define vp_switch(c) vp_native_switch(c)
# define vp_done(c) vp_native_done(c)

#endif

/* An int in [lo, hi]. */
static inline int vp_range(int lo, int hi) { return lo + (int)vp_upto((unsigned long)(hi - lo)); }
/* A size in [lo, hi]. */
static inline size_t vp_size(size_t lo, size_t hi) { return lo + vp_upto(hi - lo); }

/* n arbitrary bytes */
#define VP_BYTES(buf, n) do {                                           \
	size_t vp_i_;                                                   \
	for (vp_i_ = 0; vp_i_ < (size_t)(n); vp_i_++)                   \
		(buf)[vp_i_] = (char)vp_u8();                           \
} while (0)

/* An arbitrary string of lo to hi bytes, in a block of exactly its size. */
void *malloc(size_t);
static inline char *vp_string(size_t lo, size_t hi)
{
	size_t i, n = vp_concrete(vp_size(lo, hi));
	char *s = malloc(n + 1);

	for (i = 0; i < n; i++)
		s[i] = (char)vp_nz();
	s[n] = '\0';
	return s;
}


/* One of the given sizes. */
#define VP_PICK(...) vp_pick((const size_t[]){ __VA_ARGS__ }, sizeof((const size_t[]){ __VA_ARGS__ }) / sizeof(size_t))
static inline size_t vp_pick(const size_t *list, size_t n) { return list[vp_concrete(vp_upto(n - 1))]; }

/* A string of n bytes in a block of exactly its size: any first and last one, and a pattern between. */
static inline char *vp_filled(size_t n)
{
	size_t i;
	char *s = malloc(n + 1);

	for (i = 0; i < n; i++)
		s[i] = i == 0 || i == n - 1 ? (char)vp_nz() : (char)('A' + i % 59);
	s[n] = '\0';
	return s;
}

void vp_main(void);

#endif
