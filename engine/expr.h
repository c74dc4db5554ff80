// Expressions over the symbolic inputs: hash-consed, with exact value tables
// for everything that depends on one small (<= 8 bit) input only.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <memory>
#include <algorithm>
#include <type_traits>
#include <z3.h>

enum Opc : uint8_t {
	E_VAR, E_TABLE, E_CONST,
	E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
	E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE,
	E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FOEQ, E_FOLT, E_FOLE, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FUNO,
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w)
{
	if (w >= 64) return (int64_t)v;
	uint64_t m = 1ull << (w - 1);
	return (int64_t)((v ^ m) - m);
}
static inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t dbits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

struct Dom { // domain of a small variable
	uint64_t w[4];
	bool has(unsigned x) const { return w[x >> 6] >> (x & 63) & 1; }
	void set(unsigned x) { w[x >> 6] |= 1ull << (x & 63); }
	bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
	int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
	int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
	bool operator==(const Dom &o) const { return !memcmp(w, o.w, sizeof w); }
	static Dom none() { Dom d; memset(&d, 0, sizeof d); return d; }
	static Dom upto(unsigned n) { Dom d = none(); for (unsigned i = 0; i <= n; i++) d.set(i); return d; }
};

struct Expr;
struct V { // a value: concrete, or an expression
	uint64_t c; const Expr *e;
	V() : c(0), e(nullptr) {}
	template<class T, class = std::enable_if_t<std::is_integral<T>::value>> V(T x) : c((uint64_t)x), e(nullptr) {}
	V(const Expr *x) : c(0), e(x) {}
	bool conc() const { return !e; }
};

struct Expr {
	Opc op; uint8_t w; bool uninit;
	uint32_t id;
	uint32_t var;            // E_VAR, E_TABLE
	const Expr *k[3];
	uint64_t val;            // E_CONST; E_EXTRACT: low bit
	Dom dom;                 // E_VAR (small), E_TABLE: initial domain of the variable
	const uint64_t *tab;     // E_TABLE, small E_VAR
	uint8_t vw;              // width of the variable (E_TABLE)
	std::vector<uint32_t> sup; // sorted variables it depends on
	mutable Z3_ast z;
	mutable uint64_t memo; mutable uint64_t epoch;
	bool small() const { return tab != nullptr; }
	size_t hash;
};

extern Z3_context Z;
struct EHash { size_t operator()(const Expr *e) const { return e->hash; } };
struct EEq { bool operator()(const Expr *a, const Expr *b) const; };

struct Builder {
	std::unordered_set<const Expr *, EHash, EEq> pool;
	uint32_t next = 1;
	uint64_t epoch = 1;
	const Expr *intern(Expr &e);
	const Expr *var(uint32_t id, unsigned w, const Dom *dom, bool uninit);
	const Expr *constant(uint64_t v, unsigned w);
	V table(uint32_t var, unsigned vw, const Dom &dom, unsigned w, const uint64_t *t, bool uninit);
	V bin(Opc op, V a, V b, unsigned w);        // w: operand width
	V cast(Opc op, V a, unsigned from, unsigned to);
	V extract(V a, unsigned from, unsigned lo, unsigned w);
	V concat(V hi, unsigned wh, V lo, unsigned wl);
	V ite(V c, V a, V b, unsigned w);
	V lnot(V a) { return bin(E_XOR, a, V(1), 1); }
	const Expr *lift(V v, unsigned w) { return v.e ? v.e : constant(v.c & maskw(w), w); }
	uint64_t eval(const Expr *e, const std::vector<uint64_t> &m);
	uint64_t eval_(const Expr *e, const std::vector<uint64_t> &m);
	Z3_ast z3(const Expr *e);
	Z3_ast z3var(uint32_t id, unsigned w);
	Z3_ast z3table(const Expr *e);
	Z3_ast domain(uint32_t id, unsigned w, const Dom &d);
};
extern Builder B;
uint64_t evop(Opc op, unsigned w, uint64_t a, uint64_t b);
