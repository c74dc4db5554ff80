#include "expr.h"

Z3_context Z;
Builder B;

bool EEq::operator()(const Expr *a, const Expr *b) const
{
	if (a->hash != b->hash || a->op != b->op || a->w != b->w || a->var != b->var || a->val != b->val ||
	    a->k[0] != b->k[0] || a->k[1] != b->k[1] || a->k[2] != b->k[2] || a->uninit != b->uninit)
		return false;
	if (a->op == E_VAR)
		return a->vw == b->vw && a->small() == b->small() && (!a->small() || a->dom == b->dom);
	if (a->op == E_TABLE)
		return a->vw == b->vw && a->dom == b->dom && !memcmp(a->tab, b->tab, 8u << a->vw);
	return true;
}

static size_t mix(size_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	return h * 0xff51afd7ed558ccdull;
}

const Expr *Builder::intern(Expr &e)
{
	size_t h = mix(mix(e.op, e.w), e.var);
	h = mix(h, e.val);
	for (auto k : e.k)
		h = mix(h, k ? k->id : 0);
	if (e.op == E_TABLE) {
		for (unsigned i = 0; i < (1u << e.vw); i++)
			h = mix(h, e.tab[i]);
	}
	if (e.op == E_TABLE || (e.op == E_VAR && e.tab))
		for (auto x : e.dom.w)
			h = mix(h, x);
	e.hash = h;
	auto it = pool.find(&e);
	if (it != pool.end())
		return *it;
	Expr *n = new Expr(e);
	n->id = next++;
	n->z = nullptr;
	n->epoch = 0;
	if (e.op == E_TABLE) {
		uint64_t *t = new uint64_t[1u << e.vw];
		memcpy(t, e.tab, 8u << e.vw);
		n->tab = t;
	}
	if (e.op == E_VAR || e.op == E_TABLE)
		n->sup = {e.var};
	else {
		for (auto k : e.k)
			if (k) {
				std::vector<uint32_t> r;
				std::set_union(n->sup.begin(), n->sup.end(), k->sup.begin(), k->sup.end(), std::back_inserter(r));
				n->sup.swap(r);
				n->uninit |= k->uninit;
			}
	}
	pool.insert(n);
	return n;
}

static Expr blank(Opc op, unsigned w)
{
	Expr e;
	e.op = op; e.w = (uint8_t)w; e.uninit = false; e.id = 0; e.var = 0; e.val = 0; e.tab = nullptr; e.vw = 0;
	e.k[0] = e.k[1] = e.k[2] = nullptr; e.z = nullptr; e.memo = 0; e.epoch = 0; e.hash = 0;
	memset(&e.dom, 0, sizeof e.dom);
	return e;
}

static uint64_t identity[256];

const Expr *Builder::var(uint32_t id, unsigned w, const Dom *dom, bool uninit)
{
	if (!identity[1])
		for (unsigned i = 0; i < 256; i++) identity[i] = i;
	Expr e = blank(E_VAR, w);
	e.var = id; e.vw = (uint8_t)w; e.uninit = uninit;
	if (dom) { e.dom = *dom; e.tab = identity; }
	return intern(e);
}

const Expr *Builder::constant(uint64_t v, unsigned w)
{
	Expr e = blank(E_CONST, w);
	e.val = v & maskw(w);
	return intern(e);
}

V Builder::table(uint32_t var, unsigned vw, const Dom &dom, unsigned w, const uint64_t *t, bool uninit)
{
	uint64_t tmp[256];
	int f = dom.first();
	bool same = true, ident = w == vw;
	for (unsigned i = 0; i < (1u << vw); i++) {
		if (!dom.has(i)) { tmp[i] = t[f] & maskw(w); continue; }
		tmp[i] = t[i] & maskw(w);
		if (tmp[i] != (t[f] & maskw(w))) same = false;
		if (tmp[i] != i) ident = false;
	}
	if (same)
		return V(tmp[f]);
	if (ident)
		return V(this->var(var, vw, &dom, uninit));
	Expr e = blank(E_TABLE, w);
	e.var = var; e.vw = (uint8_t)vw; e.dom = dom; e.tab = tmp; e.uninit = uninit;
	return V(intern(e));
}

uint64_t evop(Opc op, unsigned w, uint64_t a, uint64_t b)
{
	uint64_t m = maskw(w);
	switch (op) {
	case E_ADD: return (a + b) & m;
	case E_SUB: return (a - b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: return b ? (a / b) & m : m;
	case E_UREM: return b ? (a % b) & m : a;
	case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); return y == 0 ? (x < 0 ? 1 : m) : y == -1 ? (0 - a) & m : (uint64_t)(x / y) & m; }
	case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); return y == 0 ? a : y == -1 ? 0 : (uint64_t)(x % y) & m; }
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_SHL: return b >= w ? 0 : (a << b) & m;
	case E_LSHR: return b >= w ? 0 : a >> b;
	case E_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (uint64_t)(sx(a, w) >> b) & m;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, w) < sx(b, w);
	case E_SLE: return sx(a, w) <= sx(b, w);
	case E_FADD: return dbits(asd(a) + asd(b));
	case E_FSUB: return dbits(asd(a) - asd(b));
	case E_FMUL: return dbits(asd(a) * asd(b));
	case E_FDIV: return dbits(asd(a) / asd(b));
	case E_FOEQ: return asd(a) == asd(b);
	case E_FOLT: return asd(a) < asd(b);
	case E_FOLE: return asd(a) <= asd(b);
	case E_FUNO: return std::isnan(asd(a)) || std::isnan(asd(b));
	default: fprintf(stderr, "evop %d\n", op); abort();
	}
}

static bool iscmp(Opc op) { return (op >= E_EQ && op <= E_SLE) || (op >= E_FOEQ && op <= E_FOLE) || op == E_FUNO; }

// Floating-point arithmetic on integers far below 2^53 is exact: it is done
// on the integers instead.
static const int64_t FLIM = 1ll << 50;
static bool ibound(const Expr *e, int64_t &lo, int64_t &hi, int depth = 0)
{
	int64_t l1, h1;
	if (depth > 40) return false;
	if (e->op == E_CONST) lo = hi = sx(e->val, e->w);
	else if (e->small()) {
		bool first = true;
		for (unsigned i = 0; i < (1u << e->vw); i++) {
			if (!e->dom.has(i)) continue;
			int64_t v = sx(e->tab[i], e->w);
			if (first || v < lo) lo = v;
			if (first || v > hi) hi = v;
			first = false;
		}
		if (first) return false;
	} else switch (e->op) {
	case E_ZEXT:
		if (e->k[0]->w > 48) return false;
		lo = 0; hi = (int64_t)maskw(e->k[0]->w);
		break;
	case E_ADD:
		if (e->w < 64 || !ibound(e->k[0], lo, hi, depth + 1) || !ibound(e->k[1], l1, h1, depth + 1)) return false;
		lo += l1; hi += h1;
		break;
	case E_SUB:
		if (e->w < 64 || !ibound(e->k[0], lo, hi, depth + 1) || !ibound(e->k[1], l1, h1, depth + 1)) return false;
		lo -= h1; hi -= l1;
		break;
	case E_ITE:
		if (!ibound(e->k[1], lo, hi, depth + 1) || !ibound(e->k[2], l1, h1, depth + 1)) return false;
		lo = std::min(lo, l1); hi = std::max(hi, h1);
		break;
	default: return false;
	}
	return lo > -FLIM && hi < FLIM;
}
static bool integral(uint64_t bits, int64_t &v)
{
	double d = asd(bits);
	if (!(d > -(double)FLIM && d < (double)FLIM) || d != (double)(int64_t)d || (d == 0 && std::signbit(d))) return false;
	v = (int64_t)d;
	return true;
}
// the integer whose conversion to double a is
static bool asInt(V a, V &r)
{
	int64_t v, lo, hi;
	if (a.conc()) {
		if (!integral(a.c, v)) return false;
		r = V((uint64_t)v);
		return true;
	}
	if (a.e->small()) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << a.e->vw); i++) {
			t[i] = 0;
			if (!a.e->dom.has(i)) continue;
			if (!integral(a.e->tab[i], v)) return false;
			t[i] = (uint64_t)v;
		}
		r = B.table(a.e->var, a.e->vw, a.e->dom, 64, t, a.e->uninit);
		return true;
	}
	if (a.e->op == E_SITOFP && a.e->k[0]->w == 64 && ibound(a.e->k[0], lo, hi)) { r = V(a.e->k[0]); return true; }
	if (a.e->op == E_UITOFP && a.e->k[0]->w < 48) { r = B.cast(E_ZEXT, V(a.e->k[0]), a.e->k[0]->w, 64); return true; }
	if (a.e->op == E_UITOFP && a.e->k[0]->w == 64 && ibound(a.e->k[0], lo, hi) && lo >= 0) { r = V(a.e->k[0]); return true; }
	return false;
}
static bool fpInt(Opc op, V a, V b, V &r)
{
	V x, y;
	int64_t lo, hi;
	if (op != E_FADD && op != E_FSUB && op != E_FOEQ && op != E_FOLT && op != E_FOLE && op != E_FUNO) return false;
	if (!asInt(a, x) || !asInt(b, y)) return false;
	switch (op) {
	case E_FUNO: r = V(0); return true;
	case E_FOEQ: r = B.bin(E_EQ, x, y, 64); return true;
	case E_FOLT: r = B.bin(E_SLT, x, y, 64); return true;
	case E_FOLE: r = B.bin(E_SLE, x, y, 64); return true;
	default: break;
	}
	V z = B.bin(op == E_FADD ? E_ADD : E_SUB, x, y, 64);
	if (z.e && !ibound(z.e, lo, hi)) return false;
	if (z.conc() && ((int64_t)z.c <= -FLIM || (int64_t)z.c >= FLIM)) return false;
	r = B.cast(E_SITOFP, z, 64, 64);
	return true;
}

V Builder::bin(Opc op, V a, V b, unsigned w)
{
	unsigned rw = iscmp(op) ? 1 : w;
	if (op >= E_FADD && !(a.conc() && b.conc())) {
		V r;
		if (fpInt(op, a, b, r)) return r;
	}
	if (a.conc() && b.conc())
		return V(evop(op, w, a.c, b.c));
	if (a.e && a.e->op == E_CONST) { a = V(a.e->val); return bin(op, a, b, w); }
	if (b.e && b.e->op == E_CONST) { b = V(b.e->val); return bin(op, a, b, w); }
	const Expr *s = a.e ? a.e : b.e;
	if ((a.conc() || a.e->small()) && (b.conc() || b.e->small()) &&
	    (a.conc() || b.conc() || (a.e->var == b.e->var && a.e->vw == b.e->vw && a.e->dom == b.e->dom))) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << s->vw); i++)
			t[i] = evop(op, w, a.e ? a.e->tab[i] : a.c, b.e ? b.e->tab[i] : b.c);
		return table(s->var, s->vw, s->dom, rw, t, s->uninit);
	}
	if (a.e == b.e && a.e) {
		switch (op) {
		case E_SUB: case E_XOR: return V(0);
		case E_AND: case E_OR: return a;
		case E_EQ: case E_ULE: case E_SLE: return V(1);
		case E_ULT: case E_SLT: return V(0);
		default: break;
		}
	}
	uint64_t m = maskw(w);
	if (b.conc()) {
		switch (op) {
		case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR: if (b.c == 0) return a; break;
		case E_AND: if (b.c == 0) return V(0); if (b.c == m) return a; break;
		case E_MUL: if (b.c == 0) return V(0); if (b.c == 1) return a; break;
		case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: {
			bool div = op == E_UDIV || op == E_SDIV, sgn = op == E_SDIV || op == E_SREM;
			if (b.c == 0) break;
			if (b.c == 1) return div ? a : V(0);
			// narrower, if the upper bits are known to be zero
			if (a.e->op == E_ZEXT && (!sgn || sx(b.c, w) > 0)) {
				unsigned kw = a.e->k[0]->w;
				if (b.c > maskw(kw)) return div ? V(0) : a;
				return cast(E_ZEXT, bin(div ? E_UDIV : E_UREM, V(a.e->k[0]), b, kw), kw, w);
			}
			if (!sgn && (b.c & (b.c - 1)) == 0) {
				unsigned k = (unsigned)__builtin_ctzll(b.c);
				return div ? cast(E_ZEXT, extract(a, w, k, w - k), w - k, w) : cast(E_ZEXT, extract(a, w, 0, k), k, w);
			}
			break;
		}
		case E_ULT: if (b.c == 0) return V(0); break;
		case E_ULE: if (b.c == m) return V(1); break;
		default: break;
		}
		if (op == E_OR && b.c == m) return V(m);
		// (x xor 1) xor 1
		if (op == E_XOR && a.e->op == E_XOR && a.e->k[1]->op == E_CONST)
			return bin(E_XOR, V(a.e->k[0]), V(a.e->k[1]->val ^ b.c), w);
		if (op == E_ADD && a.e->op == E_ADD && a.e->k[1]->op == E_CONST)
			return bin(E_ADD, V(a.e->k[0]), V((a.e->k[1]->val + b.c) & m), w);
		if (op == E_SUB)
			return bin(E_ADD, a, V((0 - b.c) & m), w);
		if (op == E_EQ && w == 1)
			return b.c ? a : lnot(a);
		if (op == E_EQ && a.e->op == E_ADD && a.e->k[1]->op == E_CONST)
			return bin(E_EQ, V(a.e->k[0]), V((b.c - a.e->k[1]->val) & m), w);
		if ((op == E_EQ || op == E_ULT) && a.e->op == E_ZEXT) {
			unsigned kw = a.e->k[0]->w;
			if (b.c > maskw(kw)) return V(op == E_EQ ? 0 : 1);
			return bin(op, V(a.e->k[0]), b, kw);
		}
		if (op == E_EQ && a.e->op == E_ITE && a.e->k[1]->op == E_CONST && a.e->k[2]->op == E_CONST) {
			bool t = a.e->k[1]->val == b.c, f = a.e->k[2]->val == b.c;
			if (t && f) return V(1);
			if (t) return V(a.e->k[0]);
			if (f) return lnot(V(a.e->k[0]));
			return V(0);
		}
	} else if (a.conc()) {
		switch (op) {
		case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ: return bin(op, b, a, w);
		case E_ULE: if (a.c == 0) return V(1); break;
		default: break;
		}
	}
	Expr e = blank(op, rw);
	e.k[0] = lift(a, w); e.k[1] = lift(b, w);
	if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) && b.e && a.e && a.e->id > b.e->id)
		std::swap(e.k[0], e.k[1]);
	return V(intern(e));
}

static uint64_t evcast(Opc op, uint64_t v, unsigned from, unsigned to)
{
	switch (op) {
	case E_ZEXT: return v & maskw(from);
	case E_SEXT: return (uint64_t)sx(v, from) & maskw(to);
	case E_SITOFP: return dbits((double)sx(v, from));
	case E_UITOFP: return dbits((double)v);
	case E_FPTOSI: return (uint64_t)(int64_t)asd(v) & maskw(to);
	case E_FPTOUI: return (uint64_t)asd(v) & maskw(to);
	default: abort();
	}
}

V Builder::cast(Opc op, V a, unsigned from, unsigned to)
{
	if (a.conc())
		return V(evcast(op, a.c, from, to));
	if ((op == E_ZEXT || op == E_SEXT) && from == to)
		return a;
	if (a.e->small()) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << a.e->vw); i++)
			t[i] = evcast(op, a.e->tab[i], from, to);
		return table(a.e->var, a.e->vw, a.e->dom, to, t, a.e->uninit);
	}
	if (op == E_ZEXT && a.e->op == E_ZEXT)
		return cast(E_ZEXT, V(a.e->k[0]), a.e->k[0]->w, to);
	Expr e = blank(op, to);
	e.k[0] = a.e;
	return V(intern(e));
}

V Builder::extract(V a, unsigned from, unsigned lo, unsigned w)
{
	if (lo == 0 && w == from)
		return a;
	if (a.conc())
		return V((a.c >> lo) & maskw(w));
	if (a.e->small()) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << a.e->vw); i++)
			t[i] = (a.e->tab[i] >> lo) & maskw(w);
		return table(a.e->var, a.e->vw, a.e->dom, w, t, a.e->uninit);
	}
	const Expr *x = a.e;
	if (x->op == E_CONST)
		return V((x->val >> lo) & maskw(w));
	if (x->op == E_EXTRACT)
		return extract(V(x->k[0]), x->k[0]->w, lo + (unsigned)x->val, w);
	if (x->op == E_CONCAT) {
		unsigned wl = x->k[1]->w;
		if (lo + w <= wl) return extract(V(x->k[1]), wl, lo, w);
		if (lo >= wl) return extract(V(x->k[0]), x->k[0]->w, lo - wl, w);
		if (w < from / 2)
			return concat(extract(V(x->k[0]), x->k[0]->w, 0, lo + w - wl), lo + w - wl, extract(V(x->k[1]), wl, lo, wl - lo), wl - lo);
	}
	if (x->op == E_ZEXT || x->op == E_SEXT) {
		unsigned kw = x->k[0]->w;
		if (lo + w <= kw) return extract(V(x->k[0]), kw, lo, w);
		if (x->op == E_ZEXT && lo >= kw) return V(0);
		if (lo == 0) return cast(x->op, V(x->k[0]), kw, w);
	}
	if (x->op == E_ITE)
		return ite(V(x->k[0]), extract(V(x->k[1]), from, lo, w), extract(V(x->k[2]), from, lo, w), w);
	Expr e = blank(E_EXTRACT, w);
	e.k[0] = x; e.val = lo;
	return V(intern(e));
}

V Builder::concat(V hi, unsigned wh, V lo, unsigned wl)
{
	if (hi.conc() && lo.conc())
		return V(((wl >= 64 ? 0 : hi.c << wl) | lo.c) & maskw(wh + wl));
	const Expr *s = hi.e ? hi.e : lo.e;
	if ((hi.conc() || hi.e->small()) && (lo.conc() || lo.e->small()) &&
	    (hi.conc() || lo.conc() || (hi.e->var == lo.e->var && hi.e->vw == lo.e->vw && hi.e->dom == lo.e->dom))) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << s->vw); i++)
			t[i] = ((hi.e ? hi.e->tab[i] : hi.c) << wl) | (lo.e ? lo.e->tab[i] : lo.c);
		return table(s->var, s->vw, s->dom, wh + wl, t, s->uninit);
	}
	if (hi.conc() && hi.c == 0)
		return cast(E_ZEXT, lo, wl, wh + wl);
	if (hi.e && lo.e && hi.e->op == E_EXTRACT && lo.e->op == E_EXTRACT && hi.e->k[0] == lo.e->k[0] && hi.e->val == lo.e->val + wl)
		return extract(V(hi.e->k[0]), hi.e->k[0]->w, (unsigned)lo.e->val, wh + wl);
	Expr e = blank(E_CONCAT, wh + wl);
	e.k[0] = lift(hi, wh); e.k[1] = lift(lo, wl);
	return V(intern(e));
}

V Builder::ite(V c, V a, V b, unsigned w)
{
	if (c.conc())
		return c.c & 1 ? a : b;
	if (a.conc() && b.conc() && a.c == b.c)
		return a;
	if (a.e && a.e == b.e)
		return a;
	auto ok = [&](V v) { return v.conc() || (v.e->small() && v.e->var == c.e->var && v.e->vw == c.e->vw && v.e->dom == c.e->dom); };
	if (c.e->small() && ok(a) && ok(b)) {
		uint64_t t[256];
		for (unsigned i = 0; i < (1u << c.e->vw); i++) {
			V v = c.e->tab[i] & 1 ? a : b;
			t[i] = v.e ? v.e->tab[i] : v.c;
		}
		return table(c.e->var, c.e->vw, c.e->dom, w, t, c.e->uninit);
	}
	if (w == 1) {
		if (a.conc() && b.conc()) return a.c ? c : lnot(c);
		if (a.conc()) return a.c ? bin(E_OR, c, b, 1) : bin(E_AND, lnot(c), b, 1);
		if (b.conc()) return b.c ? bin(E_OR, lnot(c), a, 1) : bin(E_AND, c, a, 1);
	}
	Expr e = blank(E_ITE, w);
	e.k[0] = c.e; e.k[1] = lift(a, w); e.k[2] = lift(b, w);
	return V(intern(e));
}

uint64_t Builder::eval(const Expr *e, const std::vector<uint64_t> &m) { epoch++; return eval_(e, m); }

uint64_t Builder::eval_(const Expr *e, const std::vector<uint64_t> &m)
{
	if (e->op == E_CONST) return e->val;
	if (e->op == E_VAR) return e->var < m.size() ? m[e->var] : 0;
	if (e->op == E_TABLE) return e->tab[(e->var < m.size() ? m[e->var] : 0) & maskw(e->vw)];
	if (e->epoch == epoch) return e->memo;
	uint64_t r;
	switch (e->op) {
	case E_ZEXT: case E_SEXT: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI:
		r = evcast(e->op, eval_(e->k[0], m), e->k[0]->w, e->w); break;
	case E_EXTRACT: r = (eval_(e->k[0], m) >> e->val) & maskw(e->w); break;
	case E_CONCAT: r = (eval_(e->k[0], m) << e->k[1]->w) | eval_(e->k[1], m); break;
	case E_ITE: r = eval_(e->k[0], m) & 1 ? eval_(e->k[1], m) : eval_(e->k[2], m); break;
	default: r = evop(e->op, e->k[0]->w, eval_(e->k[0], m), eval_(e->k[1], m));
	}
	e->memo = r; e->epoch = epoch;
	return r;
}

// ------------------------------------------------------------------- z3
static Z3_sort bv(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s[w])); } return s[w]; }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v & maskw(w), bv(w)); }
static Z3_ast b2v(Z3_ast c) { return Z3_mk_ite(Z, c, num(1, 1), num(0, 1)); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(Z, v, num(1, 1)); }
static Z3_sort fps() { return Z3_mk_fpa_sort_double(Z); }
static Z3_ast tofp(Z3_ast v) { return Z3_mk_fpa_to_fp_bv(Z, v, fps()); }

Z3_ast Builder::z3var(uint32_t id, unsigned w)
{
	char b[32];
	snprintf(b, sizeof b, "v%u_%u", id, w);
	return Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bv(w));
}

Z3_ast Builder::domain(uint32_t id, unsigned w, const Dom &d)
{
	std::vector<Z3_ast> o;
	Z3_ast v = z3var(id, w);
	unsigned n = 1u << w;
	for (unsigned i = 0; i < n; ) {
		if (!d.has(i)) { i++; continue; }
		unsigned j = i;
		while (j + 1 < n && d.has(j + 1)) j++;
		if (i == 0 && j == n - 1) return Z3_mk_true(Z);
		if (i == j) o.push_back(Z3_mk_eq(Z, v, num(i, w)));
		else {
			Z3_ast a[2]; int k = 0;
			if (i) a[k++] = Z3_mk_bvuge(Z, v, num(i, w));
			if (j != n - 1) a[k++] = Z3_mk_bvule(Z, v, num(j, w));
			o.push_back(k == 2 ? Z3_mk_and(Z, 2, a) : a[0]);
		}
		i = j + 1;
	}
	return o.size() == 1 ? o[0] : Z3_mk_or(Z, (unsigned)o.size(), o.data());
}

Z3_ast Builder::z3table(const Expr *e)
{
	unsigned n = 1u << e->vw, w = e->w;
	Z3_ast v = z3var(e->var, e->vw);
	if (w == 1) {
		Dom d = Dom::none();
		bool any = false;
		for (unsigned i = 0; i < n; i++) if (e->tab[i]) d.set(i), any = true;
		if (!any) return num(0, 1);
		return b2v(domain(e->var, e->vw, d));
	}
	bool zx = w > e->vw, sxt = w > e->vw;
	for (unsigned i = 0; i < n; i++) {
		if (!e->dom.has(i)) continue;
		if (e->tab[i] != i) zx = false;
		if (e->tab[i] != ((uint64_t)sx(i, e->vw) & maskw(w))) sxt = false;
	}
	if (zx) return Z3_mk_zero_ext(Z, w - e->vw, v);
	if (sxt) return Z3_mk_sign_ext(Z, w - e->vw, v);
	// affine?
	if (w >= e->vw) {
		uint64_t off = (e->tab[e->dom.first()] - (uint64_t)e->dom.first()) & maskw(w);
		bool aff = true;
		for (unsigned i = 0; i < n && aff; i++)
			if (e->dom.has(i) && ((e->tab[i] - i) & maskw(w)) != off) aff = false;
		if (aff) return Z3_mk_bvadd(Z, w > e->vw ? Z3_mk_zero_ext(Z, w - e->vw, v) : v, num(off, w));
	}
	// or negated
	if (w >= e->vw) {
		uint64_t off = (e->tab[e->dom.first()] + (uint64_t)e->dom.first()) & maskw(w);
		bool aff = true;
		for (unsigned i = 0; i < n && aff; i++)
			if (e->dom.has(i) && ((e->tab[i] + i) & maskw(w)) != off) aff = false;
		if (aff) return Z3_mk_bvsub(Z, num(off, w), w > e->vw ? Z3_mk_zero_ext(Z, w - e->vw, v) : v);
	}
	// group by value
	std::vector<std::pair<uint64_t, Dom>> g;
	for (unsigned i = 0; i < n; i++) {
		if (!e->dom.has(i)) continue;
		size_t j;
		for (j = 0; j < g.size(); j++) if (g[j].first == e->tab[i]) break;
		if (j == g.size()) g.push_back({e->tab[i], Dom::none()});
		g[j].second.set(i);
	}
	std::sort(g.begin(), g.end(), [](const std::pair<uint64_t, Dom> &a, const std::pair<uint64_t, Dom> &b) { return a.second.count() > b.second.count(); });
	Z3_ast r = num(g[0].first, w);
	for (size_t j = 1; j < g.size(); j++)
		r = Z3_mk_ite(Z, domain(e->var, e->vw, g[j].second), num(g[j].first, w), r);
	return r;
}

Z3_ast Builder::z3(const Expr *e)
{
	if (e->z) return e->z;
	Z3_ast a = nullptr, b = nullptr, r = nullptr;
	if (e->k[0]) a = z3(e->k[0]);
	if (e->k[1]) b = z3(e->k[1]);
	switch (e->op) {
	case E_CONST: r = num(e->val, e->w); break;
	case E_VAR: r = z3var(e->var, e->w); break;
	case E_TABLE: r = z3table(e); break;
	case E_ADD: r = Z3_mk_bvadd(Z, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(Z, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(Z, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(Z, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
	case E_AND: r = Z3_mk_bvand(Z, a, b); break;
	case E_OR: r = Z3_mk_bvor(Z, a, b); break;
	case E_XOR: r = Z3_mk_bvxor(Z, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(Z, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
	case E_EQ: r = b2v(Z3_mk_eq(Z, a, b)); break;
	case E_ULT: r = b2v(Z3_mk_bvult(Z, a, b)); break;
	case E_ULE: r = b2v(Z3_mk_bvule(Z, a, b)); break;
	case E_SLT: r = b2v(Z3_mk_bvslt(Z, a, b)); break;
	case E_SLE: r = b2v(Z3_mk_bvsle(Z, a, b)); break;
	case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, a); break;
	case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, a); break;
	case E_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->val + e->w - 1, (unsigned)e->val, a); break;
	case E_CONCAT: r = Z3_mk_concat(Z, a, b); break;
	case E_ITE: r = Z3_mk_ite(Z, v2b(a), b, z3(e->k[2])); break;
	case E_FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, Z3_mk_fpa_rne(Z), tofp(a), tofp(b))); break;
	case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, Z3_mk_fpa_rne(Z), tofp(a), tofp(b))); break;
	case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, Z3_mk_fpa_rne(Z), tofp(a), tofp(b))); break;
	case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, Z3_mk_fpa_rne(Z), tofp(a), tofp(b))); break;
	case E_FOEQ: r = b2v(Z3_mk_fpa_eq(Z, tofp(a), tofp(b))); break;
	case E_FOLT: r = b2v(Z3_mk_fpa_lt(Z, tofp(a), tofp(b))); break;
	case E_FOLE: r = b2v(Z3_mk_fpa_leq(Z, tofp(a), tofp(b))); break;
	case E_FUNO: { Z3_ast o[2] = { Z3_mk_fpa_is_nan(Z, tofp(a)), Z3_mk_fpa_is_nan(Z, tofp(b)) }; r = b2v(Z3_mk_or(Z, 2, o)); break; }
	case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), a, fps())); break;
	case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), a, fps())); break;
	case E_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), tofp(a), e->w); break;
	case E_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), tofp(a), e->w); break;
	}
	Z3_inc_ref(Z, r);
	e->z = r;
	return r;
}
