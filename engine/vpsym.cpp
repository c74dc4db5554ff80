// vpsym: symbolic execution of LLVM bitcode with an SMT solver (Z3).
// Explores every path of vp_main() over all values of its symbolic inputs and
// reports assertion violations, memory errors, undefined behaviour and leaks
// together with concrete inputs.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const DataLayout *DL;
static Module *M;
static bool optLeak = false;
static double deadline = 1e18, t_start;
static uint64_t maxInst = getenv("VP_MAXINST") ? strtoull(getenv("VP_MAXINST"), nullptr, 10) : 30000000;
static unsigned nworkers = 8;
static uint64_t maxSplit = 4096;
static std::string outdir;

struct Shared { volatile uint64_t next, stop; };
static Shared *shm;

// ------------------------------------------------------------ decoded program
struct Opnd { bool cst; V c; int slot; };
struct DFunc;
struct DInst {
	const Instruction *I;
	unsigned opc;
	int dst;
	unsigned w;          // width of the operation
	Opnd a, b, c;
	std::vector<Opnd> ops;
	int64_t off;         // GEP constant offset
	std::vector<std::pair<Opnd, int64_t>> idx;
	std::vector<unsigned> idxw;
	int t, f;            // branch targets
	std::vector<std::pair<uint64_t, int>> cases;
	DFunc *callee;
	int builtin;
	std::vector<std::pair<unsigned, unsigned>> lay; // (byte offset, width) of the scalars of the type
	std::vector<unsigned> argw;
};
struct DBlock { std::vector<DInst> ins; std::map<int, std::vector<std::pair<int, Opnd>>> phi; std::vector<unsigned> phin; };
struct DFunc {
	const Function *F;
	std::string name;
	int nslots = 0;
	std::vector<int> argslot;
	std::vector<DBlock> blocks;
	bool decoded = false;
	uint64_t addr = 0;
	int builtin = 0;
	bool hasBody = false;
	unsigned fixedArgs = 0;
	bool executed = false;
	bool fast = false;
};
static std::map<const Function *, DFunc *> funcs;
static std::map<uint64_t, DFunc *> byaddr;
static std::map<const GlobalValue *, uint64_t> gaddr;

enum Bi {
	BI_NONE, BI_MALLOC, BI_CALLOC, BI_REALLOC, BI_FREE, BI_U8, BI_U32, BI_U64, BI_RANGE, BI_NZ, BI_CHECK, BI_ASSUME, BI_REACH,
	BI_STOP, BI_SPAWN, BI_SWITCH, BI_DONE, BI_CONC, BI_MEMCPY, BI_MEMSET, BI_STRLEN, BI_TRACE, BI_LEAKOK, BI_OVF, BI_TRAP, BI_VASTART, BI_VACOPY, BI_NOP, BI_EXPECT,
	BI_MINMAX, BI_BSWAP, BI_BITS, BI_OBJSIZE, BI_STACKSAVE, BI_ISCONST, BI_FABS, BI_FLOOR, BI_TLS, BI_VALID, BI_EXISTS
};

// ------------------------------------------------------------ memory
struct SymB { const Expr *e; uint8_t i; };
static const Expr *UNINIT = (const Expr *)1;
enum Kind : uint8_t { K_GLOBAL, K_HEAP, K_STACK };
struct Obj {
	uint64_t base, size;
	Kind kind; bool alive, ro, leakok;
	std::vector<uint8_t> d;
	std::vector<SymB> s;
	const Instruction *site;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[32]; };
static inline uint64_t addrOf(uint64_t id) { return ((id + 1) << 24) + 0x1000; }

struct Var { uint8_t w; bool small, uninit, multi; Dom dom; };
struct InLog { std::shared_ptr<InLog> prev; const Expr *e; uint64_t c; };
struct TagLog { std::shared_ptr<TagLog> prev; const char *tag; };

struct Frame {
	DFunc *f;
	int blk, ip;
	std::vector<V> regs;
	std::vector<uint32_t> allocas;
	std::vector<V> va; std::vector<unsigned> vaw;
};

struct State {
	std::vector<std::shared_ptr<Chunk>> mem;
	uint32_t nobj = 0;
	std::vector<Frame> fr;                  // of the current context
	std::vector<std::vector<Frame>> co;     // the others (that of the current one is empty)
	int cur = 0;
	std::vector<Var> vars;
	std::vector<uint64_t> model;
	std::vector<const Expr *> cons;
	std::vector<std::pair<const Expr *, uint64_t>> known;
	std::shared_ptr<InLog> in;
	std::shared_ptr<TagLog> tags;
	uint64_t ninst = 0, checks = 0;
	uint32_t depth = 0;
	int exists = -1;

	Obj *rd(uint32_t id) { return mem[id >> 5]->o[id & 31].get(); }
	Obj *wr(uint32_t id)
	{
		auto &c = mem[id >> 5];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		auto &o = c->o[id & 31];
		if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
		return o.get();
	}
	uint32_t add(uint64_t size, Kind k, bool zero, const Instruction *site)
	{
		uint32_t id = nobj++;
		if ((id >> 5) >= mem.size()) mem.push_back(std::make_shared<Chunk>());
		else if (mem[id >> 5].use_count() > 1) mem[id >> 5] = std::make_shared<Chunk>(*mem[id >> 5]);
		auto o = std::make_shared<Obj>();
		o->base = addrOf(id); o->size = size; o->kind = k; o->alive = true; o->ro = false; o->leakok = false; o->site = site;
		o->d.assign(size, 0);
		if (!zero) o->s.assign(size, SymB{UNINIT, 0});
		mem[id >> 5]->o[id & 31] = o;
		return id;
	}
};

// ------------------------------------------------------------ statistics
struct Stats {
	uint64_t paths = 0, insts = 0, forks = 0, queries = 0, z3queries = 0, cachehits = 0, checks = 0, checkq = 0, killed = 0, domq = 0, xchk = 0;
	double solver = 0;
	unsigned maxdepth = 0, maxcons = 0;
} S;
struct Failure { std::string kind, msg, where; std::vector<uint64_t> in; };
static std::vector<Failure> fails;
static std::set<std::string> failKeys;
static std::map<std::string, std::vector<uint64_t>> reached;
struct Sample { std::vector<uint64_t> in; uint64_t checks; std::vector<std::string> tags; };
static std::vector<Sample> samples;
static std::set<std::string> checkSites, unmodelled;
static std::string inconclusive;
static std::vector<std::unique_ptr<State>> work;

static std::string loc(const Instruction *I)
{
	if (!I) return "?";
	if (const DebugLoc &l = I->getDebugLoc()) {
		std::string f = l->getFilename().str();
		size_t p = f.rfind('/');
		return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(l.getLine());
	}
	return I->getFunction()->getName().str();
}
static std::string where(State &s)
{
	std::string r;
	for (size_t i = s.fr.size(); i-- > 0 && s.fr.size() - i < 9;) {
		Frame &f = s.fr[i];
		auto &b = f.f->blocks[f.blk];
		if (!r.empty()) r += " < ";
		r += f.f->name + "@" + loc(f.ip < (int)b.ins.size() ? b.ins[f.ip].I : nullptr);
	}
	return r;
}
static std::vector<uint64_t> inputs(State &s, const std::vector<uint64_t> &m)
{
	std::vector<uint64_t> r;
	for (auto p = s.in; p; p = p->prev)
		r.push_back(p->e ? B.eval(p->e, m) : p->c);
	std::reverse(r.begin(), r.end());
	return r;
}
static void fail(State &s, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &m)
{
	std::string w = where(s);
	std::string key = kind + "|" + msg + "|" + w.substr(0, w.find(" < "));
	if (!failKeys.insert(key).second) return;
	fails.push_back({kind, msg, w, inputs(s, m)});
}

// ------------------------------------------------------------ solving
static Z3_solver solver, fsolver;
struct CacheVal { int res; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CacheVal> cache;

static bool hasFP(const Expr *e, std::unordered_set<const Expr *> &seen)
{
	if (!e || !seen.insert(e).second || e->small()) return false;
	if (e->op >= E_FADD) return true;
	return hasFP(e->k[0], seen) || hasFP(e->k[1], seen) || hasFP(e->k[2], seen);
}

// A condition on one small input: Z3 is asked for both outcomes once per distinct
// (condition, value set), and must agree with the value set.
struct DKey { uint32_t id; Dom d; bool operator==(const DKey &o) const { return id == o.id && d == o.d; } };
struct DHash { size_t operator()(const DKey &k) const {
	uint64_t h = k.id;
	for (auto x : k.d.w) h = (h ^ x ^ (h >> 29)) * 0xff51afd7ed558ccdull;
	return h ^ (h >> 32);
} };
static std::unordered_set<DKey, DHash> confirmed;
static std::unordered_set<std::string> confirmedText;
static void confirm(const Expr *cond, const Var &v)
{
	if (!confirmed.insert({cond->id, v.dom}).second) { S.cachehits++; return; }
	// (what Z3 is given depends on the table and the value set only, not on the name of the input)
	std::string ck;
	ck.reserve(80);
	ck += (char)cond->op; ck += (char)cond->vw; ck += (char)v.w;
	for (unsigned i = 0; i < (1u << cond->vw); i += 8) {
		unsigned char b = 0;
		for (unsigned k = 0; k < 8 && i + k < (1u << cond->vw); k++) b |= (unsigned char)((cond->tab[i + k] & 1) << k);
		ck += (char)b;
	}
	ck.append((const char *)cond->dom.w, 32);
	ck.append((const char *)v.dom.w, 32);
	if (!confirmedText.insert(ck).second) { S.cachehits++; return; }
	double t = now();
	for (int pol = 0; pol < 2; pol++) {
		bool sat = false;
		for (unsigned i = 0; i < (1u << cond->vw) && !sat; i++)
			if (v.dom.has(i) && (int)(cond->tab[i] & 1) == pol) sat = true;
		Z3_solver_reset(Z, solver);
		Z3_solver_assert(Z, solver, Z3_mk_eq(Z, B.z3(cond), Z3_mk_unsigned_int64(Z, pol, Z3_mk_bv_sort(Z, 1))));
		Z3_solver_assert(Z, solver, B.domain(cond->var, v.w, v.dom));
		S.z3queries++;
		S.xchk++;
		if (Z3_solver_check(Z, solver) != (sat ? Z3_L_TRUE : Z3_L_FALSE)) inconclusive = "value-set reasoning and Z3 disagree";
	}
	S.solver += now() - t;
}

// Is pc && (cond == pol) satisfiable?  On success the model is extended.
static int query(State &s, const Expr *cond, bool pol, std::vector<uint64_t> *model)
{
	S.queries++;
	std::vector<uint32_t> vs(cond->sup.begin(), cond->sup.end());
	std::vector<char> inv(s.vars.size(), 0);
	for (auto v : vs) inv[v] = 1;
	std::vector<const Expr *> sl;
	std::vector<char> used(s.cons.size(), 0);
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = 0; i < s.cons.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (auto v : s.cons[i]->sup) if (inv[v]) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1; ch = true;
			sl.push_back(s.cons[i]);
			for (auto v : s.cons[i]->sup) if (!inv[v]) { inv[v] = 1; vs.push_back(v); }
		}
	}
	if (sl.empty() && cond->small()) {
		// one small input only: Z3's answer (remembered) must be the one of the value set
		S.domq++;
		Var &v = s.vars[cond->var];
		confirm(cond, v);
		for (unsigned i = 0; i < (1u << cond->vw); i++)
			if (v.dom.has(i) && (bool)(cond->tab[i] & 1) == pol) {
				if (model) { *model = s.model; (*model)[cond->var] = i; }
				return 1;
			}
		return 0;
	}
	std::sort(sl.begin(), sl.end(), [](const Expr *a, const Expr *b) { return a->id < b->id; });
	std::sort(vs.begin(), vs.end());
	std::string key;
	auto put = [&](const void *p, size_t n) { key.append((const char *)p, n); };
	for (auto e : sl) put(&e->id, 4);
	key += '|'; put(&cond->id, 4); key += pol ? '+' : '-';
	for (auto v : vs) { put(&v, 4); put(&s.vars[v].w, 1); if (s.vars[v].small) put(s.vars[v].dom.w, 32); }
	auto it = cache.find(key);
	if (it == cache.end()) {
		S.z3queries++;
		double t = now();
		std::unordered_set<const Expr *> seen;
		bool fp = hasFP(cond, seen);
		for (auto e : sl) fp = fp || hasFP(e, seen);
		Z3_solver z = fp ? fsolver : solver;
		Z3_solver_reset(Z, z);
		for (auto e : sl) Z3_solver_assert(Z, z, Z3_mk_eq(Z, B.z3(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))));
		Z3_solver_assert(Z, z, Z3_mk_eq(Z, B.z3(cond), Z3_mk_unsigned_int64(Z, pol, Z3_mk_bv_sort(Z, 1))));
		for (auto v : vs) if (s.vars[v].small) Z3_solver_assert(Z, z, B.domain(v, s.vars[v].w, s.vars[v].dom));
		Z3_lbool r = Z3_solver_check(Z, z);
		static const char *slow = getenv("VP_SLOW");
		if (slow && now() - t > atof(slow)) fprintf(stderr, "slow query (%.1f s):\n%s\n", now() - t, Z3_solver_to_string(Z, z));
		CacheVal cv;
		cv.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
		if (cv.res == 1) {
			Z3_model m = Z3_solver_get_model(Z, z);
			Z3_model_inc_ref(Z, m);
			for (auto v : vs) {
				Z3_ast o;
				uint64_t val = 0;
				if (Z3_model_eval(Z, m, B.z3var(v, s.vars[v].w), true, &o)) Z3_get_numeral_uint64(Z, o, &val);
				cv.m.push_back({v, val});
			}
			Z3_model_dec_ref(Z, m);
			// the model must satisfy the query
			std::vector<uint64_t> mm(s.vars.size(), 0);
			for (auto &p : cv.m) mm[p.first] = p.second;
			bool good = (bool)(B.eval(cond, mm) & 1) == pol;
			for (auto e : sl) good = good && (B.eval(e, mm) & 1);
			if (!good) { cv.res = -1; inconclusive = "a model returned by the solver does not satisfy the query"; }
		}
		S.solver += now() - t;
		it = cache.emplace(key, cv).first;
	} else
		S.cachehits++;
	if (it->second.res == 1 && model) {
		*model = s.model;
		for (auto &p : it->second.m) (*model)[p.first] = p.second;
	}
	if (it->second.res < 0) {
		if (inconclusive.empty()) inconclusive = "the solver gave up on a query";
		return -1;
	}
	return it->second.res;
}

static V simp(State &s, V v)
{
	if (v.e && v.e->small()) {
		Dom &d = s.vars[v.e->var].dom;
		int f = d.first();
		uint64_t x = v.e->tab[f];
		for (int k = 0; k < 4; k++)
			for (uint64_t w = d.w[k]; w; w &= w - 1)
				if (v.e->tab[k * 64 + __builtin_ctzll(w)] != x) return v;
		return V(x);
	}
	return v;
}

// which outcomes of cond are possible: bit 0 true, bit 1 false
static int decide(State &s, V c, std::vector<uint64_t> *mt, std::vector<uint64_t> *mf)
{
	if (c.e && c.e->small()) {
		V d = simp(s, c);
		if (d.conc()) { S.queries++; S.domq++; confirm(c.e, s.vars[c.e->var]); }
		c = d;
	}
	if (c.conc()) { if (mt) *mt = s.model; if (mf) *mf = s.model; return c.c & 1 ? 1 : 2; }
	for (auto &k : s.known)
		if (k.first == c.e) { if (mt) *mt = s.model; if (mf) *mf = s.model; return k.second & 1 ? 1 : 2; }
	bool cur = B.eval(c.e, s.model) & 1;
	std::vector<uint64_t> tmp;
	int r = query(s, c.e, !cur, &tmp);
	if (r <= 0) tmp = s.model;
	if (mt) *mt = cur ? s.model : tmp;
	if (mf) *mf = cur ? tmp : s.model;
	int res = cur ? 1 : 2;
	if (r != 0) res = 3;
	return res;
}

static void constrain(State &s, V c, bool pol, const std::vector<uint64_t> *m)
{
	c = simp(s, c);
	if (m) s.model = *m;
	if (c.conc()) return;
	if (c.e->small()) {
		Var &v = s.vars[c.e->var];
		for (unsigned i = 0; i < (1u << c.e->vw); i++)
			if (v.dom.has(i) && (bool)(c.e->tab[i] & 1) != pol) v.dom.w[i >> 6] &= ~(1ull << (i & 63));
		return;
	}
	s.known.push_back({c.e, pol ? 1ull : 0ull});
	V e = pol ? V(c.e) : B.lnot(V(c.e));
	// split conjunctions
	if (pol && c.e->op == E_AND && c.e->w == 1) { constrain(s, V(c.e->k[0]), true, nullptr); constrain(s, V(c.e->k[1]), true, nullptr); return; }
	if (!pol && c.e->op == E_OR && c.e->w == 1) { constrain(s, V(c.e->k[0]), false, nullptr); constrain(s, V(c.e->k[1]), false, nullptr); return; }
	for (auto x : e.e->sup) s.vars[x].multi = true;
	s.cons.push_back(e.e);
	if (s.cons.size() > S.maxcons) S.maxcons = (unsigned)s.cons.size();
}

static std::unique_ptr<State> forkState(State &s)
{
	S.forks++;
	auto n = std::make_unique<State>(s);
	n->depth++;
	if (n->depth > S.maxdepth) S.maxdepth = n->depth;
	return n;
}

// Make v concrete: continues with one feasible value, queues the others.
static bool conc(State &s, V v, unsigned w, uint64_t &out)
{
	v = simp(s, v);
	if (v.conc()) { out = v.c; return true; }
	for (auto &k : s.known)
		if (k.first == v.e) { out = k.second; return true; }
	uint64_t cur = B.eval(v.e, s.model);
	std::vector<std::pair<uint64_t, std::vector<uint64_t>>> vals;
	State probe(s);
	for (uint64_t n = 0;; n++) {
		V ne = B.lnot(B.bin(E_EQ, v, V(n == 0 ? cur : vals.back().first), w));
		ne = simp(probe, ne);
		std::vector<uint64_t> m;
		int r = ne.conc() ? (int)(ne.c & 1) : query(probe, ne.e, true, &m);
		if (r < 0) return false;
		if (!r) break;
		if (ne.conc()) m = probe.model;
		constrain(probe, ne, true, &m);
		vals.push_back({B.eval(v.e, m), m});
		if (vals.size() > maxSplit) {
			if (inconclusive.empty()) inconclusive = "too many values to split at " + where(s);
			return false;
		}
	}
	for (auto &p : vals) {
		auto n = forkState(s);
		V eq = B.bin(E_EQ, v, V(p.first), w);
		n->model = p.second;
		constrain(*n, eq, true, &p.second);
		if (!v.e->small()) n->known.push_back({v.e, p.first});
		work.push_back(std::move(n));
	}
	V eq = B.bin(E_EQ, v, V(cur), w);
	constrain(s, eq, true, nullptr);
	if (!v.e->small()) s.known.push_back({v.e, cur});
	out = cur;
	return true;
}

static const Expr *freshVar(State &s, unsigned w, const Dom *d, bool uninit)
{
	uint32_t id = (uint32_t)s.vars.size();
	Var v;
	v.w = (uint8_t)w; v.small = d != nullptr; v.uninit = uninit; v.multi = false;
	if (d) v.dom = *d; else v.dom = Dom::none();
	s.vars.push_back(v);
	s.model.push_back(d ? (uint64_t)d->first() : 0);
	return B.var(id, w, d, uninit);
}

// ------------------------------------------------------------ memory access
// Resolve an access.  Returns the object or null (path ended or re-queued).
static Obj *resolve(State &s, uint64_t a, uint64_t n, bool write, uint64_t &off, const char *what)
{
	uint64_t id = (a >> 24) - 1;
	if ((a >> 24) == 0 || id >= s.nobj) {
		fail(s, "memory", std::string(what) + (a < 4096 ? " of a null pointer" : " of an invalid pointer"), s.model);
		return nullptr;
	}
	Obj *o = s.rd((uint32_t)id);
	off = a - o->base;
	if (!o->alive) {
		fail(s, "memory", std::string(what) + (o->kind == K_STACK ? " after return" : " after free"), s.model);
		return nullptr;
	}
	if (off > o->size || n > o->size - off) {
		fail(s, "memory", std::string(what) + " out of bounds (" + std::to_string((int64_t)off) + "+" + std::to_string(n) + " of " + std::to_string(o->size) + " bytes)", s.model);
		return nullptr;
	}
	if (write) {
		if (o->ro) { fail(s, "memory", "write to constant data", s.model); return nullptr; }
		o = s.wr((uint32_t)id);
	}
	return o;
}

static V loadBytes(State &s, Obj *o, uint64_t off, unsigned n)
{
	bool sym = false;
	if (!o->s.empty())
		for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { sym = true; break; }
	if (!sym) {
		uint64_t v = 0;
		for (unsigned i = 0; i < n; i++) v |= (uint64_t)o->d[off + i] << (8 * i);
		return V(v);
	}
	bool un = false;
	for (unsigned i = 0; i < n; i++) if (o->s[off + i].e == UNINIT) { un = true; break; }
	if (un) {
		o = s.wr((uint32_t)((o->base >> 24) - 1));
		static const Dom full = Dom::upto(255);
		for (unsigned i = 0; i < n; i++)
			if (o->s[off + i].e == UNINIT) o->s[off + i] = SymB{freshVar(s, 8, &full, true), 0};
	}
	const Expr *e = o->s[off].e;
	if (e && e->w == 8 * n) {
		bool whole = true;
		for (unsigned i = 0; i < n; i++) if (o->s[off + i].e != e || o->s[off + i].i != i) { whole = false; break; }
		if (whole) return V(e);
	}
	auto byte = [&](unsigned i) {
		SymB &b = o->s[off + i];
		if (!b.e) return V((uint64_t)o->d[off + i]);
		if (b.e->w < 8) return B.cast(E_ZEXT, V(b.e), b.e->w, 8);
		return B.extract(V(b.e), b.e->w, 8u * b.i, 8);
	};
	V r = byte(0);
	for (unsigned i = 1; i < n; i++) r = B.concat(byte(i), 8, r, 8 * i);
	return r;
}

static void storeBytes(Obj *o, uint64_t off, unsigned n, V v, unsigned w)
{
	if (v.conc()) {
		for (unsigned i = 0; i < n; i++) {
			o->d[off + i] = (uint8_t)(v.c >> (8 * i));
			if (!o->s.empty()) o->s[off + i].e = nullptr;
		}
		return;
	}
	if (o->s.empty()) o->s.assign(o->size, SymB{nullptr, 0});
	if (w < 8 * n) v = B.cast(E_ZEXT, v, w, 8 * n);
	if (v.conc()) { storeBytes(o, off, n, v, 8 * n); return; }
	for (unsigned i = 0; i < n; i++) o->s[off + i] = SymB{v.e, (uint8_t)i};
}

static bool copyBytes(State &s, uint64_t d, uint64_t sr, uint64_t n)
{
	if (n == 0) return true;
	uint64_t so, doff;
	Obj *os = resolve(s, sr, n, false, so, "read");
	if (!os) return false;
	std::vector<uint8_t> bd(os->d.begin() + so, os->d.begin() + so + n);
	std::vector<SymB> bs;
	if (!os->s.empty()) bs.assign(os->s.begin() + so, os->s.begin() + so + n);
	Obj *od = resolve(s, d, n, true, doff, "write");
	if (!od) return false;
	std::copy(bd.begin(), bd.end(), od->d.begin() + doff);
	bool any = false;
	for (auto &x : bs) if (x.e) any = true;
	if (any && od->s.empty()) od->s.assign(od->size, SymB{nullptr, 0});
	if (!od->s.empty())
		for (uint64_t i = 0; i < n; i++) od->s[doff + i] = bs.empty() ? SymB{nullptr, 0} : bs[i];
	return true;
}

// ------------------------------------------------------------ decoding
static unsigned widthOf(Type *t)
{
	if (t->isPointerTy()) return 64;
	if (t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	return 0;
}
static void layout(Type *t, unsigned off, std::vector<std::pair<unsigned, unsigned>> &r)
{
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) layout(st->getElementType(i), off + (unsigned)sl->getElementOffset(i), r);
	} else if (auto *at = dyn_cast<ArrayType>(t)) {
		unsigned es = (unsigned)DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) layout(at->getElementType(), off + i * es, r);
	} else if (!t->isVoidTy())
		r.push_back({off, widthOf(t)});
}
static unsigned nslots(Type *t)
{
	std::vector<std::pair<unsigned, unsigned>> r;
	layout(t, 0, r);
	return (unsigned)r.size();
}
static uint64_t constInt(const Constant *c);

static void die(const std::string &m)
{
	printf("{\"error\": \"%s\"}\n", m.c_str());
	fflush(stdout);
	_exit(3);
}

static uint64_t constInt(const Constant *c)
{
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) return ci->getZExtValue(); die("wide constant"); }
		return ci->getZExtValue();
	}
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		if (cf->getType()->isDoubleTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
		if (cf->getType()->isFloatTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
		die("floating point constant type");
	}
	if (auto *gv = dyn_cast<GlobalValue>(c)) {
		auto it = gaddr.find(gv);
		if (it == gaddr.end()) die("unknown global " + gv->getName().str());
		return it->second;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!g->accumulateConstantOffset(*DL, off)) die("constant GEP");
			return constInt(cast<Constant>(g->getPointerOperand())) + (uint64_t)off.getSExtValue();
		}
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
			return constInt(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
		case Instruction::Trunc: return constInt(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
		case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
		case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(widthOf(ce->getType()));
		case Instruction::ICmp: {
			uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: return a == b;
			case CmpInst::ICMP_NE: return a != b;
			default: die("constant icmp");
			}
		}
		default: die(std::string("constant expression ") + ce->getOpcodeName());
		}
	}
	die("constant kind");
	return 0;
}

static void constScalars(const Constant *c, Type *t, std::vector<V> &out)
{
	if (auto *st = dyn_cast<StructType>(t)) {
		for (unsigned i = 0; i < st->getNumElements(); i++) constScalars(c->getAggregateElement(i), st->getElementType(i), out);
	} else if (auto *at = dyn_cast<ArrayType>(t)) {
		for (unsigned i = 0; i < at->getNumElements(); i++) constScalars(c->getAggregateElement(i), at->getElementType(), out);
	} else
		out.push_back(V(constInt(c)));
}

static void initConst(Obj *o, uint64_t off, const Constant *c)
{
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		unsigned es = (unsigned)DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); i++) {
			uint64_t v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
			for (unsigned b = 0; b < es; b++) o->d[off + i * es + b] = (uint8_t)(v >> (8 * b));
		}
		return;
	}
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i));
		return;
	}
	uint64_t v = constInt(c);
	unsigned n = (unsigned)DL->getTypeStoreSize(t);
	for (unsigned b = 0; b < n; b++) o->d[off + b] = (uint8_t)(v >> (8 * b));
}

static int builtinOf(const Function *F)
{
	StringRef n = F->getName();
	static const std::map<std::string, int> m = {
		{"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"realloc", BI_REALLOC}, {"free", BI_FREE},
		{"vp_sym_u8", BI_U8}, {"vp_sym_u32", BI_U32}, {"vp_sym_u64", BI_U64}, {"vp_sym_range", BI_RANGE}, {"vp_sym_nz", BI_NZ},
		{"vp_sym_check", BI_CHECK}, {"vp_sym_assume", BI_ASSUME}, {"vp_sym_reach", BI_REACH}, {"vp_sym_stop", BI_STOP},
		{"vp_sym_concrete", BI_CONC}, {"vp_sym_trace", BI_TRACE}, {"vp_sym_leakok", BI_LEAKOK}, {"vp_sym_valid", BI_VALID},
		{"vp_sym_spawn", BI_SPAWN}, {"vp_sym_switch", BI_SWITCH}, {"vp_sym_done", BI_DONE},
	};
	auto it = m.find(n.str());
	if (it != m.end()) return it->second;
	if (!n.starts_with("llvm.")) return BI_NONE;
	auto sw = [&](const char *p) { return n.starts_with(p); };
	if (sw("llvm.dbg.") || sw("llvm.lifetime.") || sw("llvm.va_end") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.stackrestore") || sw("llvm.donothing") || sw("llvm.prefetch")) return BI_NOP;
	if (sw("llvm.memcpy") || sw("llvm.memmove")) return BI_MEMCPY;
	if (sw("llvm.memset")) return BI_MEMSET;
	if (sw("llvm.va_start")) return BI_VASTART;
	if (sw("llvm.va_copy")) return BI_VACOPY;
	if (sw("llvm.expect")) return BI_EXPECT;
	if (sw("llvm.trap") || sw("llvm.ubsantrap") || sw("llvm.debugtrap")) return BI_TRAP;
	if (n.contains(".with.overflow.")) return BI_OVF;
	if (sw("llvm.umin") || sw("llvm.umax") || sw("llvm.smin") || sw("llvm.smax") || sw("llvm.abs")) return BI_MINMAX;
	if (sw("llvm.bswap")) return BI_BSWAP;
	if (sw("llvm.ctpop") || sw("llvm.ctlz") || sw("llvm.cttz")) return BI_BITS;
	if (sw("llvm.objectsize")) return BI_OBJSIZE;
	if (sw("llvm.stacksave")) return BI_STACKSAVE;
	if (sw("llvm.is.constant")) return BI_ISCONST;
	if (sw("llvm.fabs")) return BI_FABS;
	if (sw("llvm.floor")) return BI_FLOOR;
	if (sw("llvm.threadlocal.address")) return BI_TLS;
	return BI_NONE;
}

static void decode(DFunc *df)
{
	if (df->decoded) return;
	df->decoded = true;
	const Function *F = df->F;
	std::map<const Value *, int> slot;
	std::map<const BasicBlock *, int> bno;
	int ns = 0;
	for (auto &A : F->args()) { slot[&A] = ns; df->argslot.push_back(ns); ns += std::max(1u, nslots(A.getType())); }
	int nb = 0;
	for (auto &BB : *F) {
		bno[&BB] = nb++;
		for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += std::max(1u, nslots(I.getType())); }
	}
	df->nslots = ns;
	auto opnd = [&](const Value *v) {
		Opnd o;
		o.cst = false; o.slot = -1;
		if (auto *c = dyn_cast<Constant>(v)) {
			o.cst = true;
			o.c = c->getType()->isSingleValueType() && !c->getType()->isVectorTy() ? V(constInt(c)) : V(0);
			if (isa<UndefValue>(c)) o.c = V(0);
		} else if (isa<MetadataAsValue>(v)) { o.cst = true; o.c = V(0); }
		else {
			auto it = slot.find(v);
			if (it == slot.end()) die("operand in " + F->getName().str());
			o.slot = it->second;
		}
		return o;
	};
	df->blocks.resize(nb);
	for (auto &BB : *F) {
		DBlock &db = df->blocks[bno[&BB]];
		for (auto &I : BB) {
			if (auto *p = dyn_cast<PHINode>(&I)) {
				unsigned n = nslots(p->getType());
				if (n > 1) die("aggregate phi in " + F->getName().str());
				for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
					int from = bno[p->getIncomingBlock(i)];
					auto &v = db.phi[from];
					bool dup = false;
					for (auto &x : v) if (x.first == slot[&I]) dup = true;
					if (!dup) v.push_back({slot[&I], opnd(p->getIncomingValue(i))});
				}
				continue;
			}
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			DInst d{};
			d.I = &I; d.opc = I.getOpcode(); d.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
			d.w = 0; d.callee = nullptr; d.builtin = 0; d.t = d.f = -1; d.off = 0;
			switch (I.getOpcode()) {
			case Instruction::Br: {
				auto &b = cast<BranchInst>(I);
				if (b.isConditional()) { d.a = opnd(b.getCondition()); d.t = bno[b.getSuccessor(0)]; d.f = bno[b.getSuccessor(1)]; }
				else { d.t = bno[b.getSuccessor(0)]; d.f = -1; }
				break;
			}
			case Instruction::Switch: {
				auto &sw = cast<SwitchInst>(I);
				d.a = opnd(sw.getCondition());
				d.w = widthOf(sw.getCondition()->getType());
				d.f = bno[sw.getDefaultDest()];
				for (auto &c : sw.cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bno[c.getCaseSuccessor()]});
				break;
			}
			case Instruction::Ret: {
				auto &r = cast<ReturnInst>(I);
				if (r.getReturnValue()) {
					unsigned n = nslots(r.getReturnValue()->getType());
					if (n > 1) {
						if (auto *c = dyn_cast<Constant>(r.getReturnValue())) {
							std::vector<V> vs; constScalars(c, c->getType(), vs);
							for (auto v : vs) { Opnd o; o.cst = true; o.c = v; o.slot = -1; d.ops.push_back(o); }
						} else {
							Opnd o = opnd(r.getReturnValue());
							for (unsigned i = 0; i < n; i++) { d.ops.push_back(o); o.slot++; }
						}
					} else d.ops.push_back(opnd(r.getReturnValue()));
				}
				break;
			}
			case Instruction::Unreachable: break;
			case Instruction::Alloca: {
				auto &a = cast<AllocaInst>(I);
				d.off = (int64_t)(uint64_t)DL->getTypeAllocSize(a.getAllocatedType());
				d.a = opnd(a.getArraySize());
				d.w = widthOf(a.getArraySize()->getType());
				break;
			}
			case Instruction::Load:
				d.a = opnd(I.getOperand(0));
				layout(I.getType(), 0, d.lay);
				for (auto &l : d.lay) if (l.second == 0 || l.second > 64) die("load type in " + F->getName().str());
				break;
			case Instruction::Store: {
				Type *t = I.getOperand(0)->getType();
				layout(t, 0, d.lay);
				for (auto &l : d.lay) if (l.second == 0 || l.second > 64) die("store type in " + F->getName().str());
				if (d.lay.size() > 1 && isa<Constant>(I.getOperand(0))) {
					std::vector<V> vs; constScalars(cast<Constant>(I.getOperand(0)), t, vs);
					for (auto v : vs) { Opnd o; o.cst = true; o.c = v; o.slot = -1; d.ops.push_back(o); }
				} else {
					Opnd o = opnd(I.getOperand(0));
					for (size_t i = 0; i < d.lay.size(); i++) { d.ops.push_back(o); o.slot++; }
				}
				d.b = opnd(I.getOperand(1));
				break;
			}
			case Instruction::GetElementPtr: {
				auto &g = cast<GetElementPtrInst>(I);
				d.a = opnd(g.getPointerOperand());
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
					if (StructType *st = gi.getStructTypeOrNull()) {
						unsigned k = (unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue();
						d.off += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset(k);
					} else {
						int64_t sz = (int64_t)(uint64_t)DL->getTypeAllocSize(gi.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) d.off += sz * ci->getSExtValue();
						else { d.idx.push_back({opnd(gi.getOperand()), sz}); d.idxw.push_back(widthOf(gi.getOperand()->getType())); }
					}
				}
				break;
			}
			case Instruction::Call: {
				auto &c = cast<CallInst>(I);
				if (c.isInlineAsm()) {
					// an empty template is a compiler barrier: no effect, and a tied operand comes back as it went in
					auto *ia = cast<InlineAsm>(c.getCalledOperand());
					d.builtin = -1;
					if (ia->getAsmString().empty()) {
						if (I.getType()->isVoidTy()) d.builtin = -2;
						else if (c.arg_size() == 1 && c.getArgOperand(0)->getType() == I.getType() && nslots(I.getType()) == 1) { d.builtin = -3; d.a = opnd(c.getArgOperand(0)); }
					}
					break;
				}
				for (auto &A : c.args()) {
					unsigned n = nslots(A->getType());
					(void)n;
					d.ops.push_back(opnd(A.get()));
					d.argw.push_back(widthOf(A->getType()));
				}
				if (Function *cf = c.getCalledFunction()) { d.callee = funcs[cf]; }
				else if (auto *g = dyn_cast<GlobalAlias>(c.getCalledOperand()->stripPointerCasts())) d.callee = funcs[cast<Function>(g->getAliaseeObject())];
				else if (auto *f2 = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())) d.callee = funcs[f2];
				else d.a = opnd(c.getCalledOperand());
				break;
			}
			case Instruction::ExtractValue: {
				auto &e = cast<ExtractValueInst>(I);
				Type *t = e.getAggregateOperand()->getType();
				unsigned k = 0;
				for (unsigned x : e.indices()) {
					if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < x; i++) k += nslots(st->getElementType(i)); t = st->getElementType(x); }
					else { auto *at = cast<ArrayType>(t); k += x * nslots(at->getElementType()); t = at->getElementType(); }
				}
				d.a = opnd(e.getAggregateOperand());
				if (d.a.cst) { std::vector<V> vs; constScalars(cast<Constant>(e.getAggregateOperand()), e.getAggregateOperand()->getType(), vs); d.a.c = vs[k]; }
				else d.a.slot += (int)k;
				d.t = (int)nslots(I.getType());
				break;
			}
			case Instruction::InsertValue: {
				auto &e = cast<InsertValueInst>(I);
				Type *t = e.getAggregateOperand()->getType();
				unsigned k = 0;
				for (unsigned x : e.indices()) {
					if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < x; i++) k += nslots(st->getElementType(i)); t = st->getElementType(x); }
					else { auto *at = cast<ArrayType>(t); k += x * nslots(at->getElementType()); t = at->getElementType(); }
				}
				d.a = opnd(e.getAggregateOperand());
				d.b = opnd(e.getInsertedValueOperand());
				d.t = (int)k; d.f = (int)nslots(I.getType());
				break;
			}
			default:
				if (I.getNumOperands() > 0) { d.a = opnd(I.getOperand(0)); d.w = widthOf(I.getOperand(0)->getType()); }
				if (I.getNumOperands() > 1) d.b = opnd(I.getOperand(1));
				if (I.getNumOperands() > 2) d.c = opnd(I.getOperand(2));
				if (isa<SelectInst>(I)) d.w = widthOf(I.getType());
				if (d.w == 0 || d.w > 64) die(std::string("type of ") + I.getOpcodeName() + " in " + F->getName().str());
			}
			db.ins.push_back(d);
		}
	}
}

// ------------------------------------------------------------ interpreter
enum Res { R_NEXT, R_JUMPED, R_END };

static inline V val(Frame &f, const Opnd &o) { return o.cst ? o.c : f.regs[o.slot]; }

static void jump(State &s, Frame &f, int to)
{
	DBlock &db = f.f->blocks[to];
	if (!db.phi.empty()) {
		auto it = db.phi.find(f.blk);
		if (it != db.phi.end()) {
			auto &v = it->second;
			if (v.size() == 1) { V x = val(f, v[0].second); f.regs[v[0].first] = x; }
			else {
				std::vector<V> t;
				t.reserve(v.size());
				for (auto &p : v) t.push_back(val(f, p.second));
				for (size_t i = 0; i < v.size(); i++) f.regs[v[i].first] = t[i];
			}
		}
	}
	f.blk = to;
	f.ip = 0;
}

static bool readStr(State &s, uint64_t a, std::string &out)
{
	for (;;) {
		uint64_t id = (a >> 24) - 1;
		if ((a >> 24) == 0 || id >= s.nobj) return false;
		Obj *o = s.rd((uint32_t)id);
		uint64_t off = a - o->base;
		if (off >= o->size || (!o->s.empty() && o->s[off].e)) return false;
		if (!o->d[off]) return true;
		out += (char)o->d[off];
		a++;
	}
}

static void endPath(State &s, bool normal)
{
	S.paths++;
	if (normal && optLeak)
		for (uint32_t i = 0; i < s.nobj; i++) {
			Obj *o = s.rd(i);
			if (o->kind == K_HEAP && o->alive && !o->leakok)
				fail(s, "leak", "memory leak (allocated at " + loc(o->site) + ")", s.model);
		}
	bool want = samples.size() < 24 && (S.paths < 8 || (S.paths & (S.paths - 1)) == 0 || S.paths % 997 == 0);
	std::vector<uint64_t> in;
	std::vector<std::string> tags;
	for (auto p = s.tags; p; p = p->prev) tags.push_back(p->tag);
	bool un = false;
	/* Natively, memory that was never written is filled with zeros. */
	for (size_t i = 0; i < s.vars.size(); i++) if (s.vars[i].uninit && i < s.model.size() && s.model[i] != 0) un = true;
	for (auto &t : tags)
		if (!reached.count(t)) {
			if (in.empty()) in = inputs(s, s.model);
			reached[t] = in;
		}
	if (want && !un) {
		if (in.empty()) in = inputs(s, s.model);
		samples.push_back({in, s.checks, tags});
	}
}

static void pushCall(State &s, DFunc *df, const std::vector<V> &args, const std::vector<unsigned> &argw)
{
	decode(df);
	df->executed = true;
	Frame nf;
	nf.f = df; nf.blk = 0; nf.ip = 0;
	nf.regs.resize(df->nslots);
	size_t n = df->argslot.size();
	for (size_t i = 0; i < args.size(); i++) {
		if (i < n) nf.regs[df->argslot[i]] = args[i];
		else { nf.va.push_back(args[i]); nf.vaw.push_back(argw[i]); }
	}
	s.fr.push_back(std::move(nf));
}

// returns R_NEXT when the instruction is complete, R_JUMPED when control moved, R_END when the path is over
static Res doCall(State &s, Frame &f, DInst &d)
{
	if (d.builtin == -2) return R_NEXT;
	if (d.builtin == -3) { f.regs[d.dst] = val(f, d.a); return R_NEXT; }
	if (d.builtin == -1) { unmodelled.insert("inline assembly in " + f.f->name); S.killed++; return R_END; }
	DFunc *df = d.callee;
	if (!df) {
		uint64_t a;
		V v = val(f, d.a);
		if (!conc(s, v, 64, a)) return R_END;
		auto it = byaddr.find(a);
		if (it == byaddr.end()) { fail(s, "memory", "call of an invalid function pointer", s.model); return R_END; }
		df = it->second;
	}
	int bi = df->builtin;
	auto A = [&](size_t i) { return val(f, d.ops[i]); };
	if (df->hasBody) {
		if (df->fast) {
			const std::string &n = df->name;
			uint64_t x, y, z;
			V a0 = simp(s, A(0)), a1 = d.ops.size() > 1 ? simp(s, A(1)) : V(0), a2 = d.ops.size() > 2 ? simp(s, A(2)) : V(0);
			if (n == "memcpy" || n == "memmove") {
				if (a0.conc() && a1.conc() && a2.conc()) {
					if (!copyBytes(s, a0.c, a1.c, a2.c)) return R_END;
					if (d.dst >= 0) f.regs[d.dst] = a0;
					return R_NEXT;
				}
			} else if (n == "memset") {
				if (a0.conc() && a1.conc() && a2.conc()) {
					if (a2.c) {
						uint64_t off;
						Obj *o = resolve(s, a0.c, a2.c, true, off, "write");
						if (!o) return R_END;
						for (uint64_t i = 0; i < a2.c; i++) { o->d[off + i] = (uint8_t)a1.c; if (!o->s.empty()) o->s[off + i].e = nullptr; }
					}
					if (d.dst >= 0) f.regs[d.dst] = a0;
					return R_NEXT;
				}
			} else if (n == "strlen") {
				std::string str;
				if (a0.conc() && readStr(s, a0.c, str)) { if (d.dst >= 0) f.regs[d.dst] = V((uint64_t)str.size()); return R_NEXT; }
			}
			(void)x; (void)y; (void)z;
		}
		if (s.fr.size() > 400) { fail(s, "recursion", "recursion too deep", s.model); return R_END; }
		std::vector<V> args;
		for (size_t i = 0; i < d.ops.size(); i++) args.push_back(A(i));
		auto &cb = cast<CallBase>(*d.I);
		for (size_t i = 0; i < args.size(); i++)
			if (cb.isByValArgument((unsigned)i)) {
				uint64_t p, sz = DL->getTypeAllocSize(cb.getParamByValType((unsigned)i));
				if (!conc(s, args[i], 64, p)) return R_END;
				uint32_t id = s.add(sz, K_STACK, false, d.I);
				if (!copyBytes(s, addrOf(id), p, sz)) return R_END;
				args[i] = V(addrOf(id));
			}
		f.ip++; // return here
		pushCall(s, df, args, d.argw);
		return R_JUMPED;
	}
	uint64_t x, y, n;
	switch (bi) {
	case BI_NOP: return R_NEXT;
	case BI_MALLOC: case BI_CALLOC: {
		if (!conc(s, A(0), 64, n)) return R_END;
		if (bi == BI_CALLOC) { if (!conc(s, A(1), 64, y)) return R_END; n *= y; }
		if (n > (1u << 20)) { inconclusive = "allocation of " + std::to_string(n) + " bytes at " + where(s); return R_END; }
		uint32_t id = s.add(n, K_HEAP, bi == BI_CALLOC, d.I);
		f.regs[d.dst] = V(addrOf(id));
		return R_NEXT;
	}
	case BI_REALLOC: {
		if (!conc(s, A(0), 64, x) || !conc(s, A(1), 64, n)) return R_END;
		if (n > (1u << 20)) { inconclusive = "allocation of " + std::to_string(n) + " bytes"; return R_END; }
		uint32_t id = s.add(n, K_HEAP, false, d.I);
		if (x) {
			uint64_t off;
			Obj *o = resolve(s, x, 0, false, off, "realloc");
			if (!o) return R_END;
			if (off || o->kind != K_HEAP) { fail(s, "memory", "realloc of a pointer not from malloc", s.model); return R_END; }
			if (!copyBytes(s, addrOf(id), x, std::min(n, o->size))) return R_END;
			o = s.wr((uint32_t)((x >> 24) - 1));
			o->alive = false;
		}
		f.regs[d.dst] = V(addrOf(id));
		return R_NEXT;
	}
	case BI_FREE: {
		if (!conc(s, A(0), 64, x)) return R_END;
		if (!x) return R_NEXT;
		uint64_t off, id = (x >> 24) - 1;
		if ((x >> 24) == 0 || id >= s.nobj) { fail(s, "memory", "free of an invalid pointer", s.model); return R_END; }
		Obj *o = s.rd((uint32_t)id);
		off = x - o->base;
		if (o->kind != K_HEAP || off) { fail(s, "memory", "free of a pointer not from malloc", s.model); return R_END; }
		if (!o->alive) { fail(s, "memory", "double free", s.model); return R_END; }
		o = s.wr((uint32_t)id);
		o->alive = false;
		return R_NEXT;
	}
	case BI_LEAKOK: {
		if (!conc(s, A(0), 64, x)) return R_END;
		uint64_t id = (x >> 24) - 1;
		if ((x >> 24) && id < s.nobj) s.wr((uint32_t)id)->leakok = true;
		return R_NEXT;
	}
	case BI_VALID: { // is [p, p+n) readable?
		if (!conc(s, A(0), 64, x) || !conc(s, A(1), 64, n)) return R_END;
		uint64_t id = (x >> 24) - 1;
		bool ok = (x >> 24) && id < s.nobj;
		if (ok) { Obj *o = s.rd((uint32_t)id); uint64_t off = x - o->base; ok = o->alive && off <= o->size && n <= o->size - off; }
		f.regs[d.dst] = V((uint64_t)ok);
		return R_NEXT;
	}
	case BI_U8: case BI_U32: case BI_U64: case BI_RANGE: case BI_NZ: {
		V r;
		if (bi == BI_U8) { static const Dom full = Dom::upto(255); r = V(freshVar(s, 8, &full, false)); }
		else if (bi == BI_NZ) { Dom dn = Dom::upto(255); dn.w[0] &= ~1ull; r = V(freshVar(s, 8, &dn, false)); }
		else if (bi == BI_U32) r = V(freshVar(s, 32, nullptr, false));
		else if (bi == BI_U64) r = V(freshVar(s, 64, nullptr, false));
		else {
			if (!conc(s, A(0), 64, n)) return R_END;
			if (n == 0) r = V(0);
			else if (n < 256) { Dom dn = Dom::upto((unsigned)n); unsigned w = n < 2 ? 1 : 8; r = B.cast(E_ZEXT, V(freshVar(s, w, &dn, false)), w, 64); }
			else {
				r = V(freshVar(s, 64, nullptr, false));
				constrain(s, B.bin(E_ULE, r, V(n), 64), true, nullptr);
			}
		}
		auto l = std::make_shared<InLog>();
		l->prev = s.in; l->e = r.e; l->c = r.c;
		s.in = l;
		f.regs[d.dst] = r;
		return R_NEXT;
	}
	case BI_CHECK: {
		V c = A(0);
		s.checks++;
		S.checks++;
		std::string msg;
		if (!simp(s, A(1)).conc() || !readStr(s, simp(s, A(1)).c, msg)) msg = "?";
		checkSites.insert(msg + "@" + loc(d.I));
		unsigned w = d.argw[0];
		V t = w == 1 ? c : B.lnot(B.bin(E_EQ, c, V(0), w));
		std::vector<uint64_t> mt, mf;
		if (!simp(s, t).conc()) S.checkq++;
		int r = decide(s, t, &mt, &mf);
		if (r & 2) fail(s, "check", msg, mf);
		if (!(r & 1)) return R_END;
		if (r == 3) constrain(s, t, true, &mt);
		return R_NEXT;
	}
	case BI_ASSUME: {
		V c = A(0);
		V t = d.argw[0] == 1 ? c : B.lnot(B.bin(E_EQ, c, V(0), d.argw[0]));
		std::vector<uint64_t> mt, mf;
		int r = decide(s, t, &mt, &mf);
		if (!(r & 1)) return R_END;
		constrain(s, t, true, &mt);
		return R_NEXT;
	}
	case BI_REACH: {
		std::string msg;
		readStr(s, simp(s, A(0)).c, msg);
		static std::set<std::string> names;
		auto t = std::make_shared<TagLog>();
		t->prev = s.tags; t->tag = names.insert(msg).first->c_str();
		s.tags = t;
		return R_NEXT;
	}
	case BI_STOP: endPath(s, false); return R_END;
	case BI_SPAWN: { // a new context that will run the function
		if (!conc(s, A(0), 64, x)) return R_END;
		auto it = byaddr.find(x);
		if (it == byaddr.end()) { inconclusive = "a new context without a function"; return R_END; }
		if (s.co.empty()) s.co.resize(1);
		std::vector<Frame> keep;
		keep.swap(s.fr);
		pushCall(s, it->second, {}, {});
		s.co.push_back(std::move(s.fr));
		s.fr.swap(keep);
		s.fr.back().regs[d.dst] = V((uint64_t)(s.co.size() - 1));
		return R_NEXT;
	}
	case BI_SWITCH: {
		if (!conc(s, A(0), 32, x)) return R_END;
		if (x >= s.co.size() || (int)x == s.cur || s.co[x].empty()) return R_NEXT;
		s.fr.back().ip++;
		s.co[s.cur].swap(s.fr);
		s.fr.swap(s.co[x]);
		s.cur = (int)x;
		return R_JUMPED;
	}
	case BI_DONE:
		if (!conc(s, A(0), 32, x)) return R_END;
		f.regs[d.dst] = V((uint64_t)(x >= s.co.size() || ((int)x != s.cur && s.co[x].empty())));
		return R_NEXT;
	case BI_CONC: if (!conc(s, A(0), 64, x)) return R_END; f.regs[d.dst] = V(x); return R_NEXT;
	case BI_TRACE: return R_NEXT;
	case BI_TRAP: {
		static const char *k[] = {"", "", "", "", "signed add overflow", "", "", "", "shift out of range"};
		uint64_t kind = d.ops.empty() ? 0 : A(0).c;
		static const std::map<uint64_t, const char *> nm = {{0, "integer add overflow"}, {1, "builtin unreachable"}, {3, "integer division error"}, {5, "float cast overflow"}, {8, "implicit conversion"},
			{12, "integer multiplication overflow"}, {13, "integer negation overflow"}, {18, "array index out of bounds"}, {20, "shift out of bounds"}, {21, "integer subtraction overflow"}, {22, "type mismatch or null"}, {24, "vla bound"}};
		auto it = nm.find(kind);
		(void)k;
		fail(s, "ub", it != nm.end() ? it->second : "undefined behaviour " + std::to_string(kind), s.model);
		return R_END;
	}
	case BI_MEMCPY: {
		if (!conc(s, A(2), 64, n) || !conc(s, A(0), 64, x) || !conc(s, A(1), 64, y)) return R_END;
		if (!copyBytes(s, x, y, n)) return R_END;
		return R_NEXT;
	}
	case BI_MEMSET: {
		if (!conc(s, A(2), 64, n) || !conc(s, A(0), 64, x)) return R_END;
		if (n) {
			uint64_t off;
			Obj *o = resolve(s, x, n, true, off, "write");
			if (!o) return R_END;
			V v = A(1);
			for (uint64_t i = 0; i < n; i++) storeBytes(o, off + i, 1, v, 8);
		}
		return R_NEXT;
	}
	case BI_VASTART: {
		if (!conc(s, A(0), 64, x)) return R_END;
		uint32_t id = s.add(8 * f.va.size() + 8, K_STACK, true, d.I);
		f.allocas.push_back(id);
		Obj *o = s.wr(id);
		for (size_t i = 0; i < f.va.size(); i++) storeBytes(o, 8 * i, 8, f.va[i].conc() ? f.va[i] : f.vaw[i] < 64 ? B.cast(E_ZEXT, f.va[i], f.vaw[i], 64) : f.va[i], 64);
		uint64_t off;
		Obj *l = resolve(s, x, 24, true, off, "write");
		if (!l) return R_END;
		storeBytes(l, off, 4, V(48), 32);
		storeBytes(l, off + 4, 4, V(176), 32);
		storeBytes(l, off + 8, 8, V(addrOf(id)), 64);
		storeBytes(l, off + 16, 8, V(0), 64);
		return R_NEXT;
	}
	case BI_VACOPY:
		if (!conc(s, A(0), 64, x) || !conc(s, A(1), 64, y)) return R_END;
		return copyBytes(s, x, y, 24) ? R_NEXT : R_END;
	case BI_EXPECT: f.regs[d.dst] = A(0); return R_NEXT;
	case BI_ISCONST: f.regs[d.dst] = V(0); return R_NEXT;
	case BI_OBJSIZE: f.regs[d.dst] = V(maskw(widthOf(d.I->getType()))); return R_NEXT;
	case BI_STACKSAVE: f.regs[d.dst] = V(0); return R_NEXT;
	case BI_TLS: f.regs[d.dst] = A(0); return R_NEXT;
	case BI_FABS: { V v = A(0); f.regs[d.dst] = B.bin(E_AND, v, V(0x7fffffffffffffffull), 64); return R_NEXT; }
	case BI_FLOOR: { V v = simp(s, A(0)); if (!conc(s, v, 64, x)) return R_END; f.regs[d.dst] = V(dbits(std::floor(asd(x)))); return R_NEXT; }
	case BI_OVF: {
		StringRef nm = df->F->getName();
		unsigned w = d.argw[0];
		V a = A(0), b = A(1), r, o;
		bool sg = nm.starts_with("llvm.s");
		bool add = nm.contains("add"), sub = nm.contains("sub");
		Opc op = add ? E_ADD : sub ? E_SUB : E_MUL;
		r = B.bin(op, a, b, w);
		if (w <= 32) {
			V wa = B.cast(sg ? E_SEXT : E_ZEXT, a, w, 64), wb = B.cast(sg ? E_SEXT : E_ZEXT, b, w, 64);
			V wr = B.bin(op, wa, wb, 64);
			o = B.lnot(B.bin(E_EQ, wr, B.cast(sg ? E_SEXT : E_ZEXT, r, w, 64), 64));
		} else if (op == E_ADD) {
			if (sg) { // same signs, different result sign
				V x1 = B.bin(E_XOR, a, r, w), x2 = B.bin(E_XOR, b, r, w);
				o = B.bin(E_SLT, B.bin(E_AND, x1, x2, w), V(0), w);
			} else o = B.bin(E_ULT, r, a, w);
		} else if (op == E_SUB) {
			if (sg) { V x1 = B.bin(E_XOR, a, b, w), x2 = B.bin(E_XOR, a, r, w); o = B.bin(E_SLT, B.bin(E_AND, x1, x2, w), V(0), w); }
			else o = B.bin(E_ULT, a, b, w);
		} else if (a.conc() && b.conc()) {
			if (sg) { int64_t t; o = V((uint64_t)__builtin_mul_overflow((int64_t)a.c, (int64_t)b.c, &t)); }
			else { uint64_t t; o = V((uint64_t)__builtin_mul_overflow(a.c, b.c, &t)); }
		} else {
			// by division; the constant operand (if any) on the right
			if (a.conc()) std::swap(a, b);
			V z = B.bin(E_EQ, b, V(0), w);
			if (sg) {
				V q = B.bin(E_SDIV, r, b, w);
				V bad = B.lnot(B.bin(E_EQ, q, a, w));
				V m1 = B.bin(E_AND, B.bin(E_EQ, b, V(~0ull), w), B.bin(E_EQ, a, V(1ull << 63), w), 1);
				o = B.bin(E_AND, B.lnot(z), B.bin(E_OR, bad, m1, 1), 1);
			} else o = B.bin(E_AND, B.lnot(z), B.lnot(B.bin(E_EQ, B.bin(E_UDIV, r, b, w), a, w)), 1);
		}
		f.regs[d.dst] = r; f.regs[d.dst + 1] = o;
		return R_NEXT;
	}
	case BI_MINMAX: {
		StringRef nm = df->F->getName();
		unsigned w = d.argw[0];
		V a = A(0), b = d.ops.size() > 1 ? A(1) : V(0);
		if (nm.starts_with("llvm.abs")) f.regs[d.dst] = B.ite(B.bin(E_SLT, a, V(0), w), B.bin(E_SUB, V(0), a, w), a, w);
		else if (nm.starts_with("llvm.umin")) f.regs[d.dst] = B.ite(B.bin(E_ULT, a, b, w), a, b, w);
		else if (nm.starts_with("llvm.umax")) f.regs[d.dst] = B.ite(B.bin(E_ULT, a, b, w), b, a, w);
		else if (nm.starts_with("llvm.smin")) f.regs[d.dst] = B.ite(B.bin(E_SLT, a, b, w), a, b, w);
		else f.regs[d.dst] = B.ite(B.bin(E_SLT, a, b, w), b, a, w);
		return R_NEXT;
	}
	case BI_BSWAP: {
		unsigned w = d.argw[0];
		V a = A(0), r = B.extract(a, w, 0, 8);
		for (unsigned i = 1; i < w / 8; i++) r = B.concat(r, 8 * i, B.extract(a, w, 8 * i, 8), 8);
		f.regs[d.dst] = r;
		return R_NEXT;
	}
	case BI_BITS: {
		unsigned w = d.argw[0];
		if (!conc(s, A(0), w, x)) return R_END;
		StringRef nm = df->F->getName();
		uint64_t r;
		if (nm.starts_with("llvm.ctpop")) r = (uint64_t)__builtin_popcountll(x);
		else if (nm.starts_with("llvm.ctlz")) r = x ? (uint64_t)__builtin_clzll(x) - (64 - w) : w;
		else r = x ? (uint64_t)__builtin_ctzll(x) : w;
		f.regs[d.dst] = V(r);
		return R_NEXT;
	}
	}
	unmodelled.insert(df->name + " (called at " + loc(d.I) + ")");
	S.killed++;
	return R_END;
}

static bool flagNSW = false;

static Res step(State &s)
{
	Frame &f = s.fr.back();
	DInst &d = f.f->blocks[f.blk].ins[f.ip];
	s.ninst++;
	S.insts++;
	switch (d.opc) {
	case Instruction::Br: {
		if (d.f < 0) { jump(s, f, d.t); return R_JUMPED; }
		V c = simp(s, val(f, d.a));
		if (c.conc()) { jump(s, f, c.c & 1 ? d.t : d.f); return R_JUMPED; }
		std::vector<uint64_t> mt, mf;
		int r = decide(s, c, &mt, &mf);
		if (r == 3) {
			auto n = forkState(s);
			constrain(*n, c, false, &mf);
			jump(*n, n->fr.back(), d.f);
			work.push_back(std::move(n));
			constrain(s, c, true, &mt);
			s.depth++;
			jump(s, s.fr.back(), d.t);
		} else
			jump(s, f, r == 1 ? d.t : d.f);
		return R_JUMPED;
	}
	case Instruction::Switch: {
		V c = simp(s, val(f, d.a));
		if (c.conc()) {
			for (auto &k : d.cases) if (k.first == c.c) { jump(s, f, k.second); return R_JUMPED; }
			jump(s, f, d.f);
			return R_JUMPED;
		}
		// one state per distinct target
		std::map<int, V> tg;
		V any = V(0);
		for (auto &k : d.cases) {
			V eq = B.bin(E_EQ, c, V(k.first), d.w);
			auto it = tg.find(k.second);
			if (it == tg.end()) tg[k.second] = eq; else it->second = B.bin(E_OR, it->second, eq, 1);
			any = B.bin(E_OR, any, eq, 1);
		}
		V def = B.lnot(any);
		auto itd = tg.find(d.f);
		if (itd == tg.end()) tg[d.f] = def; else itd->second = B.bin(E_OR, itd->second, def, 1);
		bool first = true;
		State orig(s);
		for (auto &p : tg) {
			std::vector<uint64_t> mt, mf;
			int r = decide(orig, p.second, &mt, &mf);
			if (!(r & 1)) continue;
			if (first) {
				constrain(s, p.second, true, &mt);
				jump(s, s.fr.back(), p.first);
				first = false;
			} else {
				auto n = forkState(orig);
				constrain(*n, p.second, true, &mt);
				jump(*n, n->fr.back(), p.first);
				work.push_back(std::move(n));
			}
		}
		return R_JUMPED;
	}
	case Instruction::Ret: {
		std::vector<V> r;
		for (auto &o : d.ops) r.push_back(val(f, o));
		for (auto id : f.allocas) s.wr(id)->alive = false;
		s.fr.pop_back();
		if (s.fr.empty() && s.cur != 0) { // back to the first context
			s.fr.swap(s.co[0]);
			s.cur = 0;
			return R_JUMPED;
		}
		if (s.fr.empty()) { endPath(s, true); return R_END; }
		Frame &p = s.fr.back();
		DInst &ci = p.f->blocks[p.blk].ins[p.ip - 1];
		if (ci.dst >= 0) for (size_t i = 0; i < r.size(); i++) p.regs[ci.dst + i] = r[i];
		return R_JUMPED;
	}
	case Instruction::Unreachable:
		fail(s, "ub", "unreachable code reached", s.model);
		return R_END;
	case Instruction::Alloca: {
		uint64_t n;
		if (!conc(s, val(f, d.a), d.w, n)) return R_END;
		uint32_t id = s.add(n * (uint64_t)d.off, K_STACK, false, d.I);
		f.allocas.push_back(id);
		f.regs[d.dst] = V(addrOf(id));
		return R_NEXT;
	}
	case Instruction::Load: {
		V p = simp(s, val(f, d.a));
		uint64_t a, off;
		if (!p.conc() && p.e->small() && d.lay.size() == 1) {
			// table lookup: every value of the index, all contents concrete
			Var &v = s.vars[p.e->var];
			unsigned w = d.lay[0].second, n = (w + 7) / 8;
			uint64_t t[256];
			bool ok = true;
			uint64_t dflt = 0; bool have = false;
			for (unsigned i = 0; i < (1u << p.e->vw) && ok; i++) {
				t[i] = 0;
				if (!v.dom.has(i)) continue;
				uint64_t ad = p.e->tab[i], id = (ad >> 24) - 1;
				if ((ad >> 24) == 0 || id >= s.nobj) { ok = false; break; }
				Obj *o = s.rd((uint32_t)id);
				uint64_t of = ad - o->base;
				if (!o->alive || of > o->size || n > o->size - of) { ok = false; break; }
				if (!o->s.empty()) for (unsigned k = 0; k < n; k++) if (o->s[of + k].e) ok = false;
				if (!ok) break;
				for (unsigned k = 0; k < n; k++) t[i] |= (uint64_t)o->d[of + k] << (8 * k);
				if (!have) { dflt = t[i]; have = true; }
			}
			if (ok) {
				for (unsigned i = 0; i < (1u << p.e->vw); i++) if (!v.dom.has(i)) t[i] = dflt;
				f.regs[d.dst] = B.table(p.e->var, p.e->vw, p.e->dom, w, t, p.e->uninit);
				return R_NEXT;
			}
		}
		if (!conc(s, p, 64, a)) return R_END;
		for (size_t i = 0; i < d.lay.size(); i++) {
			unsigned w = d.lay[i].second, n = (w + 7) / 8;
			Obj *o = resolve(s, a + d.lay[i].first, n, false, off, "read");
			if (!o) return R_END;
			V v = loadBytes(s, o, off, n);
			if (w < 8 * n) v = B.extract(v, 8 * n, 0, w);
			f.regs[d.dst + i] = v;
		}
		return R_NEXT;
	}
	case Instruction::Store: {
		uint64_t a, off;
		if (!conc(s, val(f, d.b), 64, a)) return R_END;
		for (size_t i = 0; i < d.lay.size(); i++) {
			unsigned w = d.lay[i].second, n = (w + 7) / 8;
			Obj *o = resolve(s, a + d.lay[i].first, n, true, off, "write");
			if (!o) return R_END;
			V v = val(f, d.ops[i]);
			storeBytes(o, off, n, v, w);
		}
		return R_NEXT;
	}
	case Instruction::GetElementPtr: {
		V p = val(f, d.a);
		if (d.off) p = B.bin(E_ADD, p, V((uint64_t)d.off), 64);
		for (size_t i = 0; i < d.idx.size(); i++) {
			V x = val(f, d.idx[i].first);
			unsigned w = d.idxw[i];
			if (w < 64) x = B.cast(E_SEXT, x, w, 64);
			p = B.bin(E_ADD, p, B.bin(E_MUL, x, V((uint64_t)d.idx[i].second), 64), 64);
		}
		f.regs[d.dst] = p;
		return R_NEXT;
	}
	case Instruction::ICmp: {
		V a = val(f, d.a), b = val(f, d.b), r;
		unsigned w = d.w;
		switch (cast<ICmpInst>(d.I)->getPredicate()) {
		case CmpInst::ICMP_EQ: r = B.bin(E_EQ, a, b, w); break;
		case CmpInst::ICMP_NE: r = B.lnot(B.bin(E_EQ, a, b, w)); break;
		case CmpInst::ICMP_ULT: r = B.bin(E_ULT, a, b, w); break;
		case CmpInst::ICMP_ULE: r = B.bin(E_ULE, a, b, w); break;
		case CmpInst::ICMP_UGT: r = B.bin(E_ULT, b, a, w); break;
		case CmpInst::ICMP_UGE: r = B.bin(E_ULE, b, a, w); break;
		case CmpInst::ICMP_SLT: r = B.bin(E_SLT, a, b, w); break;
		case CmpInst::ICMP_SLE: r = B.bin(E_SLE, a, b, w); break;
		case CmpInst::ICMP_SGT: r = B.bin(E_SLT, b, a, w); break;
		default: r = B.bin(E_SLE, b, a, w); break;
		}
		f.regs[d.dst] = r;
		return R_NEXT;
	}
	case Instruction::FCmp: {
		V a = val(f, d.a), b = val(f, d.b), r;
		if (d.w != 64) { inconclusive = "float comparison"; return R_END; }
		V uno = B.bin(E_FUNO, a, b, 64);
		switch (cast<FCmpInst>(d.I)->getPredicate()) {
		case CmpInst::FCMP_OEQ: r = B.bin(E_FOEQ, a, b, 64); break;
		case CmpInst::FCMP_UNE: r = B.lnot(B.bin(E_FOEQ, a, b, 64)); break;
		case CmpInst::FCMP_OLT: r = B.bin(E_FOLT, a, b, 64); break;
		case CmpInst::FCMP_OLE: r = B.bin(E_FOLE, a, b, 64); break;
		case CmpInst::FCMP_OGT: r = B.bin(E_FOLT, b, a, 64); break;
		case CmpInst::FCMP_OGE: r = B.bin(E_FOLE, b, a, 64); break;
		case CmpInst::FCMP_UGE: r = B.lnot(B.bin(E_FOLT, a, b, 64)); break;
		case CmpInst::FCMP_UGT: r = B.lnot(B.bin(E_FOLE, a, b, 64)); break;
		case CmpInst::FCMP_ULE: r = B.lnot(B.bin(E_FOLT, b, a, 64)); break;
		case CmpInst::FCMP_ULT: r = B.lnot(B.bin(E_FOLE, b, a, 64)); break;
		case CmpInst::FCMP_UNO: r = uno; break;
		case CmpInst::FCMP_ORD: r = B.lnot(uno); break;
		case CmpInst::FCMP_ONE: r = B.bin(E_AND, B.lnot(uno), B.lnot(B.bin(E_FOEQ, a, b, 64)), 1); break;
		case CmpInst::FCMP_UEQ: r = B.bin(E_OR, uno, B.bin(E_FOEQ, a, b, 64), 1); break;
		default: inconclusive = "fcmp"; return R_END;
		}
		f.regs[d.dst] = r;
		return R_NEXT;
	}
	case Instruction::Select: {
		V c = simp(s, val(f, d.a)), a = val(f, d.b), b = val(f, d.c);
		f.regs[d.dst] = B.ite(c, a, b, d.w);
		return R_NEXT;
	}
	case Instruction::Freeze: f.regs[d.dst] = val(f, d.a); return R_NEXT;
#define BIN(I_, O_) case Instruction::I_: f.regs[d.dst] = B.bin(O_, val(f, d.a), val(f, d.b), d.w); return R_NEXT;
	BIN(Add, E_ADD) BIN(Sub, E_SUB) BIN(Mul, E_MUL) BIN(And, E_AND) BIN(Or, E_OR) BIN(Xor, E_XOR)
	BIN(Shl, E_SHL) BIN(LShr, E_LSHR) BIN(AShr, E_ASHR)
	BIN(FAdd, E_FADD) BIN(FSub, E_FSUB) BIN(FMul, E_FMUL) BIN(FDiv, E_FDIV)
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		V b = simp(s, val(f, d.b));
		V z = B.bin(E_EQ, b, V(0), d.w);
		std::vector<uint64_t> mt, mf;
		int r = decide(s, z, &mt, &mf);
		if (r & 1) {
			fail(s, "ub", "division by zero", mt);
			if (r == 1) return R_END;
			constrain(s, z, false, &mf);
		}
		Opc o = d.opc == Instruction::UDiv ? E_UDIV : d.opc == Instruction::SDiv ? E_SDIV : d.opc == Instruction::URem ? E_UREM : E_SREM;
		f.regs[d.dst] = B.bin(o, val(f, d.a), b, d.w);
		return R_NEXT;
	}
	case Instruction::FNeg: f.regs[d.dst] = B.bin(E_XOR, val(f, d.a), V(1ull << 63), 64); return R_NEXT;
	case Instruction::ZExt: f.regs[d.dst] = B.cast(E_ZEXT, val(f, d.a), d.w, widthOf(d.I->getType())); return R_NEXT;
	case Instruction::SExt: f.regs[d.dst] = B.cast(E_SEXT, val(f, d.a), d.w, widthOf(d.I->getType())); return R_NEXT;
	case Instruction::Trunc: f.regs[d.dst] = B.extract(val(f, d.a), d.w, 0, widthOf(d.I->getType())); return R_NEXT;
	case Instruction::SIToFP: f.regs[d.dst] = B.cast(E_SITOFP, val(f, d.a), d.w, 64); return R_NEXT;
	case Instruction::UIToFP: f.regs[d.dst] = B.cast(E_UITOFP, val(f, d.a), d.w, 64); return R_NEXT;
	case Instruction::FPToSI: f.regs[d.dst] = B.cast(E_FPTOSI, val(f, d.a), 64, widthOf(d.I->getType())); return R_NEXT;
	case Instruction::FPToUI: f.regs[d.dst] = B.cast(E_FPTOUI, val(f, d.a), 64, widthOf(d.I->getType())); return R_NEXT;
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
		V v = val(f, d.a);
		unsigned to = widthOf(d.I->getType());
		if (to < d.w) v = B.extract(v, d.w, 0, to);
		else if (to > d.w) v = B.cast(E_ZEXT, v, d.w, to);
		f.regs[d.dst] = v;
		return R_NEXT;
	}
	case Instruction::FPExt: case Instruction::FPTrunc: {
		uint64_t x;
		if (!conc(s, val(f, d.a), d.w, x)) return R_END;
		if (d.opc == Instruction::FPExt) { float fl; uint32_t u = (uint32_t)x; memcpy(&fl, &u, 4); f.regs[d.dst] = V(dbits(fl)); }
		else { float fl = (float)asd(x); uint32_t u; memcpy(&u, &fl, 4); f.regs[d.dst] = V(u); }
		return R_NEXT;
	}
	case Instruction::ExtractValue:
		for (int i = 0; i < d.t; i++) f.regs[d.dst + i] = d.a.cst ? d.a.c : f.regs[d.a.slot + i];
		return R_NEXT;
	case Instruction::InsertValue:
		for (int i = 0; i < d.f; i++) f.regs[d.dst + i] = d.a.cst ? d.a.c : f.regs[d.a.slot + i];
		f.regs[d.dst + d.t] = val(f, d.b);
		return R_NEXT;
	case Instruction::Call: return doCall(s, f, d);
	case Instruction::AtomicRMW: case Instruction::Fence:
		if (d.opc == Instruction::Fence) return R_NEXT;
		break;
	}
	inconclusive = std::string("unsupported instruction ") + d.I->getOpcodeName() + " in " + f.f->name;
	return R_END;
}

static bool stopNow()
{
	return shm->stop || !inconclusive.empty() || now() > deadline;
}

static void run(State &s)
{
	uint64_t cnt = 0;
	for (;;) {
		Res r = step(s);
		if (r == R_NEXT) s.fr.back().ip++;
		else if (r == R_END) return;
		if ((++cnt & 0xffff) == 0 && stopNow()) {
			if (inconclusive.empty() && now() > deadline) inconclusive = "time limit reached";
			return;
		}
		if (s.ninst > maxInst) {
			fail(s, "steps", "does not terminate within " + std::to_string(maxInst) + " instructions", s.model);
			return;
		}
	}
}

// ------------------------------------------------------------ output
static void jstr(std::string &o, const std::string &s)
{
	o += '"';
	for (char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); o += b; }
		else o += c;
	}
	o += '"';
}
static void jvec(std::string &o, const std::vector<uint64_t> &v)
{
	o += '[';
	for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; o += std::to_string(v[i]); }
	o += ']';
}
static std::string report()
{
	std::string o = "{";
	auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, "\"%s\": %.17g, ", k, v); o += b; };
	num("paths", S.paths); num("insts", S.insts); num("forks", S.forks); num("queries", S.queries); num("z3queries", S.z3queries);
	num("cachehits", S.cachehits); num("domq", S.domq); num("checks", S.checks); num("checkq", S.checkq); num("killed", S.killed);
	num("solver_s", S.solver); num("crosschecked", S.xchk); num("maxdepth", S.maxdepth); num("maxcons", S.maxcons); num("left", work.size());
	o += "\"inconclusive\": "; jstr(o, inconclusive);
	o += ", \"fails\": [";
	for (size_t i = 0; i < fails.size(); i++) {
		if (i) o += ',';
		o += "{\"kind\": "; jstr(o, fails[i].kind); o += ", \"msg\": "; jstr(o, fails[i].msg); o += ", \"where\": "; jstr(o, fails[i].where);
		o += ", \"in\": "; jvec(o, fails[i].in); o += "}";
	}
	o += "], \"reached\": {";
	bool first = true;
	for (auto &p : reached) { if (!first) o += ','; first = false; jstr(o, p.first); o += ": "; jvec(o, p.second); }
	o += "}, \"samples\": [";
	for (size_t i = 0; i < samples.size(); i++) {
		if (i) o += ',';
		o += "{\"in\": "; jvec(o, samples[i].in); o += ", \"checks\": " + std::to_string(samples[i].checks) + ", \"tags\": [";
		for (size_t k = 0; k < samples[i].tags.size(); k++) { if (k) o += ','; jstr(o, samples[i].tags[k]); }
		o += "]}";
	}
	o += "], \"sites\": [";
	first = true;
	for (auto &x : checkSites) { if (!first) o += ','; first = false; jstr(o, x); }
	o += "], \"unmodelled\": [";
	first = true;
	for (auto &x : unmodelled) { if (!first) o += ','; first = false; jstr(o, x); }
	o += "], \"functions\": [";
	first = true;
	for (auto &p : funcs) if (p.second->executed) {
		if (!first) o += ','; first = false;
		std::string file = p.second->F->getSubprogram() ? p.second->F->getSubprogram()->getFilename().str() : "";
		jstr(o, file + ":" + p.second->name);
	}
	o += "]}";
	return o;
}

int main(int argc, char **argv)
{
	std::string file, entry = "vp_main";
	double limit = 600;
	unsigned qms = 60000;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(argv[++i]); };
		if (a == "-o") outdir = nx();
		else if (a == "-t") limit = atof(nx().c_str());
		else if (a == "-j") nworkers = (unsigned)atoi(nx().c_str());
		else if (a == "-leak") optLeak = true;
		else if (a == "-maxinst") maxInst = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "-split") maxSplit = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "-q") qms = (unsigned)atoi(nx().c_str());
		else file = a;
	}
	(void)flagNSW;
	t_start = now();
	deadline = t_start + limit;
	LLVMContext C;
	SMDiagnostic err;
	auto mod = parseIRFile(file, err, C);
	if (!mod) die("cannot read " + file);
	M = mod.get();
	DL = &M->getDataLayout();
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg);
	shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	auto st = std::make_unique<State>();
	uint64_t fa = 0x100000;
	for (auto &F : *M) {
		auto *d = new DFunc;
		d->F = &F; d->name = F.getName().str(); d->hasBody = !F.isDeclaration(); d->addr = fa;
		fa += 16;
		d->builtin = d->hasBody ? 0 : builtinOf(&F);
		d->fast = d->name == "memcpy" || d->name == "memmove" || d->name == "memset" || d->name == "strlen";
		funcs[&F] = d;
		byaddr[d->addr] = d;
		gaddr[&F] = d->addr;
	}
	std::vector<const GlobalVariable *> gs;
	for (auto &G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 16;
		uint32_t id = st->add(sz, K_GLOBAL, true, nullptr);
		gaddr[&G] = addrOf(id);
		gs.push_back(&G);
	}
	for (auto &A : M->aliases()) gaddr[&A] = 0;
	for (auto &A : M->aliases()) gaddr[&A] = gaddr[cast<GlobalValue>(A.getAliaseeObject())];
	for (auto *G : gs) {
		uint32_t id = (uint32_t)((gaddr[G] >> 24) - 1);
		Obj *o = st->wr(id);
		if (G->hasInitializer()) initConst(o, 0, G->getInitializer());
		o->ro = G->isConstant();
	}
	Function *E = M->getFunction(entry);
	if (!E || E->isDeclaration()) die("no " + entry);

	auto mksolver = [&](const char *logic) {
		Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, logic));
		Z3_solver_inc_ref(Z, s);
		Z3_params p = Z3_mk_params(Z);
		Z3_params_inc_ref(Z, p);
		Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qms);
		Z3_solver_set_params(Z, s, p);
		return s;
	};
	solver = mksolver("QF_BV");
	fsolver = mksolver("QF_FPBV");

	pushCall(*st, funcs[E], {}, {});
	work.push_back(std::move(st));
	// breadth first until there is enough to share
	std::deque<std::unique_ptr<State>> q;
	q.push_back(std::move(work.back()));
	work.clear();
	size_t want = nworkers > 1 ? nworkers * 64 : 0;
	double bfsEnd = now() + 20;
	while (!q.empty() && !stopNow() && nworkers > 1 && q.size() < want && now() < bfsEnd) {
		auto s = std::move(q.front());
		q.pop_front();
		run(*s);
		for (auto &w : work) q.push_back(std::move(w));
		work.clear();
		if (fails.size() >= 4) break;
	}
	bool failedEarly = fails.size() >= 4;
	if (q.empty() || stopNow() || failedEarly || nworkers <= 1) {
		for (auto &x : q) work.push_back(std::move(x));
		while (!work.empty() && !stopNow() && fails.size() < 4) {
			auto s = std::move(work.back());
			work.pop_back();
			run(*s);
		}
		if (!work.empty() && fails.empty() && inconclusive.empty()) inconclusive = "time limit reached";
		printf("[%s]\n", report().c_str());
		fflush(stdout);
		_exit(0);
	}
	std::vector<std::unique_ptr<State>> init;
	for (auto &x : q) init.push_back(std::move(x));
	q.clear();
	std::vector<pid_t> pids;
	std::vector<std::string> files;
	std::string base = outdir.empty() ? "/tmp/vpsym." + std::to_string(getpid()) : outdir + "/part";
	std::string mine = report();
	for (unsigned w = 0; w < nworkers; w++) {
		std::string fn = base + "." + std::to_string(w);
		files.push_back(fn);
		pid_t p = fork();
		if (p == 0) {
			S = Stats(); fails.clear(); failKeys.clear(); samples.clear(); reached.clear(); checkSites.clear(); unmodelled.clear();
			double firstFail = 0;
			for (;;) {
				uint64_t i = __sync_fetch_and_add(&shm->next, 1);
				if (i >= init.size()) break;
				work.push_back(std::move(init[i]));
				while (!work.empty() && !stopNow()) {
					auto s = std::move(work.back());
					work.pop_back();
					run(*s);
					if (!fails.empty()) {
						if (!firstFail) firstFail = now();
						if (fails.size() >= 3 || now() - firstFail > 5) shm->stop = 1;
					}
				}
				if (stopNow()) break;
			}
			if (inconclusive.empty() && now() > deadline && fails.empty()) inconclusive = "time limit reached";
			if (!fails.empty()) shm->stop = 1;
			FILE *f = fopen(fn.c_str(), "w");
			std::string r = report();
			fwrite(r.data(), 1, r.size(), f);
			fclose(f);
			_exit(0);
		}
		pids.push_back(p);
	}
	bool crashed = false;
	for (auto p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) crashed = true; }
	std::string out = "[" + mine;
	for (auto &fn : files) {
		FILE *f = fopen(fn.c_str(), "r");
		if (!f) { crashed = true; continue; }
		out += ",\n";
		char b[65536];
		size_t n;
		while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
		fclose(f);
		unlink(fn.c_str());
	}
	if (crashed) out += ",{\"inconclusive\": \"a worker died\"}";
	out += "]";
	printf("%s\n", out.c_str());
	fflush(stdout);
	_exit(0);
}
