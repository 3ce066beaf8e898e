#include <cfloat>
// ccsx: a small symbolic executor for LLVM 18 bitcode, deciding every branch,
// assertion and memory-safety condition with Z3 over all input values.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace llvm;
typedef std::string str;

std::vector<VarInfo> g_vars;
static Exprs         X;

static double T0;
static double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
static struct {
	str      bc, out, entry = "vp_main";
	double   maxTime = 300;
	double   after = 1e9; /* time left once a violation is known */
	unsigned qTimeout = 20000;
	uint64_t maxSteps = 20000000;
	unsigned maxEnum = 64;
	uint64_t maxIte = 4096; // largest object read at a symbolic address without listing the addresses
	unsigned maxViol = 40;
	unsigned samples = 3;
	unsigned maxObjs = 40000;
	bool     overflow = false;
	bool     verbose = false;
	std::map<str, int64_t> params;
} O;

// ------------------------------------------------------------------ values
struct Val;
typedef std::vector<Val> AggV;
struct Val {
	const Node           *n = nullptr;
	uint64_t              c = 0;
	std::shared_ptr<AggV> agg;
	Val() {}
	explicit Val(uint64_t v) : c(v) {}
	explicit Val(const Node *x)
	{
		if (x->op == CONST) c = x->c;
		else n = x;
	}
};
static inline const Node *N(const Val &v, unsigned w) { return v.n ? v.n : X.cst(w, v.c); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_HEAP };
struct Obj {
	uint32_t rc = 0;
	uint64_t base, size;
	ObjKind  kind;
	bool     ro = false, freed = false;
	const Instruction *site = nullptr;
	str      name;
	std::vector<uint8_t>      b;  // concrete bytes
	std::vector<uint8_t>      st; // 0 concrete 1 symbolic 2 uninitialised
	std::vector<const Node *> s;  // lazily sized
};
struct ORef {
	Obj *p = nullptr;
	ORef() {}
	ORef(Obj *o) : p(o) { if (p) p->rc++; }
	ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
	ORef(ORef &&o) : p(o.p) { o.p = nullptr; }
	~ORef() { drop(); }
	void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
	ORef &operator=(const ORef &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	ORef &operator=(ORef &&o) { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
	Obj *operator->() const { return p; }
	explicit operator bool() const { return p; }
};
struct MemEnt { uint64_t base, size; ORef o; };

// ------------------------------------------------------------------ code
struct Opnd { int reg = -1; Val c; uint8_t w = 64; };
struct KInst {
	const Instruction *I;
	unsigned           op;
	int                dest = -1;
	uint8_t            w = 0, kw = 0; // result width, operand width
	std::vector<Opnd>  ops;
	std::vector<uint64_t> scale; // GEP scales for ops[1..]
	uint64_t           off = 0;  // GEP const offset / alloca size
	std::vector<int>   succ;
	std::vector<uint64_t> cases;
	std::vector<uint64_t> byval; // per-argument byval size (0 none)
	bool               covered = false;
	int                builtin = 0;
	struct KFunc      *callee = nullptr;
};
struct KBlock {
	std::vector<KInst> in;
	std::map<int, std::vector<std::pair<int, Opnd>>> phis; // pred -> (dest, val)
	const BasicBlock *bb;
};
struct KFunc {
	const Function     *F;
	std::vector<KBlock> blocks;
	int                 nregs = 0;
	bool                executed = false, decoded = false;
	int                 builtin = 0;
	uint64_t            calls = 0;
};
struct Frame {
	KFunc           *f;
	int              block = 0, pc = 0;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	int              retDest = -1;
	uint64_t         va = 0; // variable arguments, 8 bytes each
};
struct Input { str name; std::vector<const Node *> bytes; };
struct State {
	std::vector<Frame>  stack;
	std::vector<MemEnt> mem;
	uint64_t            brk;
	std::vector<const Node *> pc;
	std::unordered_set<const Node *> pcset;
	Model               model;
	std::vector<Input>  inputs;
	std::set<str>       reached;
	uint64_t            steps = 0;
	int64_t             heapLive = 0;
	int64_t             failAlloc = -1;
	const Node         *failSym = nullptr; /* a symbolic position of the failure */
	int64_t             failBase = 0;
	int64_t             allocCount = 0;
	uint64_t            errnoAddr = 0;
};

static std::unique_ptr<Module> M;
static const DataLayout       *DL;
static std::unordered_map<const Function *, std::unique_ptr<KFunc>> kfuncs;
static std::unordered_map<uint64_t, KFunc *>                        faddr;
static std::unordered_map<const Value *, uint64_t>                  gaddr;
static std::vector<MemEnt> roMem; // constant globals, shared by all states

// ------------------------------------------------------------------ stats
static struct {
	uint64_t paths = 0, killed = 0, instrs = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, forks = 0;
	double   solverTime = 0, maxQuery = 0;
	std::map<str, uint64_t> reached;
	std::vector<str> incomplete;
	std::set<str>    incompleteSet;
} S;
static void incomplete(const str &why)
{
	if (S.incompleteSet.insert(why).second) S.incomplete.push_back(why);
}

// ------------------------------------------------------------------ solver
enum Res { UNSAT, SAT, UNKNOWN };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<str, CacheEnt> qcache;
static std::deque<std::vector<std::pair<uint32_t, uint64_t>>> recent;

static void slice(const State &st, const Node *cond, std::vector<const Node *> &out)
{
	// constraints transitively sharing variables with cond
	static std::vector<uint32_t> mark;
	static uint32_t              gen = 0;
	gen++;
	if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 256, 0);
	for (auto v : *cond->vs) mark[v] = gen;
	std::vector<char> in(st.pc.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < st.pc.size(); i++) {
			if (in[i]) continue;
			bool hit = false;
			for (auto v : *st.pc[i]->vs) if (mark[v] == gen) { hit = true; break; }
			if (!hit) continue;
			in[i] = 1; ch = true;
			for (auto v : *st.pc[i]->vs) mark[v] = gen;
		}
	}
	for (size_t i = 0; i < st.pc.size(); i++) if (in[i]) out.push_back(st.pc[i]);
}

static Res z3check(const std::vector<const Node *> &cs, std::vector<std::pair<uint32_t, uint64_t>> &m)
{
	bool fp = false;
	std::set<uint32_t> vars;
	for (auto c : cs) { fp |= c->hasFP; for (auto v : *c->vs) vars.insert(v); }
	Z3_context ctx = X.ctx;
	static Z3_tactic tf, tb;
	if (!tb) {
		auto T = [&](const char *n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; };
		auto A = [&](Z3_tactic x, Z3_tactic y) { Z3_tactic t = Z3_tactic_and_then(ctx, x, y); Z3_tactic_inc_ref(ctx, t); return t; };
		tb = A(T("simplify"), A(T("propagate-values"), A(T("solve-eqs"), A(T("bit-blast"), T("sat")))));
		tf = A(T("simplify"), A(T("propagate-values"), A(T("fpa2bv"), A(T("simplify"), A(T("propagate-values"), A(T("solve-eqs"), A(T("bit-blast"), T("sat"))))))));
	}
	Z3_solver s = Z3_mk_solver_from_tactic(ctx, fp ? tf : tb);
	Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx);
	Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), O.qTimeout);
	Z3_solver_set_params(ctx, s, p);
	for (auto c : cs) Z3_solver_assert(ctx, s, X.boolOf(c));
	double  t0 = now();
	Z3_lbool r = Z3_solver_check(ctx, s);
	double  dt = now() - t0;
	S.queries++; S.solverTime += dt; S.maxQuery = std::max(S.maxQuery, dt);
	Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
	if (O.verbose && dt > 1.0) fprintf(stderr, "slow query %.2fs res=%d fp=%d nvars=%zu\n", dt, res, fp, vars.size());
	static const char *dumpd = getenv("CCSX_DUMP");
	if (dumpd && dt > atof(dumpd)) {
		static int k = 0;
		std::ofstream of("/tmp/q" + std::to_string(k++) + ".smt2");
		of << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
	}
	if (res == SAT) {
		Z3_model zm = Z3_solver_get_model(ctx, s);
		Z3_model_inc_ref(ctx, zm);
		for (auto v : vars) {
			Z3_ast a;
			uint64_t val = 0;
			if (Z3_model_eval(ctx, zm, X.varAst[v], true, &a)) Z3_get_numeral_uint64(ctx, a, &val);
			m.push_back({v, val});
		}
		Z3_model_dec_ref(ctx, zm);
		// cross-check the solver's model against the native evaluator
		Model mm(g_vars.size(), 0);
		for (auto &kv : m) mm[kv.first] = kv.second;
		for (auto c : cs)
			if (!X.eval(c, mm)) { incomplete("solver model disagrees with native evaluation"); res = UNKNOWN; m.clear(); break; }
	}
	Z3_params_dec_ref(ctx, p);
	Z3_solver_dec_ref(ctx, s);
	if (res == SAT) S.sat++; else if (res == UNSAT) S.unsat++; else S.unknown++;
	return res;
}

// feasibility of pc && cond; on SAT `out` is a full model
static Res solve(const State &st, const Node *cond, Model &out)
{
	if (cond->op == CONST) { out = st.model; return cond->c ? SAT : UNSAT; }
	if (X.eval(cond, st.model)) { out = st.model; S.modelHits++; return SAT; }
	if (st.pcset.count(cond)) { out = st.model; return SAT; }
	std::vector<const Node *> cs;
	slice(st, cond, cs);
	cs.push_back(cond);
	std::sort(cs.begin(), cs.end(), [](const Node *a, const Node *b) { return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	str key((size_t)cs.size() * 4, 0);
	for (size_t i = 0; i < cs.size(); i++) memcpy(&key[i * 4], &cs[i]->id, 4);
	auto it = qcache.find(key);
	if (it == qcache.end()) {
		CacheEnt e;
		bool done = false;
		for (auto &rm : recent) {
			Model m = st.model;
			if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0);
			for (auto &kv : rm) m[kv.first] = kv.second;
			bool ok = X.eval(cond, m);
			if (!ok) continue;
			for (auto c : cs) if (!X.eval(c, m)) { ok = false; break; }
			if (ok) {
				std::set<uint32_t> vars;
				for (auto c : cs) for (auto v : *c->vs) vars.insert(v);
				for (auto v : vars) e.m.push_back({v, m[v]});
				e.r = SAT; done = true; S.modelHits++;
				break;
			}
		}
		if (!done) {
			e.r = z3check(cs, e.m);
			if (e.r == SAT) { recent.push_front(e.m); if (recent.size() > 12) recent.pop_back(); }
		}
		it = qcache.emplace(key, std::move(e)).first;
	} else S.cacheHits++;
	if (it->second.r == SAT) {
		out = st.model;
		if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0);
		for (auto &kv : it->second.m) out[kv.first] = kv.second;
	}
	return it->second.r;
}
static void addPC(State &st, const Node *c)
{
	if (c->op == CONST) return;
	if (c->op == AND && c->w == 1) { addPC(st, c->k[0]); addPC(st, c->k[1]); return; }
	if (st.pcset.insert(c).second) st.pc.push_back(c);
}

// ------------------------------------------------------------------ violations
struct Viol { str kind, msg, loc; std::vector<str> stack; std::vector<std::pair<str, std::vector<uint8_t>>> inputs; };
static std::vector<Viol>   viols;
static std::map<str, int>  violKeys;
static std::vector<std::vector<std::pair<str, std::vector<uint8_t>>>> samplePaths;

static str locOf(const Instruction *I)
{
	if (!I) return "?";
	str fn = I->getFunction()->getName().str();
	if (const DILocation *L = I->getDebugLoc().get()) {
		str f = L->getFilename().str();
		size_t p = f.rfind('/');
		if (p != str::npos) f = f.substr(p + 1);
		return fn + " (" + f + ":" + std::to_string(L->getLine()) + ")";
	}
	return fn;
}
static std::vector<std::pair<str, std::vector<uint8_t>>> concreteInputs(const State &st, const Model &m)
{
	std::vector<std::pair<str, std::vector<uint8_t>>> r;
	for (auto &in : st.inputs) {
		std::vector<uint8_t> bs;
		for (auto n : in.bytes) bs.push_back((uint8_t)X.eval(n, m));
		r.push_back({in.name, bs});
	}
	return r;
}
static void report(State &st, const Model &m, const str &kind, const str &msg)
{
	Frame &f = st.stack.back();
	const Instruction *I = f.f->blocks[f.block].in[f.pc].I;
	str loc = locOf(I);
	str key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
	if (violKeys[key]++) return;
	Viol v;
	v.kind = kind; v.msg = msg; v.loc = loc;
	for (int i = (int)st.stack.size() - 1; i >= 0; i--) {
		Frame &g = st.stack[i];
		v.stack.push_back(locOf(g.f->blocks[g.block].in[std::min((size_t)g.pc, g.f->blocks[g.block].in.size() - 1)].I));
	}
	v.inputs = concreteInputs(st, m);
	if (O.verbose) {
		fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
		for (auto &s : v.stack) fprintf(stderr, "    %s\n", s.c_str());
		for (auto &in : v.inputs) { fprintf(stderr, "  %s=", in.first.c_str()); for (auto b : in.second) fprintf(stderr, "%02x", b); fprintf(stderr, "\n"); }
	}
	if (viols.empty()) O.maxTime = std::min(O.maxTime, now() - T0 + O.after);
	viols.push_back(v);
}

// ------------------------------------------------------------------ state helpers
struct PathEnd {};          // path terminated
struct Retry {};            // re-execute current instruction (state was forked)
struct Fatal { str s; };
static std::vector<State *> work;
static State *cur;

static void stTouch(State &st) { if (st.model.size() < g_vars.size()) st.model.resize(g_vars.size(), 0); }

static const Node *renameUndef(const Node *n, std::unordered_map<const Node *, const Node *> &map)
{
	if (!n->hasUndef) return n;
	auto it = map.find(n);
	if (it != map.end()) return it->second;
	const Node *r;
	if (n->op == VAR) r = X.var(n->w, g_vars[n->c].name + "'", true);
	else {
		const Node *k[3];
		for (int i = 0; i < 3; i++) k[i] = n->k[i] ? renameUndef(n->k[i], map) : nullptr;
		r = X.mk(n->op, n->w, n->c, k[0], k[1], k[2]);
	}
	return map[n] = r;
}
// an observable decision on `cond` that depends on uninitialised data
static void checkUndef(State &st, const Node *cond, const char *what)
{
	if (!cond->hasUndef) return;
	std::unordered_map<const Node *, const Node *> map;
	const Node *c2 = renameUndef(cond, map);
	const Node *q = X.bin(XOR, cond, c2);
	if (cond->w != 1) q = X.notE(X.bin(EQ, cond, c2));
	// renamed copies of the constraints that mention undefined data
	for (auto p : st.pc) if (p->hasUndef) q = X.andE(q, renameUndef(p, map));
	stTouch(st);
	Model m;
	Res r = solve(st, q, m);
	if (r == SAT) report(st, m, "uninit", str(what) + " depends on uninitialised memory");
	else if (r == UNKNOWN) incomplete("solver timeout (uninit check)");
}

static State *fork(State &st) { S.forks++; return new State(st); }

// Decide `cond` on the current state: returns the branch taken by the current
// state; the other feasible one is queued with `other` applied to the clone.
static bool decide(State &st, const Node *cond, const std::function<void(State &, bool)> &onOther, const char *what)
{
	if (cond->op == CONST) return cond->c;
	checkUndef(st, cond, what);
	stTouch(st);
	if (st.pcset.count(cond)) return true;
	const Node *nc = X.notE(cond);
	if (st.pcset.count(nc)) return false;
	bool d = X.eval(cond, st.model);
	Model m;
	Res   r = solve(st, d ? nc : cond, m);
	if (r == UNKNOWN) incomplete(str("solver timeout at ") + locOf(st.stack.back().f->blocks[st.stack.back().block].in[st.stack.back().pc].I));
	if (r == SAT) {
		State *o = fork(st);
		o->model = m;
		addPC(*o, d ? nc : cond);
		onOther(*o, !d);
		work.push_back(o);
		addPC(st, d ? cond : nc);
	} else if (r == UNKNOWN) {
		addPC(st, d ? cond : nc);
	} else
		st.pcset.insert(d ? cond : nc); // implied: remember, no need to assert
	return d;
}
// bad condition must be infeasible
static void require(State &st, const Node *bad, const char *kind, const str &msg)
{
	if (bad->op == CONST && !bad->c) return;
	stTouch(st);
	Model m;
	Res   r = solve(st, bad, m);
	if (r == UNKNOWN) { incomplete(str("solver timeout (check) at ") + locOf(st.stack.back().f->blocks[st.stack.back().block].in[st.stack.back().pc].I)); }
	if (r == SAT) {
		report(st, m, kind, msg);
		const Node *ok = X.notE(bad);
		Model m2;
		if (solve(st, ok, m2) != SAT) throw PathEnd();
		st.model = m2;
		addPC(st, ok);
	}
}
static void setOp(State &st, const Opnd *o, uint64_t v)
{
	if (o && o->reg >= 0) { st.stack.back().regs[o->reg] = Val(v); }
}
// make a value concrete, forking over its feasible values
static uint64_t concretize(State &st, const Val &v, unsigned w, const Opnd *o, const char *what, unsigned lim = 0)
{
	if (!v.n) return v.c;
	checkUndef(st, v.n, what);
	stTouch(st);
	uint64_t c = X.eval(v.n, st.model);
	const Node *eq = X.bin(EQ, v.n, X.cst(w, c));
	Model m;
	Res   r = solve(st, X.notE(eq), m);
	if (r == UNKNOWN) incomplete(str("solver timeout (concretize ") + what + ")");
	if (r == SAT) {
		// count how many values this chain already excluded
		unsigned n = 0;
		for (auto p : st.pc) if (p->op == XOR && p->k[0]->op == EQ && p->k[0]->k[0] == v.n) n++;
		if (n >= (lim ? lim : O.maxEnum)) incomplete(str("enumeration limit for ") + what + " at " + locOf(st.stack.back().f->blocks[st.stack.back().block].in[st.stack.back().pc].I));
		else {
			State *s2 = fork(st);
			s2->model = m;
			addPC(*s2, X.notE(eq));
			work.push_back(s2);
		}
	}
	addPC(st, eq);
	setOp(st, o, c);
	return c;
}

// ------------------------------------------------------------------ memory ops
static MemEnt *findIn(std::vector<MemEnt> &v, uint64_t a)
{
	size_t lo = 0, hi = v.size();
	while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid].base <= a) lo = mid + 1; else hi = mid; }
	if (!lo) return nullptr;
	MemEnt *e = &v[lo - 1];
	if (a < e->base + std::max<uint64_t>(e->size, 1)) return e;
	return nullptr;
}
static MemEnt *findObj(State &st, uint64_t a)
{
	if (a < 0x20000000ULL) return findIn(roMem, a);
	return findIn(st.mem, a);
}
static uint64_t newObj(State &st, uint64_t size, ObjKind k, bool zero, const Instruction *site)
{
	Obj *o = new Obj;
	uint64_t base = (st.brk + 15) & ~15ULL;
	o->base = base; o->size = size; o->kind = k; o->site = site;
	o->b.assign(size, 0);
	o->st.assign(size, zero ? 0 : 2);
	st.brk = base + size + 64;
	st.mem.push_back({base, size, ORef(o)});
	if (st.mem.size() > O.maxObjs) throw Fatal{"too many objects"};
	return base;
}
static Obj *wr(MemEnt *e)
{
	if (e->o->rc > 1) {
		Obj *n = new Obj(*e->o.p);
		n->rc = 0;
		e->o = ORef(n);
	}
	return e->o.p;
}
[[noreturn]] static void memError(State &st, uint64_t a, uint64_t n, const char *acc)
{
	MemEnt *e = findObj(st, a);
	stTouch(st);
	if (a < 4096) report(st, st.model, "memory", str("null dereference (") + acc + ")");
	else if (e && e->o->freed) report(st, st.model, "memory", str("use after free (") + acc + ")");
	else report(st, st.model, "memory", str("out of bounds ") + acc);
	throw PathEnd();
}
static MemEnt *resolve(State &st, uint64_t a, uint64_t n, bool write)
{
	MemEnt *e = findObj(st, a);
	if (!e || e->o->freed || a + n > e->base + e->size || a + n < a) memError(st, a, n, write ? "write" : "read");
	if (write && e->o->ro) { stTouch(st); report(st, st.model, "memory", "write to constant memory"); throw PathEnd(); }
	return e;
}
static unsigned undefCnt = 0;
static const Node *byteAt(State &st, MemEnt *e, uint64_t off)
{
	Obj *o = e->o.p;
	switch (o->st[off]) {
	case 0: return X.cst(8, o->b[off]);
	case 1: return o->s[off];
	default: {
		const Node *u = X.var(8, "undef" + std::to_string(undefCnt++), true);
		o = wr(e);
		if (o->s.size() < o->size) o->s.resize(o->size, nullptr);
		o->s[off] = u; o->st[off] = 1;
		return u;
	}
	}
}
static Val loadC(State &st, MemEnt *e, uint64_t off, unsigned nbytes)
{
	Obj *o = e->o.p;
	bool conc = true;
	for (unsigned i = 0; i < nbytes; i++) if (o->st[off + i]) { conc = false; break; }
	if (conc) { uint64_t v = 0; memcpy(&v, &o->b[off], nbytes); return Val(v); }
	const Node *r = byteAt(st, e, off);
	for (unsigned i = 1; i < nbytes; i++) r = X.concat(byteAt(st, e, off + i), r);
	return Val(r);
}
static void storeByte(Obj *o, uint64_t off, const Node *n)
{
	if (n->op == CONST) { o->b[off] = (uint8_t)n->c; o->st[off] = 0; return; }
	if (o->s.size() < o->size) o->s.resize(o->size, nullptr);
	o->s[off] = n; o->st[off] = 1;
}
static void storeC(State &st, MemEnt *e, uint64_t off, const Val &v, unsigned nbytes)
{
	Obj *o = wr(e);
	if (!v.n) { memcpy(&o->b[off], &v.c, nbytes); memset(&o->st[off], 0, nbytes); return; }
	for (unsigned i = 0; i < nbytes; i++) storeByte(o, off + i, X.extract(v.n, i * 8, 8));
}
// number of low bits known to be zero
static unsigned tz(const Node *n)
{
	switch (n->op) {
	case CONST: return n->c ? __builtin_ctzll(n->c) : n->w;
	case CONCAT: { unsigned l = tz(n->k[1]); return l == n->k[1]->w ? l + tz(n->k[0]) : l; }
	case ZEXT: case SEXT: { unsigned l = tz(n->k[0]); return l; }
	case ADD: case SUB: case OR: case XOR: return std::min(tz(n->k[0]), tz(n->k[1]));
	case AND: return std::max(tz(n->k[0]), tz(n->k[1]));
	case MUL: return std::min<unsigned>(n->w, tz(n->k[0]) + tz(n->k[1]));
	case ITE: return std::min(tz(n->k[1]), tz(n->k[2]));
	default: return 0;
	}
}
// symbolic address: restrict the current state to one object. Returns entry.
static MemEnt *symObj(State &st, const Node *addr, unsigned n, bool write)
{
	checkUndef(st, addr, "address");
	stTouch(st);
	uint64_t a = X.eval(addr, st.model);
	MemEnt *e = findObj(st, a);
	if (!e || e->o->freed || a + n > e->base + e->size) {
		// violation for these values; continue with the in-bounds remainder
		if (a < 4096) report(st, st.model, "memory", str("null dereference (") + (write ? "write" : "read") + ")");
		else if (e && e->o->freed) report(st, st.model, "memory", "use after free");
		else report(st, st.model, "memory", str("out of bounds ") + (write ? "write" : "read"));
		throw PathEnd();
	}
	if (write && e->o->ro) { report(st, st.model, "memory", "write to constant memory"); throw PathEnd(); }
	uint64_t lo = e->base, span = e->size - n;
	const Node *in = X.bin(ULE, X.bin(SUB, addr, X.cst(64, lo)), X.cst(64, span));
	Model m;
	Res r = solve(st, X.notE(in), m);
	if (r == UNKNOWN) incomplete("solver timeout (address)");
	if (r == SAT) {
		State *s2 = fork(st);
		s2->model = m;
		addPC(*s2, X.notE(in));
		work.push_back(s2);
	}
	addPC(st, in);
	return findObj(st, a);
}
static Val loadV(State &st, const Val &av, const Opnd *ao, unsigned nbytes)
{
	if (!av.n) {
		MemEnt *e = resolve(st, av.c, nbytes, false);
		return loadC(st, e, av.c - e->base, nbytes);
	}
	MemEnt *e = symObj(st, av.n, nbytes, false);
	const Node *off = X.bin(SUB, av.n, X.cst(64, e->base));
	uint64_t step = 1ULL << std::min(6u, tz(off));
	bool ptrs = false;
	if (nbytes == 8 && (e->size - nbytes) / step <= 4096)
		for (uint64_t o = 0; o + 8 <= e->size && !ptrs; o += 8) {
			Val v = loadC(st, e, o, 8);
			if (!v.n && v.c >= 4096 && findObj(st, v.c)) ptrs = true;
		}
	if (ptrs || (e->size - nbytes) / step > O.maxIte) {
		uint64_t a = concretize(st, av, 64, ao, "address");
		e = resolve(st, a, nbytes, false);
		return loadC(st, e, a - e->base, nbytes);
	}
	// group offsets by value
	std::vector<std::pair<const Node *, std::vector<uint64_t>>> groups;
	std::unordered_map<const Node *, size_t> idx;
	for (uint64_t o = 0; o + nbytes <= e->size; o += step) {
		const Node *v = N(loadC(st, e, o, nbytes), nbytes * 8);
		auto it = idx.find(v);
		if (it == idx.end()) { idx[v] = groups.size(); groups.push_back({v, {o}}); }
		else groups[it->second].second.push_back(o);
	}
	size_t big = 0;
	for (size_t i = 0; i < groups.size(); i++) if (groups[i].second.size() > groups[big].second.size()) big = i;
	const Node *r = groups[big].first;
	for (size_t i = 0; i < groups.size(); i++) {
		if (i == big) continue;
		const Node *c = X.f();
		for (auto o : groups[i].second) c = X.orE(c, X.bin(EQ, off, X.cst(64, o)));
		r = X.ite(c, groups[i].first, r);
	}
	return Val(r);
}
static void storeV(State &st, const Val &av, const Opnd *ao, const Val &v, unsigned nbytes)
{
	if (!av.n) {
		MemEnt *e = resolve(st, av.c, nbytes, true);
		storeC(st, e, av.c - e->base, v, nbytes);
		return;
	}
	// one path per feasible address (after splitting off the invalid ones)
	symObj(st, av.n, nbytes, true);
	uint64_t a = concretize(st, av, 64, ao, "address");
	MemEnt *e = resolve(st, a, nbytes, true);
	storeC(st, e, a - e->base, v, nbytes);
}
static void copyMem(State &st, uint64_t d, uint64_t s, uint64_t n)
{
	if (!n) return;
	MemEnt *es = resolve(st, s, n, false);
	uint64_t so = s - es->base;
	Obj *os = es->o.p;
	std::vector<uint8_t> b(os->b.begin() + so, os->b.begin() + so + n), t(os->st.begin() + so, os->st.begin() + so + n);
	std::vector<const Node *> sy;
	bool anys = false;
	for (auto x : t) if (x == 1) { anys = true; break; }
	if (anys) sy.assign(os->s.begin() + so, os->s.begin() + so + n);
	MemEnt *ed = resolve(st, d, n, true);
	uint64_t dof = d - ed->base;
	Obj *od = wr(ed);
	memcpy(&od->b[dof], b.data(), n);
	memcpy(&od->st[dof], t.data(), n);
	if (anys) {
		if (od->s.size() < od->size) od->s.resize(od->size, nullptr);
		for (uint64_t i = 0; i < n; i++) if (t[i] == 1) od->s[dof + i] = sy[i];
	}
}
static str readStr(State &st, uint64_t a)
{
	str r;
	for (;;) {
		MemEnt *e = findObj(st, a);
		if (!e || a >= e->base + e->size || e->o->st[a - e->base]) break;
		char c = (char)e->o->b[a - e->base];
		if (!c) break;
		r += c; a++;
	}
	return r;
}

// ------------------------------------------------------------------ decoding
static unsigned widthOf(Type *T)
{
	if (T->isPointerTy()) return 64;
	if (T->isDoubleTy()) return 64;
	if (T->isFloatTy()) return 32;
	if (T->isIntegerTy()) return T->getIntegerBitWidth();
	return 0;
}
static Val constVal(const Constant *C);
static uint64_t constAddrOff(const Constant *C) { Val v = constVal(C); return v.c; }
static Val constVal(const Constant *C)
{
	Type *T = C->getType();
	if (auto *CI = dyn_cast<ConstantInt>(C)) {
		if (CI->getBitWidth() > 64) throw Fatal{"wide constant"};
		return Val(CI->getZExtValue());
	}
	if (auto *CF = dyn_cast<ConstantFP>(C)) return Val(CF->getValueAPF().bitcastToAPInt().getZExtValue());
	if (isa<ConstantPointerNull>(C)) return Val((uint64_t)0);
	if (isa<GlobalValue>(C)) {
		if (auto *GA = dyn_cast<GlobalAlias>(C)) return constVal(GA->getAliasee());
		auto it = gaddr.find(C);
		if (it == gaddr.end()) throw Fatal{"no address for global " + C->getName().str()};
		return Val(it->second);
	}
	if (isa<UndefValue>(C) && !T->isAggregateType()) {
		Val v; v.c = 0xdeadbeefdeadbeefULL & maskw(widthOf(T)); // replaced at decode (see Opnd)
		return v;
	}
	if (auto *CE = dyn_cast<ConstantExpr>(C)) {
		switch (CE->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto *G = cast<GEPOperator>(CE);
			if (!G->accumulateConstantOffset(*DL, off)) throw Fatal{"gep constexpr"};
			return Val(constAddrOff(CE->getOperand(0)) + off.getSExtValue());
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			Val v = constVal(CE->getOperand(0));
			v.c &= maskw(widthOf(T));
			return v;
		}
		case Instruction::Add: return Val(constVal(CE->getOperand(0)).c + constVal(CE->getOperand(1)).c);
		case Instruction::Sub: return Val(constVal(CE->getOperand(0)).c - constVal(CE->getOperand(1)).c);
		case Instruction::Trunc: return Val(constVal(CE->getOperand(0)).c & maskw(widthOf(T)));
		default: throw Fatal{str("constexpr ") + CE->getOpcodeName()};
		}
	}
	if (T->isAggregateType()) {
		Val v; v.agg = std::make_shared<AggV>();
		unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			Constant *E = C->getAggregateElement(i);
			v.agg->push_back(E ? constVal(E) : Val((uint64_t)0));
		}
		return v;
	}
	throw Fatal{"constant kind"};
}
static void initMem(Obj *o, uint64_t off, const Constant *C)
{
	Type *T = C->getType();
	uint64_t sz = DL->getTypeStoreSize(T);
	if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { return; }
	if (isa<UndefValue>(C)) return;
	if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
		StringRef s = CD->getRawDataValues();
		memcpy(&o->b[off], s.data(), s.size());
		return;
	}
	if (auto *CS = dyn_cast<ConstantStruct>(C)) {
		const StructLayout *SL = DL->getStructLayout(CS->getType());
		for (unsigned i = 0; i < CS->getNumOperands(); i++) initMem(o, off + SL->getElementOffset(i), CS->getOperand(i));
		return;
	}
	if (auto *CA = dyn_cast<ConstantArray>(C)) {
		uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
		for (unsigned i = 0; i < CA->getNumOperands(); i++) initMem(o, off + i * es, CA->getOperand(i));
		return;
	}
	Val v = constVal(C);
	memcpy(&o->b[off], &v.c, sz);
}

enum Builtin {
	B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP,
	B_SYMBOLIC, B_ASSUME, B_ASSERT, B_REACH, B_CHOICE, B_CONCRETIZE, B_LOGBITS, B_HEAPLIVE, B_FAILALLOC, B_PARAM, B_KILL, B_PRINT,
	B_ABORT, B_EXIT, B_ASSERTFAIL, B_NOP, B_VASTART, B_VACOPY, B_FLOOR, B_CEIL, B_ROUND, B_TRUNC, B_SQRT, B_FABS, B_RINT, B_ERRNO, B_ISSYM,
	B_INDETERMINATE, B_FUNREACH, B_ALLOCCOUNT, B_FMOD, B_TSLOC, B_EXPECT, B_MEMINIT
};
static std::map<str, int> builtins = {
	{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
	{"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
	{"vp_symbolic", B_SYMBOLIC}, {"vp_assume", B_ASSUME}, {"vp_assert_", B_ASSERT}, {"vp_reach", B_REACH},
	{"vp_choice", B_CHOICE}, {"vp_concretize", B_CONCRETIZE}, {"vp_log_bits", B_LOGBITS}, {"vp_heap_live", B_HEAPLIVE}, {"vp_fail_alloc", B_FAILALLOC},
	{"vp_alloc_count", B_ALLOCCOUNT},
	{"vp_param", B_PARAM}, {"vp_kill", B_KILL}, {"vp_print", B_PRINT}, {"vp_is_init", B_MEMINIT},
	{"abort", B_ABORT}, {"exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL},
	{"floor", B_FLOOR}, {"ceil", B_CEIL}, {"round", B_ROUND}, {"trunc", B_TRUNC}, {"sqrt", B_SQRT}, {"fabs", B_FABS}, {"rint", B_RINT}, {"nearbyint", B_RINT},
	{"__errno_location", B_ERRNO}, {"fmod", B_FMOD},
};
static int builtinOf(const Function *F)
{
	str n = F->getName().str();
	if (F->isIntrinsic()) {
		auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
		if (pre("llvm.memcpy")) return B_MEMCPY;
		if (pre("llvm.memmove")) return B_MEMMOVE;
		if (pre("llvm.memset")) return B_MEMSET;
		if (pre("llvm.dbg") || pre("llvm.lifetime") || pre("llvm.va_end") || pre("llvm.assume") || pre("llvm.stack") || pre("llvm.donothing") || pre("llvm.experimental.noalias")) return B_NOP;
		if (pre("llvm.va_start")) return B_VASTART;
		if (pre("llvm.va_copy")) return B_VACOPY;
		if (pre("llvm.floor")) return B_FLOOR;
		if (pre("llvm.ceil")) return B_CEIL;
		if (pre("llvm.round")) return B_ROUND;
		if (pre("llvm.trunc")) return B_TRUNC;
		if (pre("llvm.rint") || pre("llvm.nearbyint")) return B_RINT;
		if (pre("llvm.sqrt")) return B_SQRT;
		if (pre("llvm.fabs")) return B_FABS;
		if (pre("llvm.threadlocal.address")) return B_TSLOC;
		if (pre("llvm.expect")) return B_EXPECT;
		if (pre("llvm.trap")) return B_ABORT;
		return B_NONE;
	}
	auto it = builtins.find(n);
	return it == builtins.end() ? 0 : it->second;
}

static KFunc *getK(const Function *F)
{
	auto &p = kfuncs[F];
	if (!p) {
		p.reset(new KFunc);
		p->F = F;
		p->builtin = builtinOf(F);
	}
	return p.get();
}
static void decode(KFunc *k)
{
	if (k->decoded) return;
	k->decoded = true;
	const Function *F = k->F;
	std::unordered_map<const Value *, int>      reg;
	std::unordered_map<const BasicBlock *, int> bidx;
	int nr = 0;
	for (auto &A : F->args()) reg[&A] = nr++;
	int nb = 0;
	for (auto &B : *F) {
		bidx[&B] = nb++;
		for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = nr++;
	}
	k->nregs = nr;
	k->blocks.resize(nb);
	auto opnd = [&](const Value *V) -> Opnd {
		Opnd o;
		o.w = widthOf(V->getType());
		if (auto *C = dyn_cast<Constant>(V)) {
			if (isa<UndefValue>(C) && !C->getType()->isAggregateType()) o.reg = -2; // fresh undef
			else o.c = constVal(C);
		}
		else if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) {}
		else o.reg = reg.at(V);
		return o;
	};
	for (auto &B : *F) {
		KBlock &kb = k->blocks[bidx[&B]];
		kb.bb = &B;
		for (auto &I : B) {
			if (auto *P = dyn_cast<PHINode>(&I)) {
				for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
					auto &v = kb.phis[bidx[P->getIncomingBlock(i)]];
					bool dup = false;
					for (auto &q : v) if (q.first == reg[&I]) dup = true;
					if (!dup) v.push_back({reg[&I], opnd(P->getIncomingValue(i))});
				}
				continue;
			}
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			KInst ki;
			ki.I = &I; ki.op = I.getOpcode();
			if (!I.getType()->isVoidTy()) { ki.dest = reg[&I]; ki.w = widthOf(I.getType()); }
			switch (ki.op) {
			case Instruction::Br: {
				auto *Br = cast<BranchInst>(&I);
				if (Br->isConditional()) ki.ops.push_back(opnd(Br->getCondition()));
				for (unsigned i = 0; i < Br->getNumSuccessors(); i++) ki.succ.push_back(bidx[Br->getSuccessor(i)]);
				break;
			}
			case Instruction::Switch: {
				auto *Sw = cast<SwitchInst>(&I);
				ki.ops.push_back(opnd(Sw->getCondition()));
				ki.kw = ki.ops[0].w;
				ki.succ.push_back(bidx[Sw->getDefaultDest()]);
				for (auto &c : Sw->cases()) { ki.cases.push_back(c.getCaseValue()->getZExtValue()); ki.succ.push_back(bidx[c.getCaseSuccessor()]); }
				break;
			}
			case Instruction::GetElementPtr: {
				auto *G = cast<GetElementPtrInst>(&I);
				ki.ops.push_back(opnd(G->getPointerOperand()));
				for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
					if (StructType *ST = gi.getStructTypeOrNull()) {
						unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
						ki.off += DL->getStructLayout(ST)->getElementOffset(f);
					} else {
						uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) ki.off += CI->getSExtValue() * es;
						else { ki.ops.push_back(opnd(gi.getOperand())); ki.scale.push_back(es); }
					}
				}
				break;
			}
			case Instruction::Alloca: {
				auto *A = cast<AllocaInst>(&I);
				ki.off = DL->getTypeAllocSize(A->getAllocatedType());
				ki.ops.push_back(opnd(A->getArraySize()));
				break;
			}
			case Instruction::Call: {
				auto *C = cast<CallInst>(&I);
				const Value *cv = C->getCalledOperand()->stripPointerCasts();
				if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee();
				if (auto *CF = dyn_cast<Function>(cv)) { ki.callee = getK(CF); }
				for (unsigned i = 0; i < C->arg_size(); i++) {
					ki.ops.push_back(opnd(C->getArgOperand(i)));
					ki.byval.push_back(C->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(C->getParamByValType(i)) : 0);
				}
				ki.ops.push_back(ki.callee ? Opnd() : opnd(cv));
				break;
			}
			case Instruction::ExtractValue: case Instruction::InsertValue:
			default:
				for (auto &op : I.operands()) ki.ops.push_back(opnd(op.get()));
				if (!ki.ops.empty()) ki.kw = ki.ops[0].w;
			}
			kb.in.push_back(std::move(ki));
		}
	}
}

// ------------------------------------------------------------------ execution
static Val rd(State &st, const Opnd &o)
{
	if (o.reg >= 0) return st.stack.back().regs[o.reg];
	if (o.reg == -2) return Val(X.var(o.w, "undef" + std::to_string(undefCnt++), true));
	return o.c;
}
static void enterBlock(State &st, int to)
{
	Frame &f = st.stack.back();
	KBlock &kb = f.f->blocks[to];
	if (!kb.phis.empty()) {
		auto it = kb.phis.find(f.block);
		if (it != kb.phis.end()) {
			if (it->second.size() == 1) { Val v = rd(st, it->second[0].second); f.regs[it->second[0].first] = v; }
			else {
				std::vector<Val> tmp;
				for (auto &p : it->second) tmp.push_back(rd(st, p.second));
				for (size_t i = 0; i < tmp.size(); i++) f.regs[it->second[i].first] = tmp[i];
			}
		}
	}
	f.block = to; f.pc = 0;
}
static void pushFrame(State &st, KFunc *k, const std::vector<Val> &args, int dest)
{
	decode(k);
	if (k->F->isDeclaration()) throw Fatal{"call to undefined function " + k->F->getName().str()};
	k->executed = true; k->calls++;
	if (st.stack.size() > 400) { report(st, st.model, "stack", "unbounded recursion"); throw PathEnd(); }
	st.stack.emplace_back();
	Frame &f = st.stack.back();
	f.f = k; f.regs.resize(k->nregs); f.retDest = dest;
	for (size_t i = 0; i < args.size() && i < k->F->arg_size(); i++) f.regs[i] = args[i];
}
static void popAllocas(State &st, Frame &f)
{
	for (auto a : f.allocas) {
		MemEnt *e = findIn(st.mem, a);
		if (e) { Obj *t = new Obj; t->base = e->base; t->size = e->size; t->kind = K_STACK; t->freed = true; e->o = ORef(t); }
	}
	// compact: drop dead stack objects at the tail region
	if (!f.allocas.empty() && st.mem.size() > 64) {
		static unsigned tick = 0;
		if ((++tick & 255) == 0)
			st.mem.erase(std::remove_if(st.mem.begin(), st.mem.end(), [](const MemEnt &e) { return e.o->freed && e.o->kind == K_STACK; }), st.mem.end());
	}
}
static str strArg(State &st, const Val &v) { return readStr(st, v.c); }

static Val fpRound(const Val &v, unsigned mode) { return Val(X.un(FRND, 64, N(v, 64), mode)); }

static Val memcmpV(State &st, uint64_t a, uint64_t b, uint64_t n)
{
	// sign of the first difference, as -1/0/1
	if (!n) return Val((uint64_t)0);
	MemEnt *ea = resolve(st, a, 1, false), *eb = resolve(st, b, 1, false);
	uint64_t na = std::min(n, ea->base + ea->size - a), nb = std::min(n, eb->base + eb->size - b);
	if (na < n || nb < n) memError(st, na < n ? a + na : b + nb, 1, "read (memcmp)");
	if (n == 2 || n == 4 || n == 8) {
		// one word: equality of the words, order of the big-endian words
		const Node *l[2] = {nullptr, nullptr}, *g[2] = {nullptr, nullptr};
		for (uint64_t i = 0; i < n; i++) {
			const Node *v[2] = {byteAt(st, ea, a + i - ea->base), byteAt(st, eb, b + i - eb->base)};
			for (int k = 0; k < 2; k++) {
				l[k] = l[k] ? X.concat(v[k], l[k]) : v[k];
				g[k] = g[k] ? X.concat(g[k], v[k]) : v[k];
			}
		}
		return Val(X.ite(X.bin(EQ, l[0], l[1]), X.cst(32, 0), X.ite(X.bin(ULT, g[0], g[1]), X.cst(32, 0xffffffffu), X.cst(32, 1))));
	}
	const Node *r = X.cst(32, 0);
	for (uint64_t i = n; i-- > 0;) {
		const Node *x = byteAt(st, ea, a + i - ea->base), *y = byteAt(st, eb, b + i - eb->base);
		const Node *eq = X.bin(EQ, x, y);
		if (eq->op == CONST && eq->c) continue;
		const Node *d = X.ite(X.bin(ULT, x, y), X.cst(32, 0xffffffffu), X.cst(32, 1));
		r = X.ite(eq, r, d);
	}
	return Val(r);
}
static uint64_t doAlloc(State &st, uint64_t n, bool zero, const Instruction *I)
{
	if (st.failSym) { // does this allocation fail? both ways if the solver allows
		stTouch(st);
		const Node *eq = X.bin(EQ, st.failSym, X.cst(64, (uint64_t)(st.allocCount - st.failBase)));
		bool  c = X.eval(eq, st.model) & 1;
		Model m;
		Res   r = solve(st, c ? X.notE(eq) : eq, m);
		if (r == UNKNOWN) incomplete("solver timeout (allocation failure)");
		if (r == SAT) {
			State *s2 = fork(st);
			s2->model = m;
			addPC(*s2, c ? X.notE(eq) : eq);
			work.push_back(s2);
		}
		addPC(st, c ? eq : X.notE(eq));
		if (c) { st.failSym = nullptr; st.allocCount++; return 0; }
	}
	st.allocCount++;
	if (st.failAlloc >= 0) {
		if (st.failAlloc == 0) { st.failAlloc = -1; return 0; }
		st.failAlloc--;
	}
	if (n > (1ULL << 22)) return 0; // out of memory
	uint64_t a = newObj(st, n, K_HEAP, zero, I);
	st.heapLive++;
	return a;
}
static void doFree(State &st, uint64_t a)
{
	if (!a) return;
	MemEnt *e = findObj(st, a);
	if (!e || e->base != a || e->o->kind != K_HEAP) { stTouch(st); report(st, st.model, "memory", "invalid free"); throw PathEnd(); }
	if (e->o->freed) { stTouch(st); report(st, st.model, "memory", "double free"); throw PathEnd(); }
	Obj *t = new Obj;
	t->base = e->base; t->size = e->size; t->kind = K_HEAP; t->freed = true; t->site = e->o->site;
	e->o = ORef(t);
	st.heapLive--;
}
// sizes: large symbolic sizes behave as out of memory
static uint64_t sizeArg(State &st, const Val &v, const Opnd *o, const char *what)
{
	if (!v.n) return v.c;
	const Node *big = X.bin(ULT, X.cst(64, 1ULL << 22), v.n);
	bool isbig = decide(st, big, [](State &, bool) {}, what);
	if (isbig) { stTouch(st); return X.eval(v.n, st.model); }
	return concretize(st, v, 64, o, what);
}

// returns false when the call is a normal function call
static bool callBuiltin(State &st, KInst &ki, int b, std::vector<Val> &a)
{
	Frame *f = &st.stack.back();
	auto ret = [&](const Val &v) { if (ki.dest >= 0) st.stack.back().regs[ki.dest] = v; };
	auto conc = [&](unsigned i, const char *what) { return concretize(st, a[i], ki.ops[i].w, &ki.ops[i], what); };
	switch (b) {
	case B_NOP: ret(Val((uint64_t)0)); break;
	case B_VASTART: {
		// every argument is found in the overflow area
		MemEnt *e = resolve(st, a[0].c, 24, true);
		uint64_t off = a[0].c - e->base;
		storeC(st, e, off, Val((uint64_t)48), 4);
		storeC(st, e, off + 4, Val((uint64_t)176), 4);
		storeC(st, e, off + 8, Val(st.stack.back().va), 8);
		storeC(st, e, off + 16, Val((uint64_t)0), 8);
		ret(Val((uint64_t)0));
		break;
	}
	case B_VACOPY: copyMem(st, a[0].c, a[1].c, 24); ret(Val((uint64_t)0)); break;
	case B_TSLOC: case B_EXPECT: ret(a[0]); break;
	case B_MALLOC: { uint64_t n = sizeArg(st, a[0], &ki.ops[0], "malloc size"); ret(Val(doAlloc(st, n, false, ki.I))); break; }
	case B_CALLOC: {
		uint64_t n0 = sizeArg(st, a[0], &ki.ops[0], "calloc count"), n1 = sizeArg(st, a[1], &ki.ops[1], "calloc size");
		unsigned __int128 t = (unsigned __int128)n0 * n1;
		if (t > (1ULL << 22)) { st.allocCount++; ret(Val((uint64_t)0)); }
		else ret(Val(doAlloc(st, (uint64_t)t, true, ki.I)));
		break;
	}
	case B_REALLOC: {
		uint64_t p = conc(0, "realloc ptr"), n = sizeArg(st, a[1], &ki.ops[1], "realloc size");
		if (!p) { ret(Val(doAlloc(st, n, false, ki.I))); break; }
		MemEnt *e = findObj(st, p);
		if (!e || e->base != p || e->o->kind != K_HEAP || e->o->freed) { stTouch(st); report(st, st.model, "memory", "invalid realloc"); throw PathEnd(); }
		uint64_t os = e->size;
		uint64_t q = doAlloc(st, n, false, ki.I);
		if (q) { copyMem(st, q, p, std::min(os, n)); doFree(st, p); }
		ret(Val(q));
		break;
	}
	case B_FREE: doFree(st, conc(0, "free ptr")); break;
	case B_MEMCPY: case B_MEMMOVE: {
		uint64_t d = conc(0, "memcpy dst"), s = conc(1, "memcpy src"), n = conc(2, "memcpy size");
		if (b == B_MEMCPY && n && d != s && d < s + n && s < d + n) { stTouch(st); report(st, st.model, "memory", "overlapping memcpy"); throw PathEnd(); }
		copyMem(st, d, s, n);
		ret(a[0]);
		break;
	}
	case B_MEMSET: {
		uint64_t d = conc(0, "memset dst"), n = conc(2, "memset size");
		if (n) {
			MemEnt *e = resolve(st, d, n, true);
			const Node *v = a[1].n ? X.extract(a[1].n, 0, 8) : X.cst(8, a[1].c & 255);
			Obj *o = wr(e);
			for (uint64_t i = 0; i < n; i++) storeByte(o, d - e->base + i, v);
		}
		ret(a[0]);
		break;
	}
	case B_MEMCMP: {
		uint64_t x = conc(0, "memcmp ptr"), y = conc(1, "memcmp ptr"), n = conc(2, "memcmp size");
		ret(memcmpV(st, x, y, n));
		break;
	}
	case B_SYMBOLIC: {
		uint64_t p = conc(0, "ptr"), n = conc(1, "size");
		Input in; in.name = strArg(st, a[2]);
		if (n) {
			MemEnt *e = resolve(st, p, n, true);
			Obj *o = wr(e);
			if (n == 2 || n == 4 || n == 8) {
				const Node *v = X.var(n * 8, in.name, false);
				for (uint64_t i = 0; i < n; i++) { const Node *bn = X.extract(v, i * 8, 8); storeByte(o, p - e->base + i, bn); in.bytes.push_back(bn); }
			} else
				for (uint64_t i = 0; i < n; i++) {
					const Node *v = X.var(8, in.name + "[" + std::to_string(i) + "]", false);
					storeByte(o, p - e->base + i, v);
					in.bytes.push_back(v);
				}
		}
		st.inputs.push_back(in);
		stTouch(st);
		break;
	}
	case B_ASSUME: {
		const Node *c = a[0].n ? X.notE(X.bin(EQ, a[0].n, X.cst(ki.ops[0].w, 0))) : X.cst(1, a[0].c != 0);
		if (c->op == CONST) { if (!c->c) throw PathEnd(); break; }
		checkUndef(st, c, "assumption");
		stTouch(st);
		Model m; Res r = solve(st, c, m);
		if (r == UNKNOWN) { incomplete("solver timeout (assume)"); throw PathEnd(); }
		if (r == UNSAT) throw PathEnd();
		st.model = m; addPC(st, c);
		break;
	}
	case B_ASSERT: {
		const Node *c = a[0].n ? X.notE(X.bin(EQ, a[0].n, X.cst(ki.ops[0].w, 0))) : X.cst(1, a[0].c != 0);
		checkUndef(st, c, "assertion");
		str msg = strArg(st, a[1]);
		S.reached["assert:" + msg]++;
		require(st, X.notE(c), "assert", msg);
		break;
	}
	case B_REACH: { str s = strArg(st, a[0]); S.reached[s]++; st.reached.insert(s); break; }
	case B_CHOICE: {
		uint64_t n = conc(0, "choice");
		Input in; in.name = strArg(st, a[1]);
		if (n == 0) throw PathEnd();
		for (uint64_t v = n; v-- > 0;) {
			State *t = v ? fork(st) : &st;
			Input i2 = in;
			for (int j = 0; j < 4; j++) i2.bytes.push_back(X.cst(8, v >> (8 * j)));
			t->inputs.push_back(i2);
			if (ki.dest >= 0) t->stack.back().regs[ki.dest] = Val(v);
			if (v) { t->stack.back().pc++; work.push_back(t); }
		}
		break;
	}
	case B_CONCRETIZE: ret(Val(conc(0, "concretize"))); break;
	case B_LOGBITS: {
		uint64_t b = conc(0, "log");
		double d;
		memcpy(&d, &b, 8);
		d = log(d);
		memcpy(&b, &d, 8);
		ret(Val(b));
		break;
	}
	case B_HEAPLIVE: ret(Val((uint64_t)st.heapLive)); break;
	case B_ALLOCCOUNT: ret(Val((uint64_t)st.allocCount)); break;
	case B_FAILALLOC:
		st.failSym = a[0].n;
		st.failBase = st.allocCount;
		st.failAlloc = a[0].n ? -1 : (int64_t)a[0].c;
		break;
	case B_PARAM: {
		str s = strArg(st, a[0]);
		auto it = O.params.find(s);
		ret(it == O.params.end() ? a[1] : Val((uint64_t)it->second));
		break;
	}
	case B_KILL: throw PathEnd();
	case B_PRINT:
		if (O.verbose) {
			str s = strArg(st, a[0]);
			stTouch(st);
			fprintf(stderr, "[vp] %s %s0x%llx\n", s.c_str(), a[1].n ? "~" : "", (unsigned long long)(a[1].n ? X.eval(a[1].n, st.model) : a[1].c));
		}
		break;
	case B_MEMINIT: {
		uint64_t p = conc(0, "ptr"), n = conc(1, "size");
		MemEnt *e = resolve(st, p, n, false);
		bool ok = true;
		for (uint64_t i = 0; i < n; i++) {
			uint8_t s = e->o->st[p - e->base + i];
			if (s == 2 || (s == 1 && e->o->s[p - e->base + i]->hasUndef)) ok = false;
		}
		ret(Val((uint64_t)ok));
		break;
	}
	case B_ABORT: stTouch(st); report(st, st.model, "abort", "abort called"); throw PathEnd();
	case B_EXIT: stTouch(st); report(st, st.model, "abort", "exit called"); throw PathEnd();
	case B_ASSERTFAIL: stTouch(st); report(st, st.model, "abort", "assertion failed: " + strArg(st, a[0])); throw PathEnd();
	case B_FLOOR: ret(fpRound(a[0], 3)); break;
	case B_CEIL: ret(fpRound(a[0], 2)); break;
	case B_ROUND: ret(fpRound(a[0], 1)); break;
	case B_TRUNC: ret(fpRound(a[0], 4)); break;
	case B_RINT: ret(fpRound(a[0], 0)); break;
	case B_SQRT: ret(Val(X.un(FSQRT, 64, N(a[0], 64)))); break;
	case B_FABS: ret(Val(X.bin(AND, N(a[0], 64), X.cst(64, 0x7fffffffffffffffULL)))); break;
	case B_FMOD: {
		if (!a[0].n && !a[1].n) { ret(Val(d2b(fmod(b2d(a[0].c), b2d(a[1].c))))); break; }
		return false;
	}
	case B_ERRNO:
		if (!st.errnoAddr) st.errnoAddr = newObj(st, 4, K_GLOBAL, true, nullptr);
		ret(Val(st.errnoAddr));
		break;
	default: throw Fatal{"builtin"};
	}
	(void)f;
	return true;
}

static const Node *fcmp(CmpInst::Predicate p, const Node *a, const Node *b)
{
	const Node *uno = X.orE(X.isnan(a), X.isnan(b));
	switch (p) {
	case CmpInst::FCMP_FALSE: return X.f();
	case CmpInst::FCMP_TRUE: return X.t();
	case CmpInst::FCMP_OEQ: return X.bin(FOEQ, a, b);
	case CmpInst::FCMP_OGT: return X.bin(FOLT, b, a);
	case CmpInst::FCMP_OGE: return X.bin(FOLE, b, a);
	case CmpInst::FCMP_OLT: return X.bin(FOLT, a, b);
	case CmpInst::FCMP_OLE: return X.bin(FOLE, a, b);
	case CmpInst::FCMP_ONE: return X.andE(X.notE(uno), X.notE(X.bin(FOEQ, a, b)));
	case CmpInst::FCMP_ORD: return X.notE(uno);
	case CmpInst::FCMP_UNO: return uno;
	case CmpInst::FCMP_UEQ: return X.orE(uno, X.bin(FOEQ, a, b));
	case CmpInst::FCMP_UGT: return X.notE(X.bin(FOLE, a, b));
	case CmpInst::FCMP_UGE: return X.notE(X.bin(FOLT, a, b));
	case CmpInst::FCMP_ULT: return X.notE(X.bin(FOLE, b, a));
	case CmpInst::FCMP_ULE: return X.notE(X.bin(FOLT, b, a));
	case CmpInst::FCMP_UNE: return X.notE(X.bin(FOEQ, a, b));
	default: throw Fatal{"fcmp"};
	}
}
static const Node *icmp(CmpInst::Predicate p, const Node *a, const Node *b)
{
	switch (p) {
	case CmpInst::ICMP_EQ: return X.bin(EQ, a, b);
	case CmpInst::ICMP_NE: return X.notE(X.bin(EQ, a, b));
	case CmpInst::ICMP_ULT: return X.bin(ULT, a, b);
	case CmpInst::ICMP_ULE: return X.bin(ULE, a, b);
	case CmpInst::ICMP_UGT: return X.bin(ULT, b, a);
	case CmpInst::ICMP_UGE: return X.bin(ULE, b, a);
	case CmpInst::ICMP_SLT: return X.bin(SLT, a, b);
	case CmpInst::ICMP_SLE: return X.bin(SLE, a, b);
	case CmpInst::ICMP_SGT: return X.bin(SLT, b, a);
	case CmpInst::ICMP_SGE: return X.bin(SLE, b, a);
	default: throw Fatal{"icmp"};
	}
}
static bool icmpC(CmpInst::Predicate p, uint64_t a, uint64_t b, unsigned w)
{
	switch (p) {
	case CmpInst::ICMP_EQ: return a == b;
	case CmpInst::ICMP_NE: return a != b;
	case CmpInst::ICMP_ULT: return a < b;
	case CmpInst::ICMP_ULE: return a <= b;
	case CmpInst::ICMP_UGT: return a > b;
	case CmpInst::ICMP_UGE: return a >= b;
	case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
	case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
	case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
	default: return sx(a, w) >= sx(b, w);
	}
}
static void storeAgg(State &st, const Val &addr, Type *T, const Val &v, uint64_t off)
{
	if (T->isAggregateType()) {
		unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			Type *E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
			uint64_t eo = T->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(E);
			storeAgg(st, addr, E, (*v.agg)[i], off + eo);
		}
		return;
	}
	storeV(st, Val(addr.c + off), nullptr, v, DL->getTypeStoreSize(T));
}
static Val loadAgg(State &st, const Val &addr, Type *T, uint64_t off)
{
	if (T->isAggregateType()) {
		Val v; v.agg = std::make_shared<AggV>();
		unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) {
			Type *E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
			uint64_t eo = T->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(E);
			v.agg->push_back(loadAgg(st, addr, E, off + eo));
		}
		return v;
	}
	return loadV(st, Val(addr.c + off), nullptr, DL->getTypeStoreSize(T));
}
static Val undefAgg(Type *T)
{
	Val v;
	if (!T->isAggregateType()) return Val((uint64_t)0);
	v.agg = std::make_shared<AggV>();
	unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
	for (unsigned i = 0; i < n; i++) v.agg->push_back(undefAgg(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()));
	return v;
}
static Val selV(const Node *c, const Val &a, const Val &b, unsigned w)
{
	if (a.agg) {
		Val v; v.agg = std::make_shared<AggV>();
		for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(selV(c, (*a.agg)[i], (*b.agg)[i], 64));
		return v;
	}
	return Val(X.ite(c, N(a, w), N(b, w)));
}

static void finish(State &st)
{
	S.paths++;
	if (samplePaths.size() < O.samples && !st.inputs.empty()) { stTouch(st); samplePaths.push_back(concreteInputs(st, st.model)); }
}

static void step(State &st)
{
	Frame &f = st.stack.back();
	KInst &ki = f.f->blocks[f.block].in[f.pc];
	ki.covered = true;
	S.instrs++;
	if (++st.steps > O.maxSteps) { stTouch(st); report(st, st.model, "hang", "instruction limit reached"); throw PathEnd(); }
	switch (ki.op) {
	case Instruction::Ret: {
		Val v;
		if (!ki.ops.empty()) v = rd(st, ki.ops[0]);
		int d = f.retDest;
		popAllocas(st, f);
		st.stack.pop_back();
		if (st.stack.empty()) { finish(st); throw PathEnd(); }
		Frame &g = st.stack.back();
		if (d >= 0) g.regs[d] = v;
		g.pc++;
		return;
	}
	case Instruction::Br: {
		if (ki.ops.empty()) { enterBlock(st, ki.succ[0]); return; }
		Val c = rd(st, ki.ops[0]);
		bool d;
		if (!c.n) d = c.c;
		else {
			int t = ki.succ[0], e = ki.succ[1];
			d = decide(st, c.n, [t, e](State &o, bool dir) { enterBlock(o, dir ? t : e); }, "branch");
		}
		enterBlock(st, d ? ki.succ[0] : ki.succ[1]);
		return;
	}
	case Instruction::Switch: {
		Val v = rd(st, ki.ops[0]);
		if (v.n) {
			checkUndef(st, v.n, "switch");
			// fork per distinct successor
			std::map<int, const Node *> conds;
			const Node *any = X.f();
			for (size_t i = 0; i < ki.cases.size(); i++) {
				const Node *eq = X.bin(EQ, v.n, X.cst(ki.kw, ki.cases[i]));
				any = X.orE(any, eq);
				auto it = conds.find(ki.succ[i + 1]);
				if (it == conds.end()) conds[ki.succ[i + 1]] = eq; else it->second = X.orE(it->second, eq);
			}
			auto it = conds.find(ki.succ[0]);
			if (it == conds.end()) conds[ki.succ[0]] = X.notE(any); else it->second = X.orE(it->second, X.notE(any));
			stTouch(st);
			int mine = -1;
			std::vector<State *> nw;
			for (auto &p : conds) {
				if (mine < 0 && X.eval(p.second, st.model)) { mine = p.first; continue; }
				Model m; Res r = solve(st, p.second, m);
				if (r == UNKNOWN) incomplete("solver timeout (switch)");
				if (r == SAT) { State *o = fork(st); o->model = m; addPC(*o, p.second); enterBlock(*o, p.first); nw.push_back(o); }
			}
			for (auto o : nw) work.push_back(o);
			if (!nw.empty()) addPC(st, conds[mine]);
			enterBlock(st, mine);
			return;
		}
		int t = ki.succ[0];
		for (size_t i = 0; i < ki.cases.size(); i++) if (ki.cases[i] == v.c) { t = ki.succ[i + 1]; break; }
		enterBlock(st, t);
		return;
	}
	case Instruction::Unreachable:
		stTouch(st); report(st, st.model, "abort", "unreachable reached"); throw PathEnd();
	case Instruction::Alloca: {
		Val n = rd(st, ki.ops[0]);
		uint64_t c = concretize(st, n, ki.ops[0].w, &ki.ops[0], "alloca size");
		if (c > (1 << 16)) { stTouch(st); report(st, st.model, "stack", "large stack allocation"); throw PathEnd(); }
		uint64_t a = newObj(st, ki.off * c, K_STACK, false, ki.I);
		f.allocas.push_back(a);
		f.regs[ki.dest] = Val(a);
		break;
	}
	case Instruction::Load: {
		Val a = rd(st, ki.ops[0]);
		Type *T = ki.I->getType();
		if (T->isAggregateType()) { uint64_t c = concretize(st, a, 64, &ki.ops[0], "address"); Val v = loadAgg(st, Val(c), T, 0); st.stack.back().regs[ki.dest] = v; }
		else {
			unsigned nb = DL->getTypeStoreSize(T);
			Val v = loadV(st, a, &ki.ops[0], nb);
			if (ki.w < nb * 8) { if (v.n) v = Val(X.extract(v.n, 0, ki.w)); else v.c &= maskw(ki.w); }
			st.stack.back().regs[ki.dest] = v;
		}
		break;
	}
	case Instruction::Store: {
		Val v = rd(st, ki.ops[0]), a = rd(st, ki.ops[1]);
		Type *T = ki.I->getOperand(0)->getType();
		if (T->isAggregateType()) { uint64_t c = concretize(st, a, 64, &ki.ops[1], "address"); storeAgg(st, Val(c), T, v, 0); }
		else {
			unsigned nb = DL->getTypeStoreSize(T), w = widthOf(T);
			if (w < nb * 8 && v.n) v = Val(X.zext(v.n, nb * 8));
			storeV(st, a, &ki.ops[1], v, nb);
		}
		break;
	}
	case Instruction::GetElementPtr: {
		Val b = rd(st, ki.ops[0]);
		bool sym = b.n;
		uint64_t acc = b.c + ki.off;
		const Node *e = sym ? X.bin(ADD, b.n, X.cst(64, ki.off)) : nullptr;
		for (size_t i = 1; i < ki.ops.size(); i++) {
			Val x = rd(st, ki.ops[i]);
			unsigned w = ki.ops[i].w;
			if (!x.n) {
				uint64_t d = (uint64_t)sx(x.c, w) * ki.scale[i - 1];
				if (e) e = X.bin(ADD, e, X.cst(64, d)); else acc += d;
			} else {
				const Node *t = X.bin(MUL, w < 64 ? X.sext(x.n, 64) : x.n, X.cst(64, ki.scale[i - 1]));
				e = X.bin(ADD, e ? e : X.cst(64, acc), t);
			}
		}
		f.regs[ki.dest] = e ? Val(e) : Val(acc);
		break;
	}
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
		Val v = rd(st, ki.ops[0]);
		if (ki.op == Instruction::PtrToInt && ki.w < 64) { if (v.n) v = Val(X.extract(v.n, 0, ki.w)); else v.c &= maskw(ki.w); }
		f.regs[ki.dest] = v;
		break;
	}
	case Instruction::Trunc: {
		Val v = rd(st, ki.ops[0]);
		f.regs[ki.dest] = v.n ? Val(X.extract(v.n, 0, ki.w)) : Val(v.c & maskw(ki.w));
		break;
	}
	case Instruction::ZExt: {
		Val v = rd(st, ki.ops[0]);
		f.regs[ki.dest] = v.n ? Val(X.zext(v.n, ki.w)) : v;
		break;
	}
	case Instruction::SExt: {
		Val v = rd(st, ki.ops[0]);
		f.regs[ki.dest] = v.n ? Val(X.sext(v.n, ki.w)) : Val((uint64_t)sx(v.c, ki.kw) & maskw(ki.w));
		break;
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		Val v = rd(st, ki.ops[0]);
		const Node *x = N(v, ki.kw);
		bool sg = ki.op == Instruction::FPToSI;
		double lim = ldexp(1.0, sg ? ki.w - 1 : ki.w);
		const Node *hi = X.bin(FOLT, x, X.cst(ki.kw, ki.kw == 64 ? d2b(lim) : f2b((float)lim)));
		double lov = sg ? (ki.w == 64 ? -lim : -lim - 1.0) : -1.0;
		const Node *loc = X.cst(ki.kw, ki.kw == 64 ? d2b(lov) : f2b((float)lov));
		const Node *lo = sg && ki.w == 64 ? X.bin(FOLE, loc, x) : X.bin(FOLT, loc, x);
		require(st, X.notE(X.andE(lo, hi)), "arith", "float to integer conversion out of range");
		st.stack.back().regs[ki.dest] = Val(X.un(sg ? FTOSI : FTOUI, ki.w, x));
		break;
	}
	case Instruction::SIToFP: f.regs[ki.dest] = Val(X.un(SITOF, ki.w, N(rd(st, ki.ops[0]), ki.kw))); break;
	case Instruction::UIToFP: f.regs[ki.dest] = Val(X.un(UITOF, ki.w, N(rd(st, ki.ops[0]), ki.kw))); break;
	case Instruction::FPExt: f.regs[ki.dest] = Val(X.un(FEXT, 64, N(rd(st, ki.ops[0]), 32))); break;
	case Instruction::FPTrunc: f.regs[ki.dest] = Val(X.un(FTRUNC, 32, N(rd(st, ki.ops[0]), 64))); break;
	case Instruction::FNeg: f.regs[ki.dest] = Val(X.bin(XOR, N(rd(st, ki.ops[0]), ki.w), X.cst(ki.w, 1ULL << (ki.w - 1)))); break;
	case Instruction::ICmp: {
		Val a = rd(st, ki.ops[0]), b = rd(st, ki.ops[1]);
		auto p = cast<CmpInst>(ki.I)->getPredicate();
		if (!a.n && !b.n) f.regs[ki.dest] = Val((uint64_t)icmpC(p, a.c, b.c, ki.kw));
		else f.regs[ki.dest] = Val(icmp(p, N(a, ki.kw), N(b, ki.kw)));
		break;
	}
	case Instruction::FCmp: {
		Val a = rd(st, ki.ops[0]), b = rd(st, ki.ops[1]);
		f.regs[ki.dest] = Val(fcmp(cast<CmpInst>(ki.I)->getPredicate(), N(a, ki.kw), N(b, ki.kw)));
		break;
	}
	case Instruction::Select: {
		Val c = rd(st, ki.ops[0]), a = rd(st, ki.ops[1]), b = rd(st, ki.ops[2]);
		if (!c.n) f.regs[ki.dest] = c.c ? a : b;
		else {
			checkUndef(st, c.n, "select");
			st.stack.back().regs[ki.dest] = selV(c.n, a, b, ki.ops[1].w);
		}
		break;
	}
	case Instruction::ExtractValue: {
		auto *E = cast<ExtractValueInst>(ki.I);
		Val v = rd(st, ki.ops[0]);
		for (unsigned i : E->indices()) { Val t = (*v.agg)[i]; v = t; }
		f.regs[ki.dest] = v;
		break;
	}
	case Instruction::InsertValue: {
		auto *E = cast<InsertValueInst>(ki.I);
		Val v = rd(st, ki.ops[0]), x = rd(st, ki.ops[1]);
		if (!v.agg) v = undefAgg(ki.I->getType());
		std::function<Val(const Val &, unsigned)> ins = [&](const Val &o, unsigned d) -> Val {
			if (d == E->getNumIndices()) return x;
			Val r; r.agg = std::make_shared<AggV>(*o.agg);
			(*r.agg)[E->getIndices()[d]] = ins((*o.agg)[E->getIndices()[d]], d + 1);
			return r;
		};
		f.regs[ki.dest] = ins(v, 0);
		break;
	}
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		Op op;
		switch (ki.op) {
		case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
		case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
		case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
		case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
		case Instruction::FAdd: op = FADD; break; case Instruction::FSub: op = FSUB; break; case Instruction::FMul: op = FMUL; break; case Instruction::FDiv: op = FDIV; break;
		default: op = FREM;
		}
		Val a = rd(st, ki.ops[0]), b = rd(st, ki.ops[1]);
		unsigned w = ki.w;
		if (w > 64) throw Fatal{"wide integer"};
		if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
			require(st, X.bin(EQ, N(b, w), X.cst(w, 0)), "arith", "division by zero");
			if (op == SDIV || op == SREM)
				require(st, X.andE(X.bin(EQ, N(a, w), X.cst(w, 1ULL << (w - 1))), X.bin(EQ, N(b, w), X.cst(w, maskw(w)))), "arith", "signed division overflow");
		}
		if (op == SHL || op == LSHR || op == ASHR)
			require(st, X.bin(ULE, X.cst(w, w), N(b, w)), "arith", "shift amount out of range");
		if (O.overflow && (op == ADD || op == SUB || op == MUL) && cast<OverflowingBinaryOperator>(ki.I)->hasNoSignedWrap()) {
			const Node *x = N(a, w), *y = N(b, w), *bad;
			const Node *s = X.bin(op, x, y), *z = X.cst(w, 0);
			if (op == ADD) bad = X.andE(X.bin(EQ, X.bin(SLT, x, z), X.bin(SLT, y, z)), X.notE(X.bin(EQ, X.bin(SLT, s, z), X.bin(SLT, x, z))));
			else if (op == SUB) bad = X.andE(X.notE(X.bin(EQ, X.bin(SLT, x, z), X.bin(SLT, y, z))), X.notE(X.bin(EQ, X.bin(SLT, s, z), X.bin(SLT, x, z))));
			else bad = X.andE(X.notE(X.bin(EQ, x, z)), X.orE(X.notE(X.bin(EQ, X.bin(SDIV, s, x), y)), X.andE(X.bin(EQ, x, X.cst(w, maskw(w))), X.bin(EQ, y, X.cst(w, 1ULL << (w - 1))))));
			require(st, bad, "arith", "signed integer overflow");
		}
		Val r;
		if (!a.n && !b.n) { bool ok; r = Val(foldBin(op, w, a.c, b.c, ok)); }
		else {
			if (op == FREM) throw Fatal{"symbolic frem"};
			r = Val(X.bin(op, N(a, w), N(b, w)));
		}
		st.stack.back().regs[ki.dest] = r;
		break;
	}
	case Instruction::Call: {
		size_t n = ki.byval.size();
		std::vector<Val> args(n);
		for (size_t i = 0; i < n; i++) args[i] = rd(st, ki.ops[i]);
		KFunc *k = ki.callee;
		if (!k) {
			if (cast<CallInst>(ki.I)->isInlineAsm()) break;
			uint64_t a = concretize(st, rd(st, ki.ops[n]), 64, &ki.ops[n], "function pointer");
			auto it = faddr.find(a);
			if (it == faddr.end()) { stTouch(st); report(st, st.model, "memory", "call through invalid function pointer"); throw PathEnd(); }
			k = it->second;
		}
		if (k->builtin && k->F->isDeclaration()) {
			if (callBuiltin(st, ki, k->builtin, args)) break;
		}
		if (k->F->isIntrinsic()) {
			str nm = k->F->getName().str();
			if (nm.compare(0, 12, "llvm.fmuladd") == 0) {
				st.stack.back().regs[ki.dest] = Val(X.bin(FADD, X.bin(FMUL, N(args[0], ki.w), N(args[1], ki.w)), N(args[2], ki.w)));
				break;
			}
			auto mm = [&](Op lt, bool swap) { const Node *x = N(args[0], ki.w), *y = N(args[1], ki.w);
				st.stack.back().regs[ki.dest] = Val(X.ite(swap ? X.bin(lt, y, x) : X.bin(lt, x, y), x, y)); };
			if (nm.compare(0, 10, "llvm.umin.") == 0) { mm(ULT, false); break; }
			if (nm.compare(0, 10, "llvm.umax.") == 0) { mm(ULT, true); break; }
			if (nm.compare(0, 10, "llvm.smin.") == 0) { mm(SLT, false); break; }
			if (nm.compare(0, 10, "llvm.smax.") == 0) { mm(SLT, true); break; }
			if (nm.compare(0, 16, "llvm.is.fpclass.") == 0) {
				unsigned w = nm.find("f32") != str::npos ? 32 : 64;
				const Node *x = N(args[0], w), *r = X.f(), *rest;
				uint64_t m = args[1].c, sign = 1ULL << (w - 1);
				auto K = [&](double d) { return X.cst(w, w == 64 ? d2b(d) : f2b((float)d)); };
				double big = w == 64 ? DBL_MAX : FLT_MAX, tiny = w == 64 ? DBL_MIN : FLT_MIN;
				const Node *neg = X.bin(SLT, x, X.cst(w, 0)), *zero = X.bin(EQ, X.bin(AND, x, X.cst(w, sign - 1)), X.cst(w, 0));
				(void)rest;
				if ((m & 3) == 3) r = X.isnan(x), m &= ~3ULL;
				else if (m & 3) throw Fatal{"signalling NaN test"};
				if ((m & 0x1f8) == 0x1f8) { r = X.orE(r, X.andE(X.bin(FOLE, K(-big), x), X.bin(FOLE, x, K(big)))); m &= ~0x1f8ULL; }
				if (m & 0x200) r = X.orE(r, X.bin(FOLT, K(big), x));
				if (m & 0x004) r = X.orE(r, X.bin(FOLT, x, K(-big)));
				if (m & 0x100) r = X.orE(r, X.andE(X.bin(FOLE, K(tiny), x), X.bin(FOLE, x, K(big))));
				if (m & 0x008) r = X.orE(r, X.andE(X.bin(FOLE, K(-big), x), X.bin(FOLE, x, K(-tiny))));
				if (m & 0x080) r = X.orE(r, X.andE(X.bin(FOLT, K(0), x), X.bin(FOLT, x, K(tiny))));
				if (m & 0x010) r = X.orE(r, X.andE(X.bin(FOLT, K(-tiny), x), X.bin(FOLT, x, K(0))));
				if (m & 0x040) r = X.orE(r, X.andE(zero, X.notE(neg)));
				if (m & 0x020) r = X.orE(r, X.andE(zero, neg));
				st.stack.back().regs[ki.dest] = Val(r);
				break;
			}
			if (nm.compare(0, 9, "llvm.abs.") == 0) {
				const Node *x = N(args[0], ki.w);
				st.stack.back().regs[ki.dest] = Val(X.ite(X.bin(SLT, x, X.cst(ki.w, 0)), X.bin(SUB, X.cst(ki.w, 0), x), x));
				break;
			}
			if (nm.compare(0, 12, "llvm.minnum.") == 0 || nm.compare(0, 12, "llvm.maxnum.") == 0) {
				const Node *x = N(args[0], ki.w), *y = N(args[1], ki.w);
				const Node *c = nm[6] == 'i' ? X.bin(FOLT, y, x) : X.bin(FOLT, x, y);
				st.stack.back().regs[ki.dest] = Val(X.ite(X.orE(c, X.isnan(x)), y, x));
				break;
			}
			throw Fatal{"intrinsic " + nm};
		}
		for (size_t i = 0; i < n; i++)
			if (ki.byval[i]) {
				uint64_t src = concretize(st, args[i], 64, &ki.ops[i], "byval address");
				uint64_t d = newObj(st, ki.byval[i], K_STACK, false, ki.I);
				copyMem(st, d, src, ki.byval[i]);
				args[i] = Val(d);
				st.stack.back().allocas.push_back(d);
			}
		pushFrame(st, k, args, ki.dest);
		if (k->F->isVarArg() && n > k->F->arg_size()) {
			size_t fixed = k->F->arg_size();
			uint64_t va = newObj(st, 8 * (n - fixed), K_STACK, true, ki.I);
			MemEnt *e = findObj(st, va);
			for (size_t i = fixed; i < n; i++) {
				Val v = args[i];
				unsigned w = ki.ops[i].w;
				if (v.n && w < 64) v = Val(X.zext(v.n, 64));
				storeC(st, e, 8 * (i - fixed), v, 8);
			}
			st.stack.back().allocas.push_back(va);
			st.stack.back().va = va;
		}
		return;
	}
	default: throw Fatal{str("opcode ") + ki.I->getOpcodeName()};
	}
	st.stack.back().pc++;
}

// ------------------------------------------------------------------ output
static str jesc(const str &s)
{
	str r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r;
}
static void dumpInputs(std::ostream &o, const std::vector<std::pair<str, std::vector<uint8_t>>> &in)
{
	o << "[";
	for (size_t i = 0; i < in.size(); i++) {
		o << (i ? "," : "") << "[\"" << jesc(in[i].first) << "\",\"";
		for (auto b : in[i].second) { char t[4]; snprintf(t, 4, "%02x", b); o << t; }
		o << "\"]";
	}
	o << "]";
}
static void writeOut(const str &status, double wall)
{
	std::ofstream o(O.out);
	o << "{\"status\":\"" << jesc(status) << "\",\"paths\":" << S.paths << ",\"killed\":" << S.killed << ",\"instrs\":" << S.instrs
	  << ",\"forks\":" << S.forks << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat
	  << ",\"unknown\":" << S.unknown << ",\"cache_hits\":" << S.cacheHits << ",\"model_hits\":" << S.modelHits
	  << ",\"solver_s\":" << S.solverTime << ",\"max_query_s\":" << S.maxQuery << ",\"wall_s\":" << wall << ",\"nodes\":" << X.arena.size();
	o << ",\"incomplete\":[";
	for (size_t i = 0; i < S.incomplete.size(); i++) o << (i ? "," : "") << "\"" << jesc(S.incomplete[i]) << "\"";
	o << "],\"reached\":{";
	bool first = true;
	for (auto &r : S.reached) { o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; first = false; }
	o << "},\"functions\":[";
	first = true;
	std::map<str, std::set<unsigned>> lines, all;
	for (auto &kv : kfuncs) {
		KFunc *k = kv.second.get();
		DISubprogram *SP = k->F->getSubprogram();
		str file = SP ? SP->getDirectory().str() + "|" + SP->getFilename().str() : "";
		if (k->executed) {
			str src = SP ? SP->getFilename().str() : "";
			if (src.find("/repo/") == str::npos) continue;
			o << (first ? "" : ",") << "\"" << jesc(k->F->getName().str()) << "\"";
			first = false;
			for (auto &b : k->blocks) for (auto &i : b.in)
				if (const DILocation *L = i.I->getDebugLoc().get()) {
					str fn = L->getFilename().str();
					size_t p = fn.rfind('/'); if (p != str::npos) fn = fn.substr(p + 1);
					if (L->getLine()) { if (i.covered) lines[fn].insert(L->getLine()); }
				}
		}
	}
	o << "],\"lines\":{";
	first = true;
	for (auto &l : lines) {
		o << (first ? "" : ",") << "\"" << l.first << "\":[";
		bool f2 = true;
		for (auto x : l.second) { o << (f2 ? "" : ",") << x; f2 = false; }
		o << "]"; first = false;
	}
	o << "},\"violations\":[";
	for (size_t i = 0; i < viols.size(); i++) {
		auto &v = viols[i];
		o << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"stack\":[";
		for (size_t j = 0; j < v.stack.size(); j++) o << (j ? "," : "") << "\"" << jesc(v.stack[j]) << "\"";
		o << "],\"inputs\":";
		dumpInputs(o, v.inputs);
		o << "}";
	}
	o << "],\"samples\":[";
	for (size_t i = 0; i < samplePaths.size(); i++) { if (i) o << ","; dumpInputs(o, samplePaths[i]); }
	o << "]}\n";
}

int main(int argc, char **argv)
{
	for (int i = 1; i < argc; i++) {
		str a = argv[i];
		auto nx = [&]() { return str(argv[++i]); };
		if (a == "--out") O.out = nx();
		else if (a == "--entry") O.entry = nx();
		else if (a == "--after") O.after = atof(nx().c_str());
		else if (a == "--max-time") O.maxTime = atof(nx().c_str());
		else if (a == "--query-timeout") O.qTimeout = atoi(nx().c_str());
		else if (a == "--max-steps") O.maxSteps = atoll(nx().c_str());
		else if (a == "--max-ite") O.maxIte = strtoull(nx().c_str(), nullptr, 0);
		else if (a == "--max-enum") O.maxEnum = atoi(nx().c_str());
		else if (a == "--samples") O.samples = atoi(nx().c_str());
		else if (a == "--overflow") O.overflow = true;
		else if (a == "-v") O.verbose = true;
		else if (a == "--param") { str p = nx(); size_t e = p.find('='); O.params[p.substr(0, e)] = atoll(p.substr(e + 1).c_str()); }
		else O.bc = a;
	}
	double t0 = T0 = now();
	LLVMContext C;
	SMDiagnostic Err;
	M = parseIRFile(O.bc, Err, C);
	if (!M) { fprintf(stderr, "cannot read %s: %s\n", O.bc.c_str(), Err.getMessage().str().c_str()); return 3; }
	DL = &M->getDataLayout();
	X.initZ3();
	str status = "complete";
	try {
		uint64_t fa = 0x1000000;
		for (auto &F : *M) { KFunc *k = getK(&F); faddr[fa] = k; gaddr[&F] = fa; fa += 16; }
		State *init = new State;
		uint64_t ra = 0x4000000, wa = 0x20000000;
		std::vector<std::pair<const GlobalVariable *, Obj *>> gl;
		for (auto &G : M->globals()) {
			uint64_t sz = DL->getTypeAllocSize(G.getValueType());
			bool ro = G.isConstant();
			uint64_t &p = ro ? ra : wa;
			p = (p + 31) & ~31ULL;
			Obj *o = new Obj;
			o->base = p; o->size = sz; o->kind = K_GLOBAL; o->ro = ro; o->name = G.getName().str();
			o->b.assign(sz, 0); o->st.assign(sz, 0);
			gaddr[&G] = p;
			p += sz + 64;
			if (ro) roMem.push_back({o->base, sz, ORef(o)});
			else init->mem.push_back({o->base, sz, ORef(o)});
			gl.push_back({&G, o});
		}
		if (ra > 0x20000000) throw Fatal{"too much constant data"};
		for (auto &g : gl) if (g.first->hasInitializer()) initMem(g.second, 0, g.first->getInitializer());
		init->brk = std::max<uint64_t>(wa, 0x555500000000ULL); // as long as a native heap address
		Function *E = M->getFunction(O.entry);
		if (!E) throw Fatal{"no entry"};
		pushFrame(*init, getK(E), {}, -1);
		work.push_back(init);
		while (!work.empty()) {
			State *st = work.back();
			work.pop_back();
			cur = st;
			try {
				unsigned tick = 0;
				for (;;) {
					step(*st);
					if ((++tick & 0xfff) == 0 && now() - t0 > O.maxTime) { incomplete("time limit"); throw Fatal{""}; }
				}
			} catch (PathEnd &) {
				S.killed++;
				delete st;
			}
			if (now() - t0 > O.maxTime && !work.empty()) { incomplete("time limit"); break; }
			if (viols.size() >= O.maxViol) { incomplete("violation limit"); break; }
		}
	} catch (Fatal &f) {
		if (!f.s.empty()) {
			status = "error: " + f.s;
			if (cur && !cur->stack.empty()) for (int i = (int)cur->stack.size() - 1; i >= 0; i--) {
				Frame &g = cur->stack[i];
				fprintf(stderr, "  at %s\n", locOf(g.f->blocks[g.block].in[g.pc].I).c_str());
			}
		}
	}
	if (status == "complete" && !S.incomplete.empty()) status = "incomplete";
	double wall = now() - t0;
	if (!O.out.empty()) writeOut(status, wall);
	fprintf(stderr, "%s paths=%llu forks=%llu instrs=%llu queries=%llu (sat %llu unsat %llu unk %llu) cache=%llu model=%llu solver=%.2fs wall=%.2fs viol=%zu\n", status.c_str(),
	        (unsigned long long)S.paths, (unsigned long long)S.forks, (unsigned long long)S.instrs, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown,
	        (unsigned long long)S.cacheHits, (unsigned long long)S.modelHits, S.solverTime, wall, viols.size());
	for (auto &s : S.incomplete) fprintf(stderr, "  incomplete: %s\n", s.c_str());
	fflush(stderr);
	_exit(status.compare(0, 5, "error") == 0 ? 3 : 0);
}
