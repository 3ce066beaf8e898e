// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding,
// a native evaluator, and a translation to Z3.
#pragma once
#include <z3.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

enum Op : uint8_t {
	CONST, VAR,
	ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
	AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE,
	ITE, CONCAT, EXTRACT, ZEXT, SEXT,
	FADD, FSUB, FMUL, FDIV, FREM,
	FOLT, FOLE, FOEQ, FISNAN,
	FRND, FSQRT, FTOSI, FTOUI, SITOF, UITOF, FEXT, FTRUNC
};

typedef std::vector<uint32_t> VarSet;

struct Node {
	Op          op;
	uint8_t     w;
	bool        hasFP, hasUndef;
	uint32_t    id;
	uint64_t    c; // const value / var id / extract lo / rounding mode
	const Node *k[3];
	const VarSet *vs;
	mutable Z3_ast   bv = nullptr, fp = nullptr;
	mutable uint32_t gen = 0;
	mutable uint64_t val = 0;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t  sx(uint64_t v, unsigned w)
{
	if (w >= 64) return (int64_t)v;
	uint64_t m = 1ULL << (w - 1);
	v &= maskw(w);
	return (int64_t)((v ^ m) - m);
}
static inline double   b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2b(double d)
{
	if (d != d) return 0x7ff8000000000000ULL;
	uint64_t b; memcpy(&b, &d, 8); return b;
}
static inline float    b2f(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static inline uint64_t f2b(float d)
{
	if (d != d) return 0x7fc00000u;
	uint32_t b; memcpy(&b, &d, 4); return b;
}

struct VarInfo { std::string name; unsigned w; bool undef; };
extern std::vector<VarInfo> g_vars;
typedef std::vector<uint64_t> Model;

static inline uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b, bool &ok)
{
	ok = true;
	uint64_t m = maskw(w);
	switch (op) {
	case ADD: return (a + b) & m;
	case SUB: return (a - b) & m;
	case MUL: return (a * b) & m;
	case UDIV: return b ? (a / b) & m : m;
	case SDIV: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return x < 0 ? 1 : m;
		if (y == -1) return (0 - (uint64_t)x) & m;
		return (uint64_t)(x / y) & m;
	}
	case UREM: return b ? a % b : a;
	case SREM: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return a;
		if (y == -1) return 0;
		return (uint64_t)(x % y) & m;
	}
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & m;
	case LSHR: return b >= w ? 0 : (a >> b);
	case ASHR: {
		int64_t x = sx(a, w);
		return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m;
	}
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx(a, w) < sx(b, w);
	case SLE: return sx(a, w) <= sx(b, w);
	case FADD: return w == 64 ? d2b(b2d(a) + b2d(b)) : f2b(b2f(a) + b2f(b));
	case FSUB: return w == 64 ? d2b(b2d(a) - b2d(b)) : f2b(b2f(a) - b2f(b));
	case FMUL: return w == 64 ? d2b(b2d(a) * b2d(b)) : f2b(b2f(a) * b2f(b));
	case FDIV: return w == 64 ? d2b(b2d(a) / b2d(b)) : f2b(b2f(a) / b2f(b));
	case FREM: return w == 64 ? d2b(fmod(b2d(a), b2d(b))) : f2b(fmodf(b2f(a), b2f(b)));
	case FOLT: return w == 64 ? b2d(a) < b2d(b) : b2f(a) < b2f(b);
	case FOLE: return w == 64 ? b2d(a) <= b2d(b) : b2f(a) <= b2f(b);
	case FOEQ: return w == 64 ? b2d(a) == b2d(b) : b2f(a) == b2f(b);
	default: ok = false; return 0;
	}
}

// rounding modes for FRND: 0 RNE(rint) 1 RNA(round) 2 RTP(ceil) 3 RTN(floor) 4 RTZ(trunc)
static inline double rnd(double d, unsigned mode)
{
	switch (mode) {
	case 0: return nearbyint(d);
	case 1: return round(d);
	case 2: return ceil(d);
	case 3: return floor(d);
	default: return trunc(d);
	}
}
static inline uint64_t foldUn(Op op, unsigned w, unsigned kw, uint64_t a, uint64_t c)
{
	switch (op) {
	case EXTRACT: return (a >> c) & maskw(w);
	case ZEXT: return a;
	case SEXT: return (uint64_t)sx(a, kw) & maskw(w);
	case FISNAN: return kw == 64 ? b2d(a) != b2d(a) : b2f(a) != b2f(a);
	case FRND: return w == 64 ? d2b(rnd(b2d(a), c)) : f2b((float)rnd(b2f(a), c));
	case FSQRT: return w == 64 ? d2b(sqrt(b2d(a))) : f2b(sqrtf(b2f(a)));
	case FTOSI: {
		double d = kw == 64 ? b2d(a) : b2f(a);
		double lim = ldexp(1.0, w - 1);
		if (!(d > -lim - 1.0 && d < lim)) return (1ULL << (w - 1)); // x86 indefinite
		return (uint64_t)(int64_t)d & maskw(w);
	}
	case FTOUI: {
		double d = kw == 64 ? b2d(a) : b2f(a);
		double lim = ldexp(1.0, w);
		if (!(d > -1.0 && d < lim)) return (1ULL << (w - 1));
		return (uint64_t)d & maskw(w);
	}
	case SITOF: return w == 64 ? d2b((double)sx(a, kw)) : f2b((float)sx(a, kw));
	case UITOF: return w == 64 ? d2b((double)a) : f2b((float)a);
	case FEXT: return d2b((double)b2f(a));
	case FTRUNC: return f2b((float)b2d(a));
	default: abort();
	}
}

struct Exprs {
	std::deque<Node> arena;
	struct H { size_t operator()(const Node *n) const {
		uint64_t h = n->op * 0x9E3779B97F4A7C15ULL ^ (uint64_t)n->w << 32 ^ n->c * 0xff51afd7ed558ccdULL;
		for (int i = 0; i < 3; i++) { h ^= (uint64_t)(uintptr_t)n->k[i] + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); }
		return h;
	} };
	struct Eq { bool operator()(const Node *a, const Node *b) const {
		return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
	} };
	std::unordered_set<Node *, H, Eq> tab;
	struct VH { size_t operator()(const VarSet &v) const { size_t h = 0; for (auto x : v) h = h * 1000003 + x; return h; } };
	std::unordered_set<VarSet, VH> vsets;
	const VarSet *emptyVS;
	Exprs() { emptyVS = &*vsets.insert(VarSet()).first; }

	const VarSet *mergeVS(const VarSet *a, const VarSet *b)
	{
		if (a == b || b->empty()) return a;
		if (a->empty()) return b;
		VarSet r;
		std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
		return &*vsets.insert(std::move(r)).first;
	}
	const Node *mk(Op op, unsigned w, uint64_t c, const Node *a = nullptr, const Node *b = nullptr, const Node *d = nullptr)
	{
		Node n; n.op = op; n.w = w; n.c = c; n.k[0] = a; n.k[1] = b; n.k[2] = d;
		auto it = tab.find(&n);
		if (it != tab.end()) return *it;
		n.id = arena.size();
		n.hasFP = op >= FADD && !(op >= FOLT && op <= FISNAN); n.hasUndef = false;
		n.vs = emptyVS;
		if (op == VAR) {
			n.hasUndef = g_vars[c].undef;
			n.vs = &*vsets.insert(VarSet{(uint32_t)c}).first;
		}
		for (int i = 0; i < 3; i++)
			if (n.k[i]) {
				n.hasFP |= n.k[i]->hasFP; n.hasUndef |= n.k[i]->hasUndef;
				n.vs = mergeVS(n.vs, n.k[i]->vs);
			}
		arena.push_back(n);
		Node *p = &arena.back();
		tab.insert(p);
		return p;
	}
	const Node *cst(unsigned w, uint64_t v) { return mk(CONST, w, v & maskw(w)); }
	const Node *var(unsigned w, const std::string &name, bool undef)
	{
		g_vars.push_back({name, w, undef});
		return mk(VAR, w, g_vars.size() - 1);
	}
	const Node *t() { return cst(1, 1); }
	const Node *f() { return cst(1, 0); }
	const Node *notE(const Node *a) { return bin(XOR, a, cst(a->w, maskw(a->w))); }
	const Node *andE(const Node *a, const Node *b) { return bin(AND, a, b); }
	const Node *orE(const Node *a, const Node *b) { return bin(OR, a, b); }

	const Node *bin(Op op, const Node *a, const Node *b)
	{
		unsigned w = a->w, rw = w;
		bool     cmp = (op >= EQ && op <= SLE) || (op >= FOLT && op <= FOEQ);
		if (cmp) rw = 1;
		if (a->op == CONST && b->op == CONST) {
			bool ok; uint64_t r = foldBin(op, w, a->c, b->c, ok);
			if (ok) return cst(rw, r);
		}
		bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD || op == FMUL || op == FOEQ;
		if (comm && (a->op == CONST || (b->op != CONST && a->id > b->id))) std::swap(a, b);
		uint64_t m = maskw(w);
		if (op >= FOLT && op <= FOEQ && w == 64)
			if (const Node *r = dyCmp(op, a, b)) return r;
		if (b->op == CONST) {
			uint64_t c = b->c;
			switch (op) {
			case ADD: case SUB:
				if (c == 0) return a;
				if (op == SUB) return bin(ADD, a, cst(w, 0 - c));
				if (a->op == ADD && a->k[1]->op == CONST) return bin(ADD, a->k[0], cst(w, a->k[1]->c + c));
				break;
			case OR: if (c == 0) return a; if (c == m) return b; break;
			case XOR:
				if (c == 0) return a;
				if (a->op == XOR && a->k[1]->op == CONST) return bin(XOR, a->k[0], cst(w, a->k[1]->c ^ c));
				if (a->op == ZEXT && !(c & ~maskw(a->k[0]->w))) return zext(bin(XOR, a->k[0], cst(a->k[0]->w, c)), w);
				if (w == 1) {
					if (a->op == ULT) return bin(ULE, a->k[1], a->k[0]);
					if (a->op == ULE) return bin(ULT, a->k[1], a->k[0]);
					if (a->op == SLT) return bin(SLE, a->k[1], a->k[0]);
					if (a->op == SLE) return bin(SLT, a->k[1], a->k[0]);
				}
				break;
			case AND: if (c == 0) return b; if (c == m) return a;
				if (a->op == ZEXT) {
					uint64_t km = maskw(a->k[0]->w);
					if ((c & km) == km) return a;
				}
				if ((c & (c + 1)) == 0) { unsigned k = 64 - __builtin_clzll(c); return zext(extract(a, 0, k), w); } // low bits
				break;
			case SHL: case LSHR: case ASHR: if (c == 0) return a;
				if (c < w && op == LSHR) return zext(extract(a, c, w - c), w);
				if (c < w && op == SHL) return concat(extract(a, 0, w - c), cst(c, 0));
				if (c < w && op == ASHR) return sext(extract(a, c, w - c), w);
				break;
			case MUL: if (c == 0) return b; if (c == 1) return a;
				if ((c & (c - 1)) == 0) return bin(SHL, a, cst(w, __builtin_ctzll(c)));
				break;
			// exact identities (up to the payload of a NaN)
			case FMUL:
				if (w == 64 && c == 0x4000000000000000ULL) return bin(FADD, a, a); // 2x == x+x exactly
				if (w == 64 && c == 0x4010000000000000ULL) { const Node *d = bin(FADD, a, a); return bin(FADD, d, d); }
				// fall through
			case FDIV:
				if (w == 64 && c == 0x3ff0000000000000ULL) return a;
				if (op == FDIV && w == 64 && (c & 0x000fffffffffffffULL) == 0 && (c >> 52) == 0x3fe) return bin(FADD, a, a); // x/0.5
				break;
			case FADD: if (w == 64 && c == 0x8000000000000000ULL) return a; break;
			case FSUB: if (w == 64 && c == 0) return a; break;
			case UDIV: if (c == 1) return a;
				if (c && (c & (c - 1)) == 0) return bin(LSHR, a, cst(w, __builtin_ctzll(c)));
				break;
			case UREM: if (c == 1) return cst(w, 0);
				if (c && (c & (c - 1)) == 0) return bin(AND, a, cst(w, c - 1));
				break;
			case SDIV: if (c == 1) return a; break;
			case EQ:
				if (w == 1) return c ? a : notE(a);
				if (a->op == ZEXT) {
					unsigned kw = a->k[0]->w;
					if (c & ~maskw(kw)) return f();
					return bin(EQ, a->k[0], cst(kw, c));
				}
				if (a->op == SEXT) {
					unsigned kw = a->k[0]->w;
					if (((uint64_t)sx(c & maskw(kw), kw) & m) != c) return f();
					return bin(EQ, a->k[0], cst(kw, c & maskw(kw)));
				}
				if (a->op == ITE && (a->k[1]->op == CONST || a->k[2]->op == CONST))
					return ite(a->k[0], bin(EQ, a->k[1], b), bin(EQ, a->k[2], b));
				if (a->op == ADD && a->k[1]->op == CONST) return bin(EQ, a->k[0], cst(w, c - a->k[1]->c));
				if (a->op == XOR && a->k[1]->op == CONST) return bin(EQ, a->k[0], cst(w, c ^ a->k[1]->c));
				if (a->op == CONCAT) {
					unsigned lw = a->k[1]->w;
					return andE(bin(EQ, a->k[0], cst(a->k[0]->w, c >> lw)), bin(EQ, a->k[1], cst(lw, c)));
				}
				break;
			case ULT: if (c == 0) return f();
				if (c == 1) return bin(EQ, a, cst(w, 0));
				if (a->op == ZEXT) { if (c > maskw(a->k[0]->w)) return t(); return bin(ULT, a->k[0], cst(a->k[0]->w, c)); }
				if (a->op == ITE && a->k[1]->op == CONST && a->k[2]->op == CONST)
					return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
				break;
			case ULE: if (c == m) return t();
				if (c == 0) return bin(EQ, a, b);
				if (a->op == ZEXT) { if (c >= maskw(a->k[0]->w)) return t(); return bin(ULE, a->k[0], cst(a->k[0]->w, c)); }
				// fallthrough
			case SLT: case SLE:
				if (a->op == ITE && a->k[1]->op == CONST && a->k[2]->op == CONST)
					return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
				break;
			default: break;
			}
		} else if (a->op == CONST) {
			if ((op == ULT || op == ULE || op == SLT || op == SLE) && b->op == ITE && b->k[1]->op == CONST && b->k[2]->op == CONST)
				return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
			if (op == ULT && a->c == m) return f();
			if (op == ULE && a->c == 0) return t();
			if (op == ULT && b->op == ZEXT) { if (a->c >= maskw(b->k[0]->w)) return f(); return bin(ULT, cst(b->k[0]->w, a->c), b->k[0]); }
			if (op == ULE && b->op == ZEXT) { if (a->c > maskw(b->k[0]->w)) return f(); return bin(ULE, cst(b->k[0]->w, a->c), b->k[0]); }
		}
		if (a == b) {
			switch (op) {
			case SUB: case XOR: return cst(w, 0);
			case AND: case OR: return a;
			case EQ: case ULE: case SLE: return t();
			case ULT: case SLT: case FOLT: return f();
			case FOLE: case FOEQ: return notE(isnan(a));
			default: break;
			}
		}
		if ((op == AND || op == OR || op == XOR) && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
			return zext(bin(op, a->k[0], b->k[0]), w);
		if ((op == SLT || op == SLE) && nonneg(a) && nonneg(b)) return bin(op == SLT ? ULT : ULE, a, b);
		if ((op == ULT || op == ULE) && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
		if (op == EQ && w == 1) return notE(bin(XOR, a, b));
		if (op == EQ && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return bin(EQ, a->k[0], b->k[0]);
		if (op == SUB && a->op == ADD && a->k[1]->op == CONST && a->k[0] == b) return a->k[1];
		if (w == 1 && (op == AND || op == OR)) {
			// x & !x
			if (a->op == XOR && a->k[1]->op == CONST && a->k[0] == b) return op == AND ? f() : t();
			if (b->op == XOR && b->k[1]->op == CONST && b->k[0] == a) return op == AND ? f() : t();
		}
		return mk(op, rw, 0, a, b);
	}
	// Doubles known to equal I * 2^s exactly, I a 64-bit integer expression in
	// [lo, hi] with |I| <= 2^53: every operation that keeps this form is exact in
	// binary64, so comparisons and truncations become integer ones.
	struct Dy { bool ok = false; const Node *I = nullptr; int s = 0; int64_t lo = 0, hi = 0; };
	std::unordered_map<const Node *, Dy> dyMemo;
	static constexpr int64_t DYMAX = 1LL << 53;
	bool irange(const Node *n, int64_t &lo, int64_t &hi, int depth = 0)
	{
		switch (n->op) {
		case CONST: lo = hi = sx(n->c, n->w); return lo > -DYMAX && hi < DYMAX;
		case ZEXT: if (irange(n->k[0], lo, hi, depth + 1) && lo >= 0) return true;
			if (n->k[0]->w <= 53) { lo = 0; hi = (int64_t)maskw(n->k[0]->w); return true; } return false;
		case SEXT: if (n->k[0]->w <= 53) { hi = (int64_t)(maskw(n->k[0]->w) >> 1); lo = -hi - 1; return true; } return false;
		case ADD: case MUL: {
			if (n->w < 64 || depth > 8) return false;
			int64_t a, b, c, d;
			if (!irange(n->k[0], a, b, depth + 1) || !irange(n->k[1], c, d, depth + 1)) return false;
			__int128 v[4];
			if (n->op == ADD) { v[0] = v[2] = (__int128)a + c; v[1] = v[3] = (__int128)b + d; }
			else { v[0] = (__int128)a * c; v[1] = (__int128)a * d; v[2] = (__int128)b * c; v[3] = (__int128)b * d; }
			__int128 l = v[0], h = v[0];
			for (int i = 1; i < 4; i++) { if (v[i] < l) l = v[i]; if (v[i] > h) h = v[i]; }
			if (l < -DYMAX || h > DYMAX) return false;
			lo = (int64_t)l; hi = (int64_t)h; return true;
		}
		case ITE: {
			if (depth > 8) return false;
			int64_t a, b, c, d;
			if (!irange(n->k[1], a, b, depth + 1) || !irange(n->k[2], c, d, depth + 1)) return false;
			lo = std::min(a, c); hi = std::max(b, d); return true;
		}
		default: return false;
		}
	}
	bool dyShift(Dy &d, int s) // rewrite with the smaller exponent s
	{
		int k = d.s - s;
		if (k < 0 || (k > 53 && (d.lo || d.hi))) return false;
		if (k > 53) { d.s = s; return true; }
		__int128 l = (__int128)d.lo << k, h = (__int128)d.hi << k;
		if (l < -DYMAX || h > DYMAX) return false;
		d.I = bin(SHL, d.I, cst(64, k)); d.lo = (int64_t)l; d.hi = (int64_t)h; d.s = s;
		return true;
	}
	const Dy &dy(const Node *n)
	{
		auto it = dyMemo.find(n);
		if (it != dyMemo.end()) return it->second;
		Dy r;
		if (n->w == 64) switch (n->op) {
		case CONST: {
			double v = b2d(n->c);
			if (std::isfinite(v)) {
				int e = 0; double fr = frexp(v, &e);
				int64_t i = (int64_t)ldexp(fr, 53); e -= 53;
				if (!i) e = 0;
				while (i && !(i & 1)) { i /= 2; e++; }
				if (e > -400 && e < 400) { r.ok = true; r.I = cst(64, (uint64_t)i); r.s = e; r.lo = r.hi = i; }
			}
			break;
		}
		case UITOF: case SITOF: {
			const Node *x = n->k[0];
			int64_t lo, hi;
			const Node *e = n->op == UITOF ? zext(x, 64) : sext(x, 64);
			if (irange(e, lo, hi) && (n->op == SITOF || lo >= 0)) { r.ok = true; r.I = e; r.lo = lo; r.hi = hi; }
			break;
		}
		case FMUL: {
			Dy a = dy(n->k[0]), b = dy(n->k[1]);
			if (!a.ok || !b.ok) break;
			__int128 v[4] = {(__int128)a.lo * b.lo, (__int128)a.lo * b.hi, (__int128)a.hi * b.lo, (__int128)a.hi * b.hi};
			__int128 l = v[0], h = v[0];
			for (int i = 1; i < 4; i++) { if (v[i] < l) l = v[i]; if (v[i] > h) h = v[i]; }
			int s = a.s + b.s;
			if (l < -DYMAX || h > DYMAX || s < -400 || s > 400) break;
			r.ok = true; r.I = bin(MUL, a.I, b.I); r.s = s; r.lo = (int64_t)l; r.hi = (int64_t)h;
			break;
		}
		case FADD: case FSUB: {
			Dy a = dy(n->k[0]), b = dy(n->k[1]);
			if (!a.ok || !b.ok) break;
			int s = std::min(a.s, b.s);
			if (!a.lo && !a.hi) s = b.s; else if (!b.lo && !b.hi) s = a.s;
			if (!a.lo && !a.hi) a.s = s;
			if (!b.lo && !b.hi) b.s = s;
			if (!dyShift(a, s) || !dyShift(b, s)) break;
			int64_t l = n->op == FADD ? a.lo + b.lo : a.lo - b.hi, h = n->op == FADD ? a.hi + b.hi : a.hi - b.lo;
			if (l < -DYMAX || h > DYMAX) break;
			r.ok = true; r.I = bin(n->op == FADD ? ADD : SUB, a.I, b.I); r.s = s; r.lo = l; r.hi = h;
			break;
		}
		case ITE: {
			Dy a = dy(n->k[1]), b = dy(n->k[2]);
			if (!a.ok || !b.ok) break;
			int s = std::min(a.s, b.s);
			if (!a.lo && !a.hi) a.s = s = b.s;
			if (!b.lo && !b.hi) b.s = s = a.s;
			if (!dyShift(a, s) || !dyShift(b, s)) break;
			r.ok = true; r.I = ite(n->k[0], a.I, b.I); r.s = s; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
			break;
		}
		default: break;
		}
		return dyMemo[n] = r;
	}
	const Node *dyCmp(Op op, const Node *a, const Node *b)
	{
		if (a->op != CONST && b->op != CONST) {
			Dy x = dy(a), y = dy(b);
			if (!x.ok || !y.ok) return nullptr;
			int s = std::min(x.s, y.s);
			if (!dyShift(x, s) || !dyShift(y, s)) return nullptr;
			return bin(op == FOLT ? SLT : op == FOLE ? SLE : EQ, x.I, y.I);
		}
		bool sw = a->op == CONST;
		const Dy &x = dy(sw ? b : a);
		if (!x.ok) return nullptr;
		double c = b2d(sw ? a->c : b->c);
		if (c != c) return f();
		double k = ldexp(c, -x.s); // exact, or beyond every value of I
		bool   big = k > 9.1e15, small = k < -9.1e15;
		if (op == FOEQ) return big || small || k != floor(k) || ldexp(k, x.s) != c ? f() : bin(EQ, x.I, cst(64, (uint64_t)(int64_t)k));
		if (ldexp(k, x.s) != c && !big && !small) return nullptr;
		if (big) return sw ? f() : t();
		if (small) return sw ? t() : f();
		int64_t fl = (int64_t)floor(k), ce = (int64_t)ceil(k);
		if (!sw) {
			if (op == FOLT) return x.hi < ce ? t() : x.lo >= ce ? f() : bin(SLT, x.I, cst(64, (uint64_t)ce));
			return x.hi <= fl ? t() : x.lo > fl ? f() : bin(SLE, x.I, cst(64, (uint64_t)fl));
		}
		if (op == FOLT) return x.lo > fl ? t() : x.hi <= fl ? f() : bin(SLT, cst(64, (uint64_t)fl), x.I);
		return x.lo >= ce ? t() : x.hi < ce ? f() : bin(SLE, cst(64, (uint64_t)ce), x.I);
	}
	static bool nonneg(const Node *a) { return a->op == ZEXT || (a->op == CONST && !(a->c >> (a->w - 1))); }
	const Node *isnan(const Node *a)
	{
		if (a->op == CONST) return cst(1, foldUn(FISNAN, 1, a->w, a->c, 0));
		if (a->op == SITOF || a->op == UITOF) return f();
		if (dy(a).ok) return f();
		return mk(FISNAN, 1, 0, a);
	}
	const Node *extract(const Node *a, unsigned lo, unsigned w)
	{
		if (lo == 0 && w == a->w) return a;
		switch (a->op) {
		case CONST: return cst(w, a->c >> lo);
		case EXTRACT: return extract(a->k[0], a->c + lo, w);
		case CONCAT: {
			unsigned lw = a->k[1]->w;
			if (lo >= lw) return extract(a->k[0], lo - lw, w);
			if (lo + w <= lw) return extract(a->k[1], lo, w);
			return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
		}
		case ZEXT: {
			unsigned kw = a->k[0]->w;
			if (lo >= kw) return cst(w, 0);
			if (lo + w <= kw) return extract(a->k[0], lo, w);
			return zext(extract(a->k[0], lo, kw - lo), w);
		}
		case SEXT: {
			unsigned kw = a->k[0]->w;
			if (lo + w <= kw) return extract(a->k[0], lo, w);
			break;
		}
		case ITE:
			if (a->k[1]->op == CONST || a->k[2]->op == CONST)
				return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
			break;
		case AND: case OR: case XOR:
			return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
		case ADD: case MUL:
			if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
			break;
		default: break;
		}
		return mk(EXTRACT, w, lo, a);
	}
	const Node *concat(const Node *hi, const Node *lo)
	{
		unsigned w = hi->w + lo->w;
		if (hi->op == CONST && lo->op == CONST) return cst(w, (hi->c << lo->w) | lo->c);
		if (hi->op == CONST && hi->c == 0) return zext(lo, w);
		if (hi->op == EXTRACT) {
			if (lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
				return extract(hi->k[0], lo->c, w);
			if (lo->op == CONCAT && lo->k[0]->op == EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
				return concat(extract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
			// hi part of x, lo == low part of x that simplified
			if (hi->c == lo->w && extract(hi->k[0], 0, lo->w) == lo && hi->c + hi->w <= hi->k[0]->w)
				return extract(hi->k[0], 0, w);
		}
		if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0])
			return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
		if (hi->op == ITE && lo->op == CONST && hi->k[1]->op == CONST && hi->k[2]->op == CONST)
			return ite(hi->k[0], concat(hi->k[1], lo), concat(hi->k[2], lo));
		return mk(CONCAT, w, 0, hi, lo);
	}
	const Node *zext(const Node *a, unsigned w)
	{
		if (a->w == w) return a;
		if (a->op == CONST) return cst(w, a->c);
		if (a->op == ZEXT) return zext(a->k[0], w);
		if (a->op == ITE && a->k[1]->op == CONST && a->k[2]->op == CONST) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
		return mk(ZEXT, w, 0, a);
	}
	const Node *sext(const Node *a, unsigned w)
	{
		if (a->w == w) return a;
		if (a->op == CONST) return cst(w, (uint64_t)sx(a->c, a->w));
		if (a->op == SEXT) return sext(a->k[0], w);
		if (a->op == ZEXT) return zext(a->k[0], w);
		if (a->op == ITE && a->k[1]->op == CONST && a->k[2]->op == CONST) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
		return mk(SEXT, w, 0, a);
	}
	const Node *ite(const Node *c, const Node *a, const Node *b)
	{
		if (c->op == CONST) return c->c ? a : b;
		if (a == b) return a;
		if (c->op == XOR && c->k[1]->op == CONST) return ite(c->k[0], b, a);
		if (a->w == 1) {
			if (a->op == CONST) return a->c ? orE(c, b) : andE(notE(c), b);
			if (b->op == CONST) return b->c ? orE(notE(c), a) : andE(c, a);
		}
		if (b->op == ITE && b->k[0] == c) return ite(c, a, b->k[2]);
		if (a->op == ITE && a->k[0] == c) return ite(c, a->k[1], b);
		return mk(ITE, a->w, 0, c, a, b);
	}
	const Node *un(Op op, unsigned w, const Node *a, uint64_t c = 0)
	{
		if (a->op == CONST) return cst(w, foldUn(op, w, a->w, a->c, c));
		if ((op == FTOSI || op == FTOUI) && w == 64 && a->w == 64) {
			const Dy &d = dy(a);
			if (d.ok && (op == FTOSI || d.lo >= 0)) {
				if (d.s >= 0) { if (d.s < 9) return bin(SHL, d.I, cst(64, d.s)); }
				else if (d.s < -62) return cst(64, 0);
				else if (d.lo >= 0) return bin(LSHR, d.I, cst(64, -d.s));
				else return bin(SDIV, d.I, cst(64, 1ULL << -d.s));
			}
		}
		return mk(op, w, c, a);
	}

	uint32_t gen = 0;
	uint64_t eval(const Node *n, const Model &m) { gen++; return ev(n, m); }
	uint64_t ev(const Node *n, const Model &m)
	{
		if (n->op == CONST) return n->c;
		if (n->gen == gen) return n->val;
		uint64_t r;
		switch (n->op) {
		case VAR: r = n->c < m.size() ? m[n->c] & maskw(n->w) : 0; break;
		case ITE: r = ev(n->k[0], m) ? ev(n->k[1], m) : ev(n->k[2], m); break;
		case CONCAT: r = (ev(n->k[0], m) << n->k[1]->w) | ev(n->k[1], m); break;
		default:
			if (n->k[1]) { bool ok; uint64_t a = ev(n->k[0], m), b = ev(n->k[1], m); r = foldBin(n->op, n->k[0]->w, a, b, ok); }
			else r = foldUn(n->op, n->w, n->k[0]->w, ev(n->k[0], m), n->c);
		}
		n->gen = gen; n->val = r;
		return r;
	}

	// ---- Z3 translation
	Z3_context ctx = nullptr;
	Z3_sort    fp64, fp32;
	Z3_ast     rne, rna, rtp, rtn, rtz;
	std::vector<Z3_ast> varAst;
	void initZ3()
	{
		Z3_config cfg = Z3_mk_config();
		ctx = Z3_mk_context(cfg); // no automatic GC of asts: kept for the whole run
		Z3_del_config(cfg);
		fp64 = Z3_mk_fpa_sort_64(ctx); fp32 = Z3_mk_fpa_sort_32(ctx);
		rne = Z3_mk_fpa_rne(ctx); rna = Z3_mk_fpa_rna(ctx); rtp = Z3_mk_fpa_rtp(ctx);
		rtn = Z3_mk_fpa_rtn(ctx); rtz = Z3_mk_fpa_rtz(ctx);
	}
	Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
	Z3_ast  num(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
	Z3_sort fps(unsigned w) { return w == 64 ? fp64 : fp32; }
	Z3_ast  varZ(const Node *n)
	{
		if (varAst.size() <= n->c) varAst.resize(n->c + 1, nullptr);
		if (!varAst[n->c])
			varAst[n->c] = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)n->c), bvs(n->w));
		return varAst[n->c];
	}
	Z3_ast b1(Z3_ast boolean) { return Z3_mk_ite(ctx, boolean, num(1, 1), num(1, 0)); }
	Z3_ast fp(const Node *n)
	{
		if (n->fp) return n->fp;
		Z3_ast r;
		switch (n->op) {
		case FADD: r = Z3_mk_fpa_add(ctx, rne, fp(n->k[0]), fp(n->k[1])); break;
		case FSUB: r = Z3_mk_fpa_sub(ctx, rne, fp(n->k[0]), fp(n->k[1])); break;
		case FMUL: r = Z3_mk_fpa_mul(ctx, rne, fp(n->k[0]), fp(n->k[1])); break;
		case FDIV: r = Z3_mk_fpa_div(ctx, rne, fp(n->k[0]), fp(n->k[1])); break;
		case FRND: {
			Z3_ast ms[] = {rne, rna, rtp, rtn, rtz};
			r = Z3_mk_fpa_round_to_integral(ctx, ms[n->c], fp(n->k[0])); break;
		}
		case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, fp(n->k[0])); break;
		case SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bv(n->k[0]), fps(n->w)); break;
		case UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(n->k[0]), fps(n->w)); break;
		case FEXT: case FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, fp(n->k[0]), fps(n->w)); break;
		case ITE: r = Z3_mk_ite(ctx, boolOf(n->k[0]), fp(n->k[1]), fp(n->k[2])); break;
		default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(n), fps(n->w)); break;
		}
		return n->fp = r;
	}
	// IEEE comparisons of values that involve no floating-point arithmetic are
	// encoded directly on the bit patterns (sign-magnitude to two's complement)
	static bool plain(const Node *n) { return !n->k[0]->hasFP && !n->k[1]->hasFP; }
	Z3_ast nanBV(const Node *x)
	{
		unsigned w = x->w;
		uint64_t inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
		return Z3_mk_bvugt(ctx, Z3_mk_bvand(ctx, bv(x), num(w, maskw(w) >> 1)), num(w, inf));
	}
	Z3_ast keyBV(const Node *x)
	{
		unsigned w = x->w;
		uint64_t sg = 1ULL << (w - 1);
		if (x->op == CONST) return num(w, (x->c & sg) ? sg - x->c : x->c);
		return Z3_mk_ite(ctx, Z3_mk_bvslt(ctx, bv(x), num(w, 0)), Z3_mk_bvsub(ctx, num(w, sg), bv(x)), bv(x));
	}
	Z3_ast fcmpBV(const Node *n)
	{
		const Node *a = n->k[0], *b = n->k[1];
		Z3_ast ka = keyBV(a), kb = keyBV(b);
		Z3_ast c = n->op == FOLT ? Z3_mk_bvslt(ctx, ka, kb) : n->op == FOLE ? Z3_mk_bvsle(ctx, ka, kb) : Z3_mk_eq(ctx, ka, kb);
		Z3_ast l[3] = {Z3_mk_not(ctx, nanBV(a)), Z3_mk_not(ctx, nanBV(b)), c};
		return Z3_mk_and(ctx, 3, l);
	}
	Z3_ast boolOf(const Node *n)
	{
		switch (n->op) {
		case EQ: return Z3_mk_eq(ctx, bv(n->k[0]), bv(n->k[1]));
		case ULT: return Z3_mk_bvult(ctx, bv(n->k[0]), bv(n->k[1]));
		case ULE: return Z3_mk_bvule(ctx, bv(n->k[0]), bv(n->k[1]));
		case SLT: return Z3_mk_bvslt(ctx, bv(n->k[0]), bv(n->k[1]));
		case SLE: return Z3_mk_bvsle(ctx, bv(n->k[0]), bv(n->k[1]));
		case FOLT: if (plain(n)) return fcmpBV(n); return Z3_mk_fpa_lt(ctx, fp(n->k[0]), fp(n->k[1]));
		case FOLE: if (plain(n)) return fcmpBV(n); return Z3_mk_fpa_leq(ctx, fp(n->k[0]), fp(n->k[1]));
		case FOEQ: if (plain(n)) return fcmpBV(n); return Z3_mk_fpa_eq(ctx, fp(n->k[0]), fp(n->k[1]));
		case FISNAN: if (!n->k[0]->hasFP) return nanBV(n->k[0]); return Z3_mk_fpa_is_nan(ctx, fp(n->k[0]));
		case XOR: if (n->k[1]->op == CONST && n->k[1]->c == 1) return Z3_mk_not(ctx, boolOf(n->k[0])); break;
		case AND: { Z3_ast a[2] = {boolOf(n->k[0]), boolOf(n->k[1])}; return Z3_mk_and(ctx, 2, a); }
		case OR: { Z3_ast a[2] = {boolOf(n->k[0]), boolOf(n->k[1])}; return Z3_mk_or(ctx, 2, a); }
		case CONST: return n->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
		default: break;
		}
		return Z3_mk_eq(ctx, bv(n), num(1, 1));
	}
	Z3_ast bv(const Node *n)
	{
		if (n->bv) return n->bv;
		Z3_ast r;
#define B(i) bv(n->k[i])
		switch (n->op) {
		case CONST: r = num(n->w, n->c); break;
		case VAR: r = varZ(n); break;
		case ADD: r = Z3_mk_bvadd(ctx, B(0), B(1)); break;
		case SUB: r = Z3_mk_bvsub(ctx, B(0), B(1)); break;
		case MUL: r = Z3_mk_bvmul(ctx, B(0), B(1)); break;
		case UDIV: r = Z3_mk_bvudiv(ctx, B(0), B(1)); break;
		case SDIV: r = Z3_mk_bvsdiv(ctx, B(0), B(1)); break;
		case UREM: r = Z3_mk_bvurem(ctx, B(0), B(1)); break;
		case SREM: r = Z3_mk_bvsrem(ctx, B(0), B(1)); break;
		case AND: if (n->w == 1) r = b1(boolOf(n)); else r = Z3_mk_bvand(ctx, B(0), B(1)); break;
		case OR: if (n->w == 1) r = b1(boolOf(n)); else r = Z3_mk_bvor(ctx, B(0), B(1)); break;
		case XOR: r = Z3_mk_bvxor(ctx, B(0), B(1)); break;
		case SHL: r = Z3_mk_bvshl(ctx, B(0), B(1)); break;
		case LSHR: r = Z3_mk_bvlshr(ctx, B(0), B(1)); break;
		case ASHR: r = Z3_mk_bvashr(ctx, B(0), B(1)); break;
		case EQ: case ULT: case ULE: case SLT: case SLE: case FOLT: case FOLE: case FOEQ: case FISNAN:
			r = b1(boolOf(n)); break;
		case ITE: r = Z3_mk_ite(ctx, boolOf(n->k[0]), B(1), B(2)); break;
		case CONCAT: r = Z3_mk_concat(ctx, B(0), B(1)); break;
		case EXTRACT: r = Z3_mk_extract(ctx, n->c + n->w - 1, n->c, B(0)); break;
		case ZEXT: r = Z3_mk_zero_ext(ctx, n->w - n->k[0]->w, B(0)); break;
		case SEXT: r = Z3_mk_sign_ext(ctx, n->w - n->k[0]->w, B(0)); break;
		case FTOSI: {
			// x86 semantics outside the range (UB in C, flagged separately)
			unsigned kw = n->k[0]->w; double lim = ldexp(1.0, n->w - 1);
			Z3_ast x = fp(n->k[0]);
			Z3_ast lo = n->w == 64 ? Z3_mk_fpa_geq(ctx, x, Z3_mk_fpa_numeral_double(ctx, -lim, fps(kw)))
			                       : Z3_mk_fpa_gt(ctx, x, Z3_mk_fpa_numeral_double(ctx, -lim - 1.0, fps(kw)));
			Z3_ast a[2] = {lo, Z3_mk_fpa_lt(ctx, x, Z3_mk_fpa_numeral_double(ctx, lim, fps(kw)))};
			r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, a), Z3_mk_fpa_to_sbv(ctx, rtz, x, n->w), num(n->w, 1ULL << (n->w - 1)));
			break;
		}
		case FTOUI: {
			unsigned kw = n->k[0]->w; double lim = ldexp(1.0, n->w);
			Z3_ast x = fp(n->k[0]);
			Z3_ast a[2] = {Z3_mk_fpa_gt(ctx, x, Z3_mk_fpa_numeral_double(ctx, -1.0, fps(kw))),
			               Z3_mk_fpa_lt(ctx, x, Z3_mk_fpa_numeral_double(ctx, lim, fps(kw)))};
			r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, a), Z3_mk_fpa_to_ubv(ctx, rtz, x, n->w), num(n->w, 1ULL << (n->w - 1)));
			break;
		}
		default: { // FP-valued: canonical NaN
			Z3_ast x = fp(n);
			r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), num(n->w, n->w == 64 ? 0x7ff8000000000000ULL : 0x7fc00000ULL),
			              Z3_mk_fpa_to_ieee_bv(ctx, x));
			break;
		}
		}
#undef B
		return n->bv = r;
	}
};
