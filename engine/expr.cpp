#include "expr.h"
#include <algorithm>
#include <deque>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;

struct NodeHash { size_t operator()(E n) const {
	size_t h = n->op * 1000003u + n->w;
	h = h * 31 + n->val * 0x9E3779B97F4A7C15ULL;
	for(int i = 0; i < n->nc; i++) h = (h ^ n->c[i]->id) * 0x9E3779B97F4A7C15ULL + (h >> 29);
	if(n->op == RCONST) h ^= std::hash<long double>()(n->rval);
	return h; } };
struct NodeEq { bool operator()(E a, E b) const {
	if(a->op != b->op or a->w != b->w or a->val != b->val or a->nc != b->nc) return false;
	for(int i = 0; i < a->nc; i++) if(a->c[i] != b->c[i]) return false;
	if(a->op == RCONST) { if(std::isnan(a->rval) and std::isnan(b->rval)) return true; return a->rval == b->rval and std::signbit(a->rval) == std::signbit(b->rval); }
	return true; } };

static std::unordered_set<E, NodeHash, NodeEq> *g_tab = new std::unordered_set<E, NodeHash, NodeEq>(1 << 16);
static std::deque<Node> *g_nodes = new std::deque<Node>();

static E intern(Op op, unsigned w, uint64_t val, std::initializer_list<E> c, long double rval = 0)
{
	Node n; memset((void *)&n.c, 0, sizeof(n.c));
	n.op = op; n.w = w; n.val = val; n.rval = rval; n.nc = c.size();
	int i = 0, d = 0;
	n.hasReal = (w == 0); n.hasArr = (op == SELECT);
	for(E e : c) { n.c[i++] = e; d = std::max(d, e->depth); n.hasReal |= e->hasReal; n.hasArr |= e->hasArr; }
	if(op == UF) n.hasReal = true;
	n.depth = d + 1; n.id = 0;
	auto it = g_tab->find(&n);
	if(it != g_tab->end()) return *it;
	n.id = g_nodes->size();
	g_nodes->push_back(n);
	E e = &g_nodes->back();
	g_tab->insert(e);
	return e;
}

E mkConst(uint64_t v, unsigned w) { return intern(CONST, w, v & maskw(w), {}); }
static uint32_t newVar(const std::string &n, unsigned w, bool arr, bool real) { g_vars.push_back({n, (uint16_t)w, arr, real}); return g_vars.size() - 1; }
E mkVar(const std::string &name, unsigned w) { return intern(VAR, w, newVar(name, w, false, false), {}); }
E mkRVar(const std::string &name) { return intern(RVAR, 0, newVar(name, 0, false, true), {}); }
uint32_t mkArr(const std::string &name, unsigned w) { return newVar(name, w, true, false); }
E mkReal(long double v) { return intern(RCONST, 0, 0, {}, v); }

static E lin(E a, uint64_t &c) { // split off additive constant
	if(a->op == ADD and isC(a->c[0])) { c = a->c[0]->val; return a->c[1]; }
	if(isC(a)) { c = a->val; return nullptr; }
	c = 0; return a;
}

static void addTerms(E e, std::vector<std::pair<E,uint64_t>> &t, uint64_t &c, uint64_t mul, unsigned w, int depth)
{
	if(isC(e)) { c += mul * e->val; return; }
	if(depth > 0) {
		if(e->op == ADD) { addTerms(e->c[0], t, c, mul, w, depth - 1); addTerms(e->c[1], t, c, mul, w, depth - 1); return; }
		if(e->op == SUB) { addTerms(e->c[0], t, c, mul, w, depth - 1); addTerms(e->c[1], t, c, (uint64_t)0 - mul, w, depth - 1); return; }
		if(e->op == MUL and isC(e->c[0])) { addTerms(e->c[1], t, c, mul * e->c[0]->val, w, depth - 1); return; }
	}
	for(auto &p : t) if(p.first == e) { p.second += mul; return; }
	t.push_back({e, mul});
}

static E mkAddRaw(E a, E b) {
	if(isC(a) and a->val == 0) return b;
	if(isC(b) and b->val == 0) return a;
	if(isC(b)) std::swap(a, b);
	if(not isC(a) and a->id > b->id) std::swap(a, b);
	return intern(ADD, a->w, 0, {a, b});
}

static E linearize(E a, E b, bool sub)
{
	unsigned w = a->w;
	std::vector<std::pair<E,uint64_t>> t; uint64_t c = 0;
	addTerms(a, t, c, 1, w, 6);
	addTerms(b, t, c, sub ? ~0ULL : 1, w, 6);
	uint64_t m = maskw(w);
	E pos = nullptr; std::vector<E> neg;
	std::sort(t.begin(), t.end(), [](const std::pair<E,uint64_t> &x, const std::pair<E,uint64_t> &y) { return x.first->id < y.first->id; });
	for(auto &p : t) {
		uint64_t k = p.second & m;
		if(not k) continue;
		if(k == m and w > 1) { neg.push_back(p.first); continue; }
		E term = k == 1 ? p.first : intern(MUL, w, 0, {mkConst(k, w), p.first});
		pos = pos ? mkAddRaw(pos, term) : term;
	}
	c &= m;
	E r = pos;
	for(E n : neg) r = r ? intern(SUB, w, 0, {r, n}) : intern(SUB, w, 0, {mkConst(0, w), n});
	if(not r) return mkConst(c, w);
	if(c) return intern(ADD, w, 0, {mkConst(c, w), r});
	return r;
}

E mkNot(E a) { if(isC(a)) return mkConst(not a->val, 1); if(a->op == XOR and isT(a->c[0])) return a->c[1];
	if(a->op == ULT) return mkCmp(ULE, a->c[1], a->c[0]);
	if(a->op == ULE) return mkCmp(ULT, a->c[1], a->c[0]);
	if(a->op == SLT) return mkCmp(SLE, a->c[1], a->c[0]);
	if(a->op == SLE) return mkCmp(SLT, a->c[1], a->c[0]);
	if(a->op == RLT) return mkRCmp(RLE, a->c[1], a->c[0]);
	if(a->op == RLE) return mkRCmp(RLT, a->c[1], a->c[0]);
	return intern(XOR, 1, 0, {mkConst(1, 1), a}); }
E mkAnd(E a, E b) { if(isF(a) or isF(b)) return mkFalse(); if(isT(a)) return b; if(isT(b)) return a; if(a == b) return a; if(a == mkNot(b)) return mkFalse(); if(a->id > b->id) std::swap(a, b); return intern(AND, 1, 0, {a, b}); }
E mkOr(E a, E b) { if(isT(a) or isT(b)) return mkTrue(); if(isF(a)) return b; if(isF(b)) return a; if(a == b) return a; if(a == mkNot(b)) return mkTrue(); if(a->id > b->id) std::swap(a, b); return intern(OR, 1, 0, {a, b}); }

E mkBin(Op op, E a, E b)
{
	unsigned w = a->w;
	if(a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
	if(isC(a) and isC(b)) {
		uint64_t x = a->val, y = b->val; int64_t sx = sextw(x, w), sy = sextw(y, w);
		switch(op) {
		case ADD: return mkConst(x + y, w);
		case SUB: return mkConst(x - y, w);
		case MUL: return mkConst(x * y, w);
		case UDIV: if(y) return mkConst(x / y, w); break;
		case UREM: if(y) return mkConst(x % y, w); break;
		case SDIV: if(sy and not (sy == -1)) return mkConst(sx / sy, w); if(sy == -1) return mkConst(0 - x, w); break;
		case SREM: if(sy == -1) return mkConst(0, w); if(sy) return mkConst(sx % sy, w); break;
		case AND: return mkConst(x & y, w);
		case OR: return mkConst(x | y, w);
		case XOR: return mkConst(x ^ y, w);
		case SHL: return mkConst(y >= w ? 0 : x << y, w);
		case LSHR: return mkConst(y >= w ? 0 : x >> y, w);
		case ASHR: return mkConst(sx >> (y >= w ? w - 1 : y), w);
		default: break;
		}
	}
	if(w == 1) {
		switch(op) {
		case AND: case MUL: return mkAnd(a, b);
		case OR: return mkOr(a, b);
		case XOR: case ADD: case SUB: if(isC(a)) return a->val ? mkNot(b) : b; if(isC(b)) return b->val ? mkNot(a) : a; if(a == b) return mkFalse();
			if(a->id > b->id) std::swap(a, b); return mkNot(intern(EQ, 1, 0, {a, b}));
		default: break;
		}
	}
	switch(op) {
	case ADD: case SUB: return linearize(a, b, op == SUB);
	case MUL:
		if(isC(b)) std::swap(a, b);
		if(isC(a)) { if(a->val == 0) return a; if(a->val == 1) return b;
			if(b->op == MUL and isC(b->c[0])) return mkBin(MUL, mkConst(a->val * b->c[0]->val, w), b->c[1]);
			if(b->op == ADD and isC(b->c[0])) return mkBin(ADD, mkConst(a->val * b->c[0]->val, w), mkBin(MUL, a, b->c[1]));
			return intern(MUL, w, 0, {a, b}); }
		if(a->id > b->id) std::swap(a, b);
		break;
	case AND:
		if(isC(b)) std::swap(a, b);
		if(a == b) return a;
		if(isC(a)) {
			if(a->val == 0) return a; if(a->val == maskw(w)) return b;
			if(b->op == AND and isC(b->c[0])) return mkBin(AND, mkConst(a->val & b->c[0]->val, w), b->c[1]);
			uint64_t v = a->val;
			if((v & (v + 1)) == 0) { // low mask
				unsigned k = __builtin_popcountll(v); return mkZext(mkExtract(b, 0, k), w);
			}
			unsigned lo = __builtin_ctzll(v), hi = 64 - __builtin_clzll(v);
			if(__builtin_popcountll(v) == (int)(hi - lo)) { // contiguous
				E m = mkExtract(b, lo, hi - lo);
				return mkZext(mkConcat(m, mkConst(0, lo)), w);
			}
			if(b->op == ZEXT and (v & ~maskw(b->c[0]->w))) return mkBin(AND, mkConst(v & maskw(b->c[0]->w), w), b);
		} else if(a->id > b->id) std::swap(a, b);
		break;
	case OR:
		if(isC(b)) std::swap(a, b);
		if(a == b) return a;
		if(isC(a)) { if(a->val == 0) return b; if(a->val == maskw(w)) return a; }
		else if(a->id > b->id) std::swap(a, b);
		// or of disjoint pieces -> concat (x << k | zext y)
		{
			E hi = nullptr, lo = nullptr;
			for(int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
				if(x->op == CONCAT and isC(x->c[1]) and x->c[1]->val == 0) {
					unsigned k = x->c[1]->w;
					E yl = nullptr;
					if(y->op == ZEXT and y->c[0]->w <= k) yl = mkZext(y->c[0], k);
					else if(isC(y) and y->val <= maskw(k)) yl = mkConst(y->val, k);
					if(yl) { hi = x->c[0]; lo = yl; break; }
				}
				// zext(concat(h,0_k)) | zext(y)
				if(x->op == ZEXT and x->c[0]->op == CONCAT and isC(x->c[0]->c[1]) and x->c[0]->c[1]->val == 0) {
					unsigned k = x->c[0]->c[1]->w;
					E yl = nullptr;
					if(y->op == ZEXT and y->c[0]->w <= k) yl = mkZext(y->c[0], k);
					else if(isC(y) and y->val <= maskw(k)) yl = mkConst(y->val, k);
					if(yl) return mkZext(mkConcat(x->c[0]->c[0], yl), w);
				}
			}
			if(hi) return mkConcat(hi, lo);
		}
		break;
	case XOR:
		if(isC(b)) std::swap(a, b);
		if(a == b) return mkConst(0, w);
		if(isC(a)) { if(a->val == 0) return b; if(b->op == XOR and isC(b->c[0])) return mkBin(XOR, mkConst(a->val ^ b->c[0]->val, w), b->c[1]); }
		else if(a->id > b->id) std::swap(a, b);
		break;
	case SHL:
		if(isC(b)) { uint64_t k = b->val; if(k == 0) return a; if(k >= w) return mkConst(0, w);
			return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k)); }
		if(isC(a) and a->val == 0) return a;
		break;
	case LSHR:
		if(isC(b)) { uint64_t k = b->val; if(k == 0) return a; if(k >= w) return mkConst(0, w);
			return mkZext(mkExtract(a, k, w - k), w); }
		if(isC(a) and a->val == 0) return a;
		break;
	case ASHR:
		if(isC(b)) { uint64_t k = b->val; if(k == 0) return a; if(k >= w) k = w - 1;
			return mkSext(mkExtract(a, k, w - k), w); }
		break;
	case UDIV:
		if(isC(b) and b->val == 1) return a;
		if(isC(b) and b->val and (b->val & (b->val - 1)) == 0) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->val), w));
		break;
	case UREM:
		if(isC(b) and b->val == 1) return mkConst(0, w);
		if(isC(b) and b->val and (b->val & (b->val - 1)) == 0) return mkBin(AND, a, mkConst(b->val - 1, w));
		break;
	default: break;
	}
	return intern(op, w, 0, {a, b});
}

static uint64_t umaxOf(E e, int d = 4) { // cheap upper bound
	if(isC(e)) return e->val;
	if(d == 0) return maskw(e->w);
	switch(e->op) {
	case ZEXT: return umaxOf(e->c[0], d - 1);
	case ITE: return std::max(umaxOf(e->c[1], d - 1), umaxOf(e->c[2], d - 1));
	case AND: return std::min(umaxOf(e->c[0], d - 1), umaxOf(e->c[1], d - 1));
	case UREM: if(isC(e->c[1]) and e->c[1]->val) return e->c[1]->val - 1; break;
	case ADD: { uint64_t x = umaxOf(e->c[0], d - 1), y = umaxOf(e->c[1], d - 1), s = x + y; if(s >= x and s <= maskw(e->w)) return s; break; }
	case MUL: { uint64_t x = umaxOf(e->c[0], d - 1), y = umaxOf(e->c[1], d - 1); unsigned __int128 s = (unsigned __int128)x * y; if(s <= maskw(e->w)) return (uint64_t)s; break; }
	case CONCAT: { return (umaxOf(e->c[0], d - 1) << e->c[1]->w) | umaxOf(e->c[1], d - 1); }
	default: break;
	}
	return maskw(e->w);
}

E mkCmp(Op op, E a, E b)
{
	unsigned w = a->w;
	if(a->w != b->w) { fprintf(stderr, "cmp width mismatch %u %u\n", a->w, b->w); abort(); }
	if(isC(a) and isC(b)) {
		uint64_t x = a->val, y = b->val; int64_t sx = sextw(x, w), sy = sextw(y, w);
		switch(op) { case EQ: return mkConst(x == y, 1); case ULT: return mkConst(x < y, 1); case ULE: return mkConst(x <= y, 1); case SLT: return mkConst(sx < sy, 1); case SLE: return mkConst(sx <= sy, 1); default: abort(); }
	}
	if(a == b) return mkConst(op == EQ or op == ULE or op == SLE, 1);
	if(op == EQ) {
		if(isC(b)) std::swap(a, b);
		if(w == 1 and isC(a)) return a->val ? b : mkNot(b);
		if(isC(a)) {
			if(b->op == ZEXT) { if(a->val > maskw(b->c[0]->w)) return mkFalse(); return mkCmp(EQ, mkConst(a->val, b->c[0]->w), b->c[0]); }
			if(b->op == SEXT) { uint64_t t = a->val & maskw(b->c[0]->w); if((uint64_t)sextw(t, b->c[0]->w) % 1 == 0 and ((uint64_t)sextw(t, b->c[0]->w) & maskw(w)) != a->val) return mkFalse(); return mkCmp(EQ, mkConst(t, b->c[0]->w), b->c[0]); }
			if(b->op == ADD and isC(b->c[0])) return mkCmp(EQ, mkConst(a->val - b->c[0]->val, w), b->c[1]);
			if(b->op == SUB and isC(b->c[0])) return mkCmp(EQ, mkConst(b->c[0]->val - a->val, w), b->c[1]);
			if(b->op == SUB and a->val == 0) return mkCmp(EQ, b->c[0], b->c[1]);
			if(b->op == XOR and isC(b->c[0])) return mkCmp(EQ, mkConst(a->val ^ b->c[0]->val, w), b->c[1]);
			if(b->op == CONCAT) return mkAnd(mkCmp(EQ, mkConst(a->val >> b->c[1]->w, b->c[0]->w), b->c[0]), mkCmp(EQ, mkConst(a->val, b->c[1]->w), b->c[1]));
			if(b->op == ITE) {
				E t = b->c[1], f = b->c[2];
				if(isC(t) and isC(f)) { bool bt = t->val == a->val, bf = f->val == a->val; if(bt and bf) return mkTrue(); if(bt) return b->c[0]; if(bf) return mkNot(b->c[0]); return mkFalse(); }
				if(isC(t)) return t->val == a->val ? mkOr(b->c[0], mkCmp(EQ, a, f)) : mkAnd(mkNot(b->c[0]), mkCmp(EQ, a, f));
				if(isC(f)) return f->val == a->val ? mkOr(mkNot(b->c[0]), mkCmp(EQ, a, t)) : mkAnd(b->c[0], mkCmp(EQ, a, t));
			}
			if(umaxOf(b) < a->val) return mkFalse();
		} else {
			if(a->op == ZEXT and b->op == ZEXT and a->c[0]->w == b->c[0]->w) return mkCmp(EQ, a->c[0], b->c[0]);
			uint64_t ca, cb; E ra = lin(a, ca), rb = lin(b, cb);
			if(ra == rb and ra) return mkConst(ca == cb, 1);
			if(ca and cb and ra and rb) return mkCmp(EQ, mkBin(ADD, mkConst(ca - cb, w), ra), rb);
			if(a->id > b->id) std::swap(a, b);
		}
		return intern(EQ, 1, 0, {a, b});
	}
	if(op == ULT) {
		if(isC(b) and b->val == 0) return mkFalse();
		if(isC(a) and a->val == maskw(w)) return mkFalse();
		if(isC(b) and b->val == 1) return mkCmp(EQ, a, mkConst(0, w));
		if(isC(a) and a->val == 0) return mkNot(mkCmp(EQ, b, a));
		if(isC(b) and umaxOf(a) < b->val) return mkTrue();
		if(isC(a) and umaxOf(b) <= a->val) return mkFalse();
	}
	if(op == ULE) {
		if(isC(a) and a->val == 0) return mkTrue();
		if(isC(b) and b->val == maskw(w)) return mkTrue();
		if(isC(b) and b->val == 0) return mkCmp(EQ, a, b);
		if(isC(b) and umaxOf(a) <= b->val) return mkTrue();
		if(isC(a) and umaxOf(b) < a->val) return mkFalse();
	}
	if(op == ULT or op == ULE) {
		if(a->op == ZEXT and b->op == ZEXT) { unsigned m = std::max(a->c[0]->w, b->c[0]->w); return mkCmp(op, mkZext(a->c[0], m), mkZext(b->c[0], m)); }
		if(a->op == ZEXT and isC(b) and b->val <= maskw(a->c[0]->w)) return mkCmp(op, a->c[0], mkConst(b->val, a->c[0]->w));
		if(b->op == ZEXT and isC(a) and a->val <= maskw(b->c[0]->w)) return mkCmp(op, mkConst(a->val, b->c[0]->w), b->c[0]);
	}
	if(op == SLT or op == SLE) {
		// both provably non-negative -> unsigned
		uint64_t lim = maskw(w) >> 1;
		if(umaxOf(a) <= lim and umaxOf(b) <= lim) return mkCmp(op == SLT ? ULT : ULE, a, b);
		if(a->op == SEXT and b->op == SEXT and a->c[0]->w == b->c[0]->w) return mkCmp(op, a->c[0], b->c[0]);
	}
	if(a->op == ITE and isC(b) and isC(a->c[1]) and isC(a->c[2])) { E t = mkCmp(op, a->c[1], b), f = mkCmp(op, a->c[2], b); return mkIte(a->c[0], t, f); }
	if(b->op == ITE and isC(a) and isC(b->c[1]) and isC(b->c[2])) { E t = mkCmp(op, a, b->c[1]), f = mkCmp(op, a, b->c[2]); return mkIte(b->c[0], t, f); }
	return intern(op, 1, 0, {a, b});
}

E mkIte(E c, E a, E b)
{
	if(isC(c)) return c->val ? a : b;
	if(a == b) return a;
	if(a->w == 1 and a->op != RCONST) {
		if(isT(a)) return mkOr(c, b);
		if(isF(a)) return mkAnd(mkNot(c), b);
		if(isT(b)) return mkOr(mkNot(c), a);
		if(isF(b)) return mkAnd(c, a);
	}
	if(c->op == XOR and isT(c->c[0])) return mkIte(c->c[1], b, a);
	if(b->op == ITE and b->c[0] == c) return mkIte(c, a, b->c[2]);
	if(a->op == ITE and a->c[0] == c) return mkIte(c, a->c[1], b);
	return intern(ITE, a->w, 0, {c, a, b});
}

E mkExtract(E a, unsigned lo, unsigned w)
{
	if(w == a->w) return a;
	if(lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
	if(isC(a)) return mkConst(a->val >> lo, w);
	switch(a->op) {
	case EXTRACT: return mkExtract(a->c[0], a->val + lo, w);
	case ZEXT: { unsigned iw = a->c[0]->w; if(lo >= iw) return mkConst(0, w); if(lo + w <= iw) return mkExtract(a->c[0], lo, w); return mkZext(mkExtract(a->c[0], lo, iw - lo), w); }
	case SEXT: { unsigned iw = a->c[0]->w; if(lo + w <= iw) return mkExtract(a->c[0], lo, w); if(lo < iw) return mkSext(mkExtract(a->c[0], lo, iw - lo), w); break; }
	case CONCAT: { unsigned lw = a->c[1]->w; if(lo + w <= lw) return mkExtract(a->c[1], lo, w); if(lo >= lw) return mkExtract(a->c[0], lo - lw, w);
		return mkConcat(mkExtract(a->c[0], 0, lo + w - lw), mkExtract(a->c[1], lo, lw - lo)); }
	case AND: case OR: case XOR:
		if(isC(a->c[0]) or w <= 8) return mkBin(a->op, mkExtract(a->c[0], lo, w), mkExtract(a->c[1], lo, w));
		break;
	case ADD: case SUB: case MUL: if(lo == 0) return mkBin(a->op, mkExtract(a->c[0], 0, w), mkExtract(a->c[1], 0, w)); break;
	case ITE: if((isC(a->c[1]) or isC(a->c[2])) or a->depth < 12) return mkIte(a->c[0], mkExtract(a->c[1], lo, w), mkExtract(a->c[2], lo, w)); break;
	default: break;
	}
	return intern(EXTRACT, w, lo, {a});
}

E mkConcat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if(w > 64) { fprintf(stderr, "concat > 64\n"); abort(); }
	if(isC(hi) and isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
	if(isC(hi) and hi->val == 0) return mkZext(lo, w);
	if(hi->op == EXTRACT and lo->op == EXTRACT and hi->c[0] == lo->c[0] and hi->val == lo->val + lo->w) return mkExtract(hi->c[0], lo->val, w);
	if(hi->op == EXTRACT and lo->w + 0 == hi->val and lo->op != EXTRACT and hi->c[0]->op == ZEXT) { }
	if(lo->op == CONCAT and hi->op == EXTRACT and lo->c[0]->op == EXTRACT and hi->c[0] == lo->c[0]->c[0] and hi->val == lo->c[0]->val + lo->c[0]->w)
		return mkConcat(mkExtract(hi->c[0], lo->c[0]->val, hi->w + lo->c[0]->w), lo->c[1]);
	if(hi->op == CONCAT) return mkConcat(hi->c[0], mkConcat(hi->c[1], lo)); // right-assoc
	if(isC(hi) and lo->op == CONCAT and isC(lo->c[0])) return mkConcat(mkConcat(hi, lo->c[0]), lo->c[1]);
	if(hi->op == ZEXT) return mkZext(mkConcat(hi->c[0], lo), w);
	if(hi->op == ITE and lo->op == ITE and hi->c[0] == lo->c[0]) return mkIte(hi->c[0], mkConcat(hi->c[1], lo->c[1]), mkConcat(hi->c[2], lo->c[2]));
	return intern(CONCAT, w, 0, {hi, lo});
}

E mkZext(E a, unsigned w)
{
	if(w == a->w) return a;
	if(isC(a)) return mkConst(a->val, w);
	if(a->op == ZEXT) return mkZext(a->c[0], w);
	return intern(ZEXT, w, 0, {a});
}
E mkSext(E a, unsigned w)
{
	if(w == a->w) return a;
	if(isC(a)) return mkConst(sextw(a->val, a->w), w);
	if(a->op == SEXT) return mkSext(a->c[0], w);
	if(a->op == ZEXT) return mkZext(a->c[0], w);
	return intern(SEXT, w, 0, {a});
}
E mkSelect(uint32_t arr, E idx) { return intern(SELECT, g_vars[arr].w, arr, {idx}); }

static long double rnd(long double v, int fb) { if(fb == 32) return (float)v; if(fb == 64) return (double)v; return v; }
E mkR(Op op, E a, E b, int fb)
{
	bool ca = a->op == RCONST, cb = b->op == RCONST;
	if(ca and cb) switch(op) {
		case RADD: return mkReal(rnd(a->rval + b->rval, fb));
		case RSUB: return mkReal(rnd(a->rval - b->rval, fb));
		case RMUL: return mkReal(rnd(a->rval * b->rval, fb));
		case RDIV: return mkReal(rnd(a->rval / b->rval, fb));
		default: break;
	}
	if(ca and not std::isfinite(a->rval)) { // symbolic side is finite
		if(op == RADD or op == RSUB) return a;
		if(std::isnan(a->rval)) return a;
		return nullptr; // sign of the other side needed: caller forks
	}
	if(cb and not std::isfinite(b->rval)) {
		if(op == RADD) return b;
		if(op == RSUB) return mkReal(-b->rval);
		if(op == RDIV and not std::isnan(b->rval)) return mkReal(0);
		if(std::isnan(b->rval)) return b;
		return nullptr;
	}
	if(op == RADD) { if(ca and a->rval == 0) return b; if(cb and b->rval == 0) return a; if(a->id > b->id) std::swap(a, b);
		if(a->op == RSUB and a->c[1] == b) return a->c[0]; if(b->op == RSUB and b->c[1] == a) return b->c[0]; }
	if(op == RSUB) { if(cb and b->rval == 0) return a; if(a == b) return mkReal(0); if(a->op == RADD) { if(a->c[0] == b) return a->c[1]; if(a->c[1] == b) return a->c[0]; } }
	if(op == RMUL) { if(ca and a->rval == 1) return b; if(cb and b->rval == 1) return a; if((ca and a->rval == 0) or (cb and b->rval == 0)) return mkReal(0); if(a->id > b->id) std::swap(a, b); }
	if(op == RDIV) { if(cb and b->rval == 1) return a; }
	return intern(op, 0, 0, {a, b});
}
E mkRCmp(Op op, E a, E b)
{
	bool ca = a->op == RCONST, cb = b->op == RCONST;
	if(ca and cb) switch(op) { case RLT: return mkConst(a->rval < b->rval, 1); case RLE: return mkConst(a->rval <= b->rval, 1); case REQ: return mkConst(a->rval == b->rval, 1); default: break; }
	if(ca and std::isnan(a->rval)) return mkFalse();
	if(cb and std::isnan(b->rval)) return mkFalse();
	if(ca and std::isinf(a->rval)) { if(op == REQ) return mkFalse(); return mkConst(a->rval < 0, 1); }
	if(cb and std::isinf(b->rval)) { if(op == REQ) return mkFalse(); return mkConst(b->rval > 0, 1); }
	if(a == b) return mkConst(op != RLT, 1);
	if(op == REQ and a->id > b->id) std::swap(a, b);
	return intern(op, 1, 0, {a, b});
}
E mkI2R(E a, bool sg)
{
	if(isC(a)) return mkReal(sg ? (long double)sextw(a->val, a->w) : (long double)a->val);
	return intern(sg ? S2R : U2R, 0, 0, {a});
}
E mkR2I(E a, unsigned w, bool sg)
{
	if(a->op == RCONST) { if(not std::isfinite(a->rval)) return mkConst(0x8000000000000000ULL, w); return mkConst(sg ? (uint64_t)(int64_t)a->rval : (a->rval < 0 ? (uint64_t)(int64_t)a->rval : (uint64_t)a->rval), w); }
	if(a->op == U2R and a->c[0]->w <= w and (not sg or a->c[0]->w < w)) return mkZext(a->c[0], w);
	if(a->op == S2R and sg and a->c[0]->w <= w) return mkSext(a->c[0], w);
	return intern(sg ? R2S : R2U, w, 0, {a});
}
E mkR2Bits(E a)
{
	if(a->op == RCONST) { double d = a->rval; uint64_t u; memcpy(&u, &d, 8); return mkConst(u, 64); }
	if(a->op == BITS2R) return a->c[0];
	return intern(R2BITS, 64, 0, {a});
}
E mkBits2R(E a)
{
	if(isC(a)) { double d; uint64_t u = a->val; memcpy(&d, &u, 8); return mkReal(d); }
	if(a->op == R2BITS) return a->c[0];
	return intern(BITS2R, 0, 0, {a});
}
E mkUF(const std::string &name, std::vector<E> args, unsigned w)
{
	size_t i = 0; std::string key = name + "/" + std::to_string(args.size()) + "/" + std::to_string(w);
	for(; i < g_ufs.size(); i++) if(g_ufs[i] == key) break;
	if(i == g_ufs.size()) g_ufs.push_back(key);
	if(args.size() == 1) return intern(UF, w, i, {args[0]});
	if(args.size() == 2) return intern(UF, w, i, {args[0], args[1]});
	return intern(UF, w, i, {args[0], args[1], args[2]});
}

const std::vector<uint32_t> & varsOf(E e)
{
	if(e->vars) return *e->vars;
	auto r = std::make_shared<std::vector<uint32_t>>();
	if(e->op == VAR or e->op == RVAR) r->push_back(e->val);
	else {
		for(int i = 0; i < e->nc; i++) { auto &v = varsOf(e->c[i]); if(r->empty()) { if(e->nc == 1 and e->op != SELECT) { e->vars = e->c[i]->vars; return *e->vars; } *r = v; } else if(not v.empty()) {
			std::vector<uint32_t> t; std::set_union(r->begin(), r->end(), v.begin(), v.end(), std::back_inserter(t)); r->swap(t); } }
		if(e->op == SELECT) { auto it = std::lower_bound(r->begin(), r->end(), (uint32_t)e->val); if(it == r->end() or *it != e->val) r->insert(it, e->val); }
		if(e->op == UF or e->op == R2BITS or e->op == BITS2R) { uint32_t k = 0x80000000u + (e->op == UF ? e->val : 0x1000); auto it = std::lower_bound(r->begin(), r->end(), k); if(it == r->end() or *it != k) r->insert(it, k); }
	}
	e->vars = r;
	return *r;
}

static uint64_t g_epoch = 0;
static bool evalRec(E e, const Model &m, uint64_t *out)
{
	if(e->op == CONST) { *out = e->val; return true; }
	if(e->hasReal) return false;
	if(e->evalEpoch == g_epoch) { *out = e->evalVal; return true; }
	uint64_t a = 0, b = 0, r = 0; unsigned w = e->w;
	if(e->op == VAR) { auto it = m.v.find(e->val); r = it == m.v.end() ? 0 : it->second; }
	else if(e->op == SELECT) {
		if(not evalRec(e->c[0], m, &a)) return false;
		auto it = m.arr.find(e->val); r = 0;
		auto d = m.arrDefault.find(e->val); if(d != m.arrDefault.end()) r = d->second;
		if(it != m.arr.end()) { auto jt = it->second.find(a); if(jt != it->second.end()) r = jt->second; }
	}
	else if(e->op == ITE) { if(not evalRec(e->c[0], m, &a)) return false; if(not evalRec(a ? e->c[1] : e->c[2], m, &r)) return false; }
	else {
		if(e->nc > 0 and not evalRec(e->c[0], m, &a)) return false;
		if(e->nc > 1 and not evalRec(e->c[1], m, &b)) return false;
		unsigned cw = e->c[0]->w; int64_t sa = sextw(a, cw), sb = e->nc > 1 ? sextw(b, e->c[1]->w) : 0;
		switch(e->op) {
		case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
		case UDIV: r = b ? a / b : ~0ULL; break; case UREM: r = b ? a % b : a; break;
		case SDIV: if(not b) r = sa < 0 ? 1 : ~0ULL; else if(sb == -1) r = 0 - a; else r = sa / sb; break;
		case SREM: if(not b) r = a; else if(sb == -1) r = 0; else r = sa % sb; break;
		case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
		case SHL: r = b >= w ? 0 : a << b; break; case LSHR: r = b >= w ? 0 : a >> b; break; case ASHR: r = sa >> (b >= w ? w - 1 : b); break;
		case CONCAT: r = (a << e->c[1]->w) | b; break;
		case EXTRACT: r = a >> e->val; break;
		case ZEXT: r = a; break; case SEXT: r = sa; break;
		case EQ: r = a == b; break; case ULT: r = a < b; break; case ULE: r = a <= b; break; case SLT: r = sa < sb; break; case SLE: r = sa <= sb; break;
		default: return false;
		}
	}
	r &= maskw(w);
	e->evalEpoch = g_epoch; e->evalVal = r; *out = r;
	return true;
}
bool evalBV(E e, const Model &m, uint64_t *out) { g_epoch++; return evalRec(e, m, out); }

std::string toStr(E e, int d)
{
	static const char *nm[] = {"const","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","++","ext","zx","sx","==","<u","<=u","<s","<=s","ite","sel","rc","rv","r+","r-","r*","r/","r<","r<=","r==","u2r","s2r","r2u","r2s","r2b","b2r","uf"};
	char buf[64];
	if(e->op == CONST) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->val, e->w); return buf; }
	if(e->op == RCONST) { snprintf(buf, sizeof buf, "%Lg", e->rval); return buf; }
	if(e->op == VAR or e->op == RVAR) return g_vars[e->val].name;
	if(d == 0) return "...";
	std::string s = std::string("(") + nm[e->op];
	if(e->op == SELECT) s += " " + g_vars[e->val].name;
	if(e->op == UF) s += " " + g_ufs[e->val];
	if(e->op == EXTRACT) s += "@" + std::to_string(e->val) + ":" + std::to_string(e->w);
	for(int i = 0; i < e->nc; i++) s += " " + toStr(e->c[i], d - 1);
	return s + ")";
}

E rebuild(E e, E *c)
{
	switch(e->op) {
	case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case AND: case OR: case XOR: case SHL: case LSHR: case ASHR: return mkBin(e->op, c[0], c[1]);
	case CONCAT: return mkConcat(c[0], c[1]);
	case EXTRACT: return mkExtract(c[0], e->val, e->w);
	case ZEXT: return mkZext(c[0], e->w);
	case SEXT: return mkSext(c[0], e->w);
	case EQ: case ULT: case ULE: case SLT: case SLE: return mkCmp(e->op, c[0], c[1]);
	case ITE: return mkIte(c[0], c[1], c[2]);
	case SELECT: return mkSelect(e->val, c[0]);
	case RADD: case RSUB: case RMUL: case RDIV: { E r = mkR(e->op, c[0], c[1], 80); return r ? r : e; }
	case RLT: case RLE: case REQ: return mkRCmp(e->op, c[0], c[1]);
	case U2R: case S2R: return mkI2R(c[0], e->op == S2R);
	case R2U: case R2S: return mkR2I(c[0], e->w, e->op == R2S);
	case R2BITS: return mkR2Bits(c[0]);
	case BITS2R: return mkBits2R(c[0]);
	case UF: { std::vector<E> a(c, c + e->nc); return mkUF(g_ufs[e->val], a, e->w); }
	default: return e;
	}
}
E substE(E e, std::unordered_map<E, E> &m)
{
	auto it = m.find(e); if(it != m.end()) return it->second;
	if(e->nc == 0) return e;
	E c[3]; bool ch = false;
	for(int i = 0; i < e->nc; i++) { c[i] = substE(e->c[i], m); if(c[i] != e->c[i]) ch = true; }
	E r = ch ? rebuild(e, c) : e;
	m[e] = r;
	return r;
}
