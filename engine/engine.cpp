// irvc: verification-condition generator over LLVM IR (clang output of the real sources).
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <chrono>
#include <algorithm>
#include <regex>

static Module *M; static const DataLayout *DL;
static std::string g_outdir, g_entry;
static int g_maxprocs = 1; static double g_deadline = 0;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

struct Shared { std::atomic<int> active; std::atomic<long> paths, forks, steps, killed; std::atomic<int> stop; std::atomic<double> violAt; };
static Shared *SH;
// once a violation is known, exploration ends soon: more failures add nothing
static double deadline() { double v = SH->violAt.load(); return v > 0 ? std::min(g_deadline, v + std::max(60.0, v)) : g_deadline; }

static std::unordered_map<const GlobalValue *, uint32_t> g_gid;
static std::unordered_map<uint32_t, GlobalValue *> g_gval;
static uint32_t g_firstDyn;
static std::unordered_map<const Function *, std::unique_ptr<FInfo>> g_fi;
static std::unordered_map<const Function *, std::string> g_demangled;

// ---- results of this process
struct OblKey { std::string kind, label, loc; bool operator<(const OblKey &o) const { return std::tie(kind, label, loc) < std::tie(o.kind, o.label, o.loc); } };
struct OblStat { long n = 0, trivial = 0, bysolver = 0, byinterp = 0, failed = 0, unknown = 0, skipped = 0; };
static std::map<OblKey, OblStat> g_obl;
static std::map<std::string, long> g_covers, g_funcs, g_assumed, g_bounds, g_errors, g_loops, g_ends;
static std::vector<std::string> g_viol;
static std::map<OblKey, int> g_violCount;

[[noreturn]] static void die(const std::string &s) { fprintf(stderr, "irvc fatal: %s\n", s.c_str()); FILE *f = fopen((g_outdir + "/fatal." + std::to_string(getpid())).c_str(), "w"); if(f) { fprintf(f, "%s\n", s.c_str()); fclose(f); } _exit(3); }

struct PathEnd { std::string why; };       // thrown to end the path
struct EngineErr { std::string why; };     // path could not be analysed
struct ForkRetry { std::vector<E> conds; }; // re-execute the current instruction under each of these conditions

static std::string jstr(const std::string &s) { std::string r = "\""; for(unsigned char c : s) { if(c == '"' or c == '\\') { r += '\\'; r += c; } else if(c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static const std::string &dem(const Function *f) { auto &s = g_demangled[f]; if(s.empty()) s = demangle(f->getName().str()); return s; }

static void addTypeSlots(Type *t, unsigned &n) { if(auto *st = dyn_cast<StructType>(t)) { for(auto *e : st->elements()) addTypeSlots(e, n); } else if(auto *at = dyn_cast<ArrayType>(t)) { for(unsigned i = 0; i < at->getNumElements(); i++) addTypeSlots(at->getElementType(), n); } else n++; }
static unsigned nslots(Type *t) { if(t->isVoidTy()) return 0; unsigned n = 0; addTypeSlots(t, n); return n; }
static void flatTypes(Type *t, std::vector<Type *> &v) { if(auto *st = dyn_cast<StructType>(t)) { for(auto *e : st->elements()) flatTypes(e, v); } else if(auto *at = dyn_cast<ArrayType>(t)) { for(unsigned i = 0; i < at->getNumElements(); i++) flatTypes(at->getElementType(), v); } else v.push_back(t); }

static FInfo *finfo(Function *f)
{
	auto &p = g_fi[f];
	if(p) return p.get();
	p.reset(new FInfo()); p->f = f;
	for(auto &a : f->args()) { p->slot[&a] = p->nslots; p->nslots += nslots(a.getType()); }
	for(auto &bb : *f) for(auto &i : bb) if(not i.getType()->isVoidTy()) { p->slot[&i] = p->nslots; p->nslots += nslots(i.getType()); }
	return p.get();
}
static void loopInfo(FInfo *fi)
{
	if(fi->loopsDone) return; fi->loopsDone = true;
	DominatorTree DT(*fi->f); LoopInfo LI(DT);
	std::vector<Loop *> wl(LI.begin(), LI.end());
	while(not wl.empty()) { Loop *l = wl.back(); wl.pop_back(); fi->headers.insert(l->getHeader()); auto &s = fi->loopBlocks[l->getHeader()]; for(auto *b : l->blocks()) s.insert(b); for(auto *c : l->getSubLoops()) wl.push_back(c); }
}

static unsigned tw(Type *t) // bit width; 0 for fp
{
	if(t->isIntegerTy()) return t->getIntegerBitWidth();
	if(t->isPointerTy()) return 64;
	if(t->isFloatingPointTy()) return 0;
	std::string s; raw_string_ostream o(s); t->print(o);
	throw EngineErr{"unsupported type " + s};
}
static int fbits(Type *t) { if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 80; }

static uint64_t gaddr(const GlobalValue *g) { auto it = g_gid.find(g); if(it == g_gid.end()) throw EngineErr{"no id for global " + g->getName().str()}; return ((uint64_t)it->second << ADDR_SHIFT) + ADDR_BASE; }
static uint64_t baseOf(uint32_t id) { return ((uint64_t)id << ADDR_SHIFT) + ADDR_BASE; }

static unsigned long g_fresh = 0;
static E freshVar(const std::string &n, unsigned w) { return mkVar(n + "!" + std::to_string(g_fresh++), w); }

// ---------------------------------------------------------------- memory
static ObjP globalObj(uint32_t id);

static Obj *getObj(State &S, uint32_t id)
{
	if(id < S.mem.size() and S.mem[id]) return S.mem[id].get();
	if(id and id < g_firstDyn) { if(S.mem.size() <= id) S.mem.resize(g_firstDyn); S.mem[id] = globalObj(id); return S.mem[id].get(); }
	return nullptr;
}
static Obj *getObjW(State &S, uint32_t id)
{
	if(not getObj(S, id)) return nullptr;
	ObjP &p = S.mem[id];
	if(p.use_count() > 1) p = std::make_shared<Obj>(*p);
	return p.get();
}
static uint32_t newObj(State &S, const std::string &name, uint64_t csize, E ssize, Init init)
{
	auto o = std::make_shared<Obj>();
	if(S.mem.size() < g_firstDyn) S.mem.resize(g_firstDyn);
	o->id = S.mem.size(); o->csize = csize; o->ssize = ssize; o->init = init; o->name = name;
	if(ssize and isC(ssize)) { o->csize = ssize->val; o->ssize = nullptr; }
	if(o->ssize) { o->chained = true; o->chain = std::make_shared<Chain>(); o->chain->t = Chain::BASE; if(init == I_ZERO) o->chain->constBase = true; else o->chain->arr = mkArr(name + "_mem"); }
	S.mem.push_back(o);
	return o->id;
}

static E byteOf(E v, unsigned i) { return mkExtract(v, i * 8, 8); }

static void toChain(Obj *o)
{
	if(o->chained) return;
	auto b = std::make_shared<Chain>(); b->t = Chain::BASE;
	if(o->init == I_ZERO) b->constBase = true; else b->arr = mkArr(o->name + "_mem");
	// fast: constant bytes string
	ChainP cur = b;
	bool allc = not o->cells.empty();
	for(auto &c : o->cells) if(c.second.v->w == 0 or not isC(c.second.v)) { allc = false; }
	if(allc) {
		uint64_t covered = 0; for(auto &c : o->cells) covered += c.second.n;
		if(covered == o->csize or o->init == I_ZERO) {
			auto s = std::make_shared<std::string>(o->csize, '\0');
			for(auto &c : o->cells) for(unsigned i = 0; i < c.second.n; i++) (*s)[c.first + i] = (char)((c.second.v->val) >> (8 * i));
			b->constBase = true; b->bytes = s;
			o->chained = true; o->chain = b; o->cells.clear(); return;
		}
	}
	for(auto &c : o->cells) {
		if(c.second.v->w == 0) throw EngineErr{"object with floating cells accessed at a symbolic offset: " + o->name};
		auto n = std::make_shared<Chain>(); n->t = Chain::ST; n->off = mkConst(c.first, 64); n->n = c.second.n; n->val = c.second.v; n->prev = cur; n->depth = cur->depth + 1; cur = n;
	}
	o->chained = true; o->chain = cur; o->cells.clear();
}

static bool mustTrue(State &S, E c);
static Res checkC(State &S, E c, Model *m);

static int decide(State *S, E c) // 1 true 0 false -1 unknown
{
	if(isC(c)) return c->val ? 1 : 0;
	if(not S) return -1;
	if(checkC(*S, c, nullptr) == UNSAT) return 0;
	if(checkC(*S, mkNot(c), nullptr) == UNSAT) return 1;
	return -1;
}

// known low bits of a 64-bit offset expression: number of bits and their value
static unsigned lowKnown(E e, uint64_t &v, int depth = 0)
{
	if(isC(e)) { v = e->val; return 64; }
	v = 0; if(depth > 8) return 0;
	uint64_t a = 0, b = 0; unsigned x, y;
	switch(e->op) {
	case ADD: case SUB: x = lowKnown(e->c[0], a, depth + 1); y = lowKnown(e->c[1], b, depth + 1); v = e->op == ADD ? a + b : a - b; x = std::min(x, y); break;
	case MUL: { E k = isC(e->c[0]) ? e->c[0] : isC(e->c[1]) ? e->c[1] : nullptr; if(not k or not k->val) return 0; E o = k == e->c[0] ? e->c[1] : e->c[0]; x = lowKnown(o, a, depth + 1); v = a * k->val; x = std::min(64u, x + (unsigned)__builtin_ctzll(k->val)); break; }
	case SHL: if(not isC(e->c[1]) or e->c[1]->val > 63) return 0; x = lowKnown(e->c[0], a, depth + 1); v = a << e->c[1]->val; x = std::min<unsigned>(64, x + e->c[1]->val); break;
	case CONCAT: y = e->c[1]->w; x = lowKnown(e->c[1], a, depth + 1); if(x < y) { v = a; break; } x = lowKnown(e->c[0], b, depth + 1); v = (a & maskw(y)) | (y < 64 ? b << y : 0); x = std::min(64u, x + y); break;
	case ITE: { x = lowKnown(e->c[1], a, depth + 1); y = lowKnown(e->c[2], b, depth + 1); x = std::min(x, y); while(x and ((a ^ b) & maskw(x))) x--; v = a; break; }
	case EXTRACT: if(e->val) return 0; x = lowKnown(e->c[0], v, depth + 1); break;
	default: return 0;
	}
	x = std::min<unsigned>(x, 64); v &= maskw(x); if(x == 0) v = 0;
	return x;
}
static bool wordChain(const ChainP &s) { for(ChainP c = s; c; c = c->prev) if(c->t == Chain::BASE) return not c->constBase and g_vars[c->arr].w == 64; return false; }
// bits [k, k+w) of a 64-bit expression, computed in w-bit modular arithmetic where that is exact
static E bitsAt(E e, unsigned k, unsigned w, int depth = 0)
{
	if(isC(e)) return mkConst(e->val >> k, w);
	uint64_t a, b;
	if(depth < 8) switch(e->op) {
	case ADD: case SUB: {
		unsigned x = lowKnown(e->c[0], a), y = lowKnown(e->c[1], b);
		if(x < k or y < k) break;
		a &= maskw(k); b &= maskw(k); if(k == 0) a = b = 0;
		E p = bitsAt(e->c[0], k, w, depth + 1), q = bitsAt(e->c[1], k, w, depth + 1);
		if(e->op == ADD) { E r = mkBin(ADD, p, q); return k and ((a + b) >> k) ? mkBin(ADD, r, mkConst(1, w)) : r; }
		E r = mkBin(SUB, p, q); return a < b ? mkBin(SUB, r, mkConst(1, w)) : r; }
	case MUL: case SHL: {
		uint64_t m; E o;
		if(e->op == SHL) { if(not isC(e->c[1]) or e->c[1]->val > 40) return mkExtract(e, k, w); m = 1ULL << e->c[1]->val; o = e->c[0]; }
		else { E c = isC(e->c[0]) ? e->c[0] : isC(e->c[1]) ? e->c[1] : nullptr; if(not c or not c->val) break; m = c->val; o = c == e->c[0] ? e->c[1] : e->c[0]; }
		unsigned tz = __builtin_ctzll(m);
		if(tz < k) { if(m >> tz == 1) return bitsAt(o, k - tz, w, depth + 1); break; }
		return mkBin(MUL, bitsAt(o, 0, w, depth + 1), mkConst(m >> k, w)); }
	default: break;
	}
	return mkExtract(e, k, w);
}
// offsets of in-bounds accesses are below MAX_OBJ = 2^38
static E wordIndex(E off) { return mkZext(bitsAt(off, 3, 35), 64); }
// whole-access read through the chain; nullptr: fall back to byte-wise reading
static E chainReadN(State *S, const ChainP &start, E off, unsigned n, int depth = 0)
{
	std::vector<std::pair<E, E>> ites; E result = nullptr;
	uint64_t lo; unsigned kb = lowKnown(off, lo);
	if(depth > 6) return nullptr;
	for(ChainP c = start; c; c = c->prev) {
		if(c->t == Chain::BASE) {
			if(c->constBase) { if(c->bytes) return nullptr; uint64_t v = 0; for(unsigned i = 0; i < n; i++) v = (v << 8) | c->fill; result = mkConst(v, n * 8); break; }
			if(g_vars[c->arr].w == 64) { if(kb < 3 or (lo & 7) + n > 8) return nullptr; result = mkExtract(mkSelect(c->arr, wordIndex(off)), (lo & 7) * 8, n * 8); break; }
			for(unsigned i = 0; i < n; i++) { E b = mkSelect(c->arr, mkBin(ADD, off, mkConst(i, 64))); result = result ? mkConcat(b, result) : b; }
			break;
		}
		E d = mkBin(SUB, off, c->off);
		if(c->t == Chain::ST) {
			if(isC(d)) {
				if(d->val < c->n and d->val + n <= c->n) { result = mkExtract(c->val, d->val * 8, n * 8); break; }
				if(d->val >= c->n and d->val + n > d->val) continue;
				return nullptr;
			}
			uint64_t l2; unsigned k2 = std::min(kb, lowKnown(c->off, l2)); if(k2 > 12) k2 = 12;
			if(k2 == 0) return nullptr;
			uint64_t W = 1ULL << k2, a = lo & (W - 1), b = l2 & (W - 1);
			if(a + n > W or b + c->n > W) return nullptr;
			if(a + n <= b or b + c->n <= a) continue; // never overlaps, whatever the high bits
			if(a < b or a + n > b + c->n) return nullptr;
			E cond = mkCmp(EQ, bitsAt(off, k2, 38 - k2), bitsAt(c->off, k2, 38 - k2));
			int k = isC(cond) ? (int)cond->val : decide(S, cond);
			if(k == 0) continue;
			E v = mkExtract(c->val, (a - b) * 8, n * 8);
			if(k == 1) { result = v; break; }
			ites.push_back({cond, v}); continue;
		}
		E in = mkAnd(mkCmp(ULT, d, c->len), mkCmp(ULE, mkConst(n, 64), mkBin(SUB, c->len, d)));
		int k = isC(in) ? (int)in->val : decide(S, in);
		if(k == 1) {
			if(c->t == Chain::FILL) { E v = c->val; result = v; for(unsigned i = 1; i < n; i++) result = mkConcat(v, result); break; }
			result = chainReadN(S, c->src, mkBin(ADD, d, c->srcoff), n, depth + 1); if(not result) return nullptr; break;
		}
		// entirely outside: before the region or after it
		E out = mkOr(mkCmp(ULE, c->len, d), mkFalse());
		out = mkAnd(out, mkCmp(ULE, d, mkBin(SUB, mkConst(0, 64), mkConst(n, 64))));
		int z = isC(out) ? (int)out->val : decide(S, out);
		if(z == 1) continue;
		// region and access aligned to a common power of two: the access cannot straddle the region's edge
		uint64_t l2, l3; unsigned k2 = std::min({kb, lowKnown(c->off, l2), lowKnown(c->len, l3), 12u});
		if(k2 == 0) return nullptr;
		uint64_t W = 1ULL << k2;
		if((lo & (W - 1)) + n > W or (l2 & (W - 1)) or (l3 & (W - 1))) return nullptr;
		E v;
		if(c->t == Chain::FILL) { v = c->val; for(unsigned i = 1; i < n; i++) v = mkConcat(c->val, v); }
		else v = chainReadN(nullptr, c->src, mkBin(ADD, d, c->srcoff), n, depth + 1);
		if(not v) return nullptr;
		ites.push_back({mkCmp(ULT, d, c->len), v});
	}
	if(not result) return nullptr;
	for(size_t i = ites.size(); i-- > 0; ) result = mkIte(ites[i].first, ites[i].second, result);
	return result;
}
static E chainRead(State *S, const ChainP &start, E idx, int depth = 0)
{
	std::vector<std::pair<E, E>> ites; // cond -> value
	ChainP c = start; E result = nullptr;
	while(c) {
		if(c->t == Chain::BASE) {
			if(c->constBase) {
				if(c->bytes) {
					if(isC(idx)) result = mkConst(idx->val < c->bytes->size() ? (uint8_t)(*c->bytes)[idx->val] : c->fill, 8);
					else {
						E r = mkConst(c->fill, 8);
						// group equal runs
						size_t n = c->bytes->size();
						for(size_t i = n; i-- > 0; ) { E v = mkConst((uint8_t)(*c->bytes)[i], 8); r = mkIte(mkCmp(EQ, idx, mkConst(i, 64)), v, r); }
						result = r;
					}
				} else result = mkConst(c->fill, 8);
			} else if(g_vars[c->arr].w == 64) {
				uint64_t lo; if(lowKnown(idx, lo) >= 3) result = mkExtract(mkSelect(c->arr, wordIndex(idx)), (lo & 7) * 8, 8);
				else { E w = mkSelect(c->arr, wordIndex(idx)); E l3 = mkExtract(idx, 0, 3); result = mkExtract(w, 0, 8); for(int i = 1; i < 8; i++) result = mkIte(mkCmp(EQ, l3, mkConst(i, 3)), mkExtract(w, i * 8, 8), result); }
			} else result = mkSelect(c->arr, idx);
			break;
		}
		E d, cond, v;
		if(c->t == Chain::ST) { d = mkBin(SUB, idx, c->off); cond = mkCmp(ULT, d, mkConst(c->n, 64)); }
		else { d = mkBin(SUB, idx, c->off); cond = mkCmp(ULT, d, c->len); }
		int k = isC(cond) ? (int)cond->val : decide(S, cond);
		if(k == 0) { c = c->prev; continue; }
		if(c->t == Chain::ST) {
			if(c->n == 1) v = c->val;
			else if(isC(d)) v = byteOf(c->val, d->val);
			else { v = byteOf(c->val, c->n - 1); for(int i = (int)c->n - 2; i >= 0; i--) v = mkIte(mkCmp(EQ, d, mkConst(i, 64)), byteOf(c->val, i), v); }
		} else if(c->t == Chain::FILL) v = c->val;
		else v = chainRead(k == 1 ? S : nullptr, c->src, mkBin(ADD, d, c->srcoff), depth + 1);
		if(k == 1) { result = v; break; }
		ites.push_back({cond, v});
		c = c->prev;
	}
	if(not result) throw EngineErr{"chain without base"};
	for(size_t i = ites.size(); i-- > 0; ) result = mkIte(ites[i].first, ites[i].second, result);
	return result;
}

static ChainP viewChain(Obj *o, uint64_t = 0) { if(o->chained) return o->chain; Obj t = *o; toChain(&t); o->chained = true; o->chain = t.chain; o->cells.clear(); return o->chain; }

static void splitCells(Obj *o, uint64_t off, uint64_t n) // remove [off,off+n) keeping the rest of partially covered cells
{
	auto it = o->cells.lower_bound(off);
	if(it != o->cells.begin()) { auto p = std::prev(it); if(p->first + p->second.n > off) it = p; }
	while(it != o->cells.end() and it->first < off + n) {
		uint64_t co = it->first; Cell c = it->second;
		it = o->cells.erase(it);
		if(c.v->w == 0) continue; // partial overwrite of a floating value: rest undefined
		for(uint64_t b = co; b < co + c.n; b++) if(b < off or b >= off + n) o->cells[b] = Cell{1, byteOf(c.v, b - co)};
		it = o->cells.lower_bound(off);
	}
}

static E loadBytes(State &S, uint32_t id, E off, unsigned n, bool isReal, Type *t)
{
	Obj *o = getObj(S, id);
	if(isReal and t and not t->isX86_FP80Ty() and o->chained) { E b = loadBytes(S, id, off, n, false, nullptr); if(n == 8) return mkBits2R(b); throw EngineErr{"float load from byte memory"}; }
	if(not o->chained and not isC(off)) { o = getObjW(S, id); toChain(o); }
	if(not o->chained) {
		uint64_t a = off->val;
		auto it = o->cells.find(a);
		if(it != o->cells.end() and it->second.n == n and ((it->second.v->w == 0) == isReal)) return it->second.v;
		if(it != o->cells.end() and it->second.n == n and isReal and n == 8) return mkBits2R(it->second.v);
		if(it != o->cells.end() and it->second.n == n and not isReal and n == 8) return mkR2Bits(it->second.v);
		// any overlap?
		bool any = false;
		{ auto j = o->cells.lower_bound(a); if(j != o->cells.end() and j->first < a + n) any = true; if(j != o->cells.begin()) { auto p = std::prev(j); if(p->first + p->second.n > a) any = true; } }
		if(not any) {
			E v;
			if(o->init == I_ZERO) v = isReal ? mkReal(0) : mkConst(0, n * 8);
			else {
				std::string nm = (o->init == I_SYM ? "sym_" : "undef_") + o->name + "+" + std::to_string(a);
				v = isReal ? mkRVar(nm + "!" + std::to_string(g_fresh++)) : freshVar(nm, n * 8);
				Obj *w = getObjW(S, id); w->cells[a] = Cell{n, v};
			}
			return v;
		}
		if(isReal) { if(n == 8) { E b = loadBytes(S, id, off, 8, false, nullptr); return mkBits2R(b); } throw EngineErr{"partial floating load from " + o->name + "+" + std::to_string(a)}; }
		E r = nullptr;
		for(unsigned i = 0; i < n; i++) {
			uint64_t b = a + i; E bv = nullptr;
			o = getObj(S, id);
			auto j = o->cells.upper_bound(b);
			if(j != o->cells.begin()) { auto p = std::prev(j); if(p->first + p->second.n > b) {
				if(p->second.v->w == 0) { if(p->second.n == 8) bv = byteOf(mkR2Bits(p->second.v), b - p->first); else throw EngineErr{"byte of a floating cell read: " + o->name}; }
				else bv = byteOf(p->second.v, b - p->first); } }
			if(not bv) { if(o->init == I_ZERO) bv = mkConst(0, 8); else { bv = freshVar("undef_" + o->name + "+" + std::to_string(b), 8); Obj *w = getObjW(S, id); w->cells[b] = Cell{1, bv}; } }
			r = r ? mkConcat(bv, r) : bv;
		}
		return r;
	}
	// chain: fast path
	if(isReal) throw EngineErr{"long double load from byte memory " + o->name};
	for(ChainP c = o->chain; c; c = c->prev) {
		if(c->t != Chain::ST) break;
		E d = mkBin(SUB, off, c->off);
		if(isC(d)) {
			if(d->val == 0 and c->n == n) return c->val;
			if(d->val < c->n and d->val + n <= c->n) return mkExtract(c->val, d->val * 8, n * 8);
			if((d->val >= c->n and d->val + n > d->val)) continue; // disjoint (no wrap)
			break;
		}
		break;
	}
	ChainP ch = o->chain;
	E r = chainReadN(&S, ch, off, n);
	if(r) return r;
	for(unsigned i = 0; i < n; i++) { E b = chainRead(&S, ch, mkBin(ADD, off, mkConst(i, 64))); r = r ? mkConcat(b, r) : b; }
	return r;
}

static void storeBytes(State &S, uint32_t id, E off, unsigned n, E v)
{
	Obj *o = getObjW(S, id);
	if(not o->chained and not isC(off)) toChain(o);
	if(not o->chained) { splitCells(o, off->val, n); o->cells[off->val] = Cell{n, v}; return; }
	if(v->w == 0) { if(n == 8) v = mkR2Bits(v); else throw EngineErr{"floating store to byte memory " + o->name}; }
	auto c = std::make_shared<Chain>(); c->t = Chain::ST; c->off = off; c->n = n; c->val = v; c->prev = o->chain;
	// collapse an overwritten identical top store
	if(o->chain->t == Chain::ST and o->chain->off == off and o->chain->n == n) c->prev = o->chain->prev;
	c->depth = c->prev->depth + 1;
	o->chain = c;
}

// ---------------------------------------------------------------- solver front
static Res checkC(State &S, E c, Model *m)
{
	if(isC(c)) return c->val ? SAT : UNSAT;
	if(S.model) { uint64_t r; if(evalBV(c, *S.model, &r) and r) { g_sstats.modelHits++; if(m) *m = *S.model; return SAT; } }
	Model mm; if(m) { if(S.model) mm = *S.model; }
	Res r = solverCheck(S.pc, c, m ? &mm : nullptr);
	if(r == SAT and m) *m = mm;
	return r;
}
static bool mustTrue(State &S, E c) { return checkC(S, mkNot(c), nullptr) == UNSAT; }

static void addPC(State &S, E c, const Model *m = nullptr)
{
	if(isT(c)) return;
	if(c->op == AND and c->w == 1) { addPC(S, c->c[0], m); addPC(S, c->c[1], m); return; }
	S.pc.push_back(c);
	if(m and not S.unk) S.model = std::make_shared<Model>(*m);
}
// assume c: returns false if infeasible
static bool assume(State &S, E c)
{
	if(isT(c)) return true; if(isF(c)) return false;
	Model m; Res r = checkC(S, c, &m);
	if(r == UNSAT) return false;
	addPC(S, c, r == SAT ? &m : nullptr);
	if(r != SAT) { S.model.reset(); S.unk = true; }
	return true;
}

static std::string locOf(State &S)
{
	for(size_t i = S.st.size(); i-- > 0; ) {
		auto &f = S.st[i];
		if(f.it == f.bb->end()) continue;
		const Instruction *in = &*f.it;
		if(i + 1 < S.st.size()) in = S.st[i + 1].site;
		if(in) for(const DILocation *L = in->getDebugLoc().get(); L; L = L->getInlinedAt()) {
			std::string fn = L->getFilename().str();
			if(fn.find("/repo/") != std::string::npos or fn.find("rtmfp") != std::string::npos or fn.find("src/") == 0) { size_t k = fn.rfind('/'); return fn.substr(k == std::string::npos ? 0 : k + 1) + ":" + std::to_string(L->getLine()); }
			if(fn.find("harness") != std::string::npos) { size_t k = fn.rfind('/'); return fn.substr(k == std::string::npos ? 0 : k + 1) + ":" + std::to_string(L->getLine()); }
		}
	}
	return "?";
}
static std::string repoFuncOf(State &S)
{
	for(size_t i = S.st.size(); i-- > 0; ) {
		auto &f = S.st[i]; const Instruction *in = i + 1 < S.st.size() ? (const Instruction *)S.st[i + 1].site : (f.it == f.bb->end() ? nullptr : &*f.it);
		if(in) for(const DILocation *L = in->getDebugLoc().get(); L; L = L->getInlinedAt()) {
			std::string fn = L->getFilename().str();
			if(fn.find("/repo/") != std::string::npos) { auto *sp = L->getScope()->getSubprogram(); if(sp) { std::string s = demangle(sp->getLinkageName().str()); if(s.empty()) s = sp->getName().str(); return s.substr(0, s.find('(')); } }
		}
	}
	return "";
}

static void recordViolation(State &S, const OblKey &k, const Model &m)
{
	int &cnt = g_violCount[k];
	if(cnt++ >= 3) return;
	std::string j = "{\"type\":\"violation\",\"entry\":" + jstr(g_entry) + ",\"kind\":" + jstr(k.kind) + ",\"label\":" + jstr(k.label) + ",\"loc\":" + jstr(k.loc) + ",\"func\":" + jstr(repoFuncOf(S)) + ",\"nondet\":[";
	bool first = true;
	for(auto &n : S.nd) {
		if(not first) j += ","; first = false;
		j += "[" + jstr(n.name) + "," + jstr(std::string(1, n.kind)) + ",";
		uint64_t v = 0;
		if(n.kind == 'b') {
			if(not evalBV(n.e, m, &v)) v = 0;
			if(v > (1 << 20)) v = 1 << 20;
			std::string h; char b[4]; auto it = m.arr.find(n.arr); uint64_t def = m.arrDefault.count(n.arr) ? m.arrDefault.at(n.arr) : 0;
			for(uint64_t i = 0; i < v; i++) { bool wd = g_vars[n.arr].w == 64; uint64_t x = def; if(it != m.arr.end()) { auto q = it->second.find(wd ? i / 8 : i); if(q != it->second.end()) x = q->second; } if(wd) x >>= 8 * (i & 7); x &= 255; snprintf(b, sizeof b, "%02x", x); h += b; }
			j += jstr(h);
		} else if(n.kind == 'r') {
			long double r = 0; if(n.e->op == RCONST) r = n.e->rval; else { auto it = m.rvl.find(n.e->val); if(it != m.rvl.end()) r = it->second; }
			char b[64]; snprintf(b, sizeof b, "%La", r); j += jstr(b);
		} else { if(not evalBV(n.e, m, &v)) v = 0; j += jstr(std::to_string(v)); }
		j += "]";
	}
	j += "],\"stack\":[";
	first = true;
	for(size_t i = S.st.size(); i-- > 0; ) { if(not first) j += ","; first = false; j += jstr(dem(S.st[i].f)); }
	j += "],\"notes\":["; first = true; for(auto &s : S.notes) { if(not first) j += ","; first = false; j += jstr(s); }
	j += "],\"abs\":" + std::string(S.abs ? "1" : "0") + "}";
	g_viol.push_back(j);
	double z = 0; SH->violAt.compare_exchange_strong(z, now());
}

static int g_dry = 0; // inside invariant inference: obligations are assumed, not recorded

// discharge an obligation; continues with the condition assumed.  Throws PathEnd if it cannot hold.
static void prove(State &S, E c, const std::string &kind, const std::string &label)
{
	if(g_dry) { if(isT(c)) return; if(not assume(S, c)) throw PathEnd{"dry"}; return; }
	OblKey k{kind, label, kind == "assert" ? "" : locOf(S)};
	if(kind == "mem" or kind == "abort") { k.label = label + " in " + repoFuncOf(S); }
	OblStat &st = g_obl[k]; st.n++;
	if(isT(c)) { st.trivial++; return; }
	if(now() > deadline()) { st.skipped++; g_errors["time budget exhausted"]++; throw PathEnd{"timeout"}; }
	Model m;
	Res r = isF(c) ? SAT : checkC(S, mkNot(c), &m);
	if(isF(c)) { if(S.model) m = *S.model; else { Model t; solverCheck(S.pc, mkTrue(), &t); m = t; } }
	if(r == SAT and S.unk) { // the solver could not tell whether this path is feasible: a violation needs a model of all of it
		std::vector<E> p3 = S.pc; p3.push_back(mkNot(c)); Model t; r = solverCheck(p3, mkTrue(), &t); if(r == SAT) m = t;
		if(r == UNSAT and isF(c)) throw PathEnd{"infeasible"};
		if(r == UNKNOWN and isF(c)) { st.unknown++; throw PathEnd{"unknown-obligation"}; }
	}
	if(r == UNSAT) { st.bysolver++; addPC(S, c); return; }
	if(r == UNKNOWN) { st.unknown++; if(not assume(S, c)) throw PathEnd{"unknown-obligation"}; return; }
	if(S.bounded and false) {}
	st.failed++;
	// try for a small counterexample: restrict sizes
	if(g_violCount[k] < 3) {
		std::vector<E> pc2 = S.pc; E nc = mkNot(c);
		bool done = false;
		for(uint64_t lim : {16ULL, 64ULL, 600ULL, 4096ULL, 70000ULL}) {
			std::vector<E> p3 = S.pc; bool any = false;
			for(auto &n : S.nd) if(n.kind == 'b' and not isC(n.e)) { any = true; p3.push_back(mkCmp(ULE, n.e, mkConst(lim, 64))); }
			if(not any) break;
			p3.push_back(nc);
			Model mm; if(solverCheck(p3, mkTrue(), &mm) == SAT) { m = mm; done = true; break; }
		}
		if(not done) { std::vector<E> p3 = S.pc; p3.push_back(nc); Model mm; if(solverCheck(p3, mkTrue(), &mm) == SAT) m = mm; }
		recordViolation(S, k, m);
	}
	if(isF(c) or not assume(S, c)) throw PathEnd{"violation"};
}

// ---------------------------------------------------------------- constants
static void constVals(State &S, Constant *c, std::vector<E> &out);
static E constE(State &S, Constant *c) { std::vector<E> v; constVals(S, c, v); if(v.size() != 1) throw EngineErr{"aggregate constant as scalar"}; return v[0]; }
static E gepE(State &S, GEPOperator *g, std::function<E(Value *)> ev)
{
	E base = ev(g->getPointerOperand());
	uint64_t coff = 0; E dyn = nullptr;
	for(auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
		Value *idx = gi.getOperand();
		if(StructType *st = gi.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
		else {
			uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
			if(auto *ci = dyn_cast<ConstantInt>(idx)) coff += sz * (uint64_t)ci->getSExtValue();
			else { E i = ev(idx); i = i->w < 64 ? mkSext(i, 64) : i; E t = mkBin(MUL, i, mkConst(sz, 64)); dyn = dyn ? mkBin(ADD, dyn, t) : t; }
		}
	}
	E r = mkBin(ADD, base, mkConst(coff, 64));
	return dyn ? mkBin(ADD, r, dyn) : r;
}
static long double fpVal(const APFloat &f)
{
	if(f.isNaN()) return NAN; if(f.isInfinity()) return f.isNegative() ? -INFINITY : INFINITY;
	APFloat x = f; bool li; x.convert(APFloat::x87DoubleExtended(), APFloat::rmNearestTiesToEven, &li);
	APInt b = x.bitcastToAPInt(); long double r = 0; uint64_t w[2] = { b.getRawData()[0], b.getRawData()[1] }; memcpy(&r, w, 10); return r;
}
static E castE(unsigned op, E a, Type *from, Type *to);
static E binE(unsigned op, E a, E b)
{
	switch(op) {
	case Instruction::Add: return mkBin(ADD, a, b); case Instruction::Sub: return mkBin(SUB, a, b); case Instruction::Mul: return mkBin(MUL, a, b);
	case Instruction::UDiv: return mkBin(UDIV, a, b); case Instruction::SDiv: return mkBin(SDIV, a, b); case Instruction::URem: return mkBin(UREM, a, b); case Instruction::SRem: return mkBin(SREM, a, b);
	case Instruction::And: return mkBin(AND, a, b); case Instruction::Or: return mkBin(OR, a, b); case Instruction::Xor: return mkBin(XOR, a, b);
	case Instruction::Shl: return mkBin(SHL, a, b); case Instruction::LShr: return mkBin(LSHR, a, b); case Instruction::AShr: return mkBin(ASHR, a, b);
	}
	throw EngineErr{"binop"};
}
static E icmpE(CmpInst::Predicate p, E a, E b)
{
	switch(p) {
	case CmpInst::ICMP_EQ: return mkCmp(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkCmp(EQ, a, b));
	case CmpInst::ICMP_ULT: return mkCmp(ULT, a, b); case CmpInst::ICMP_ULE: return mkCmp(ULE, a, b); case CmpInst::ICMP_UGT: return mkCmp(ULT, b, a); case CmpInst::ICMP_UGE: return mkCmp(ULE, b, a);
	case CmpInst::ICMP_SLT: return mkCmp(SLT, a, b); case CmpInst::ICMP_SLE: return mkCmp(SLE, a, b); case CmpInst::ICMP_SGT: return mkCmp(SLT, b, a); case CmpInst::ICMP_SGE: return mkCmp(SLE, b, a);
	default: throw EngineErr{"icmp pred"};
	}
}
static void constVals(State &S, Constant *c, std::vector<E> &out)
{
	if(auto *ci = dyn_cast<ConstantInt>(c)) { if(ci->getBitWidth() > 64) throw EngineErr{"wide int"}; out.push_back(mkConst(ci->getZExtValue(), ci->getBitWidth())); return; }
	if(auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mkReal(fpVal(cf->getValueAPF()))); return; }
	if(isa<ConstantPointerNull>(c)) { out.push_back(mkConst(0, 64)); return; }
	if(auto *gv = dyn_cast<GlobalAlias>(c)) { constVals(S, gv->getAliasee(), out); return; }
	if(auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back(mkConst(gaddr(gv), 64)); return; }
	if(isa<UndefValue>(c)) { std::vector<Type *> ts; flatTypes(c->getType(), ts); for(auto *t : ts) out.push_back(tw(t) ? mkConst(0, tw(t)) : mkReal(0)); return; }
	if(isa<ConstantAggregateZero>(c)) { std::vector<Type *> ts; flatTypes(c->getType(), ts); for(auto *t : ts) out.push_back(tw(t) ? mkConst(0, tw(t)) : mkReal(0)); return; }
	if(auto *ca = dyn_cast<ConstantAggregate>(c)) { for(auto &o : ca->operands()) constVals(S, cast<Constant>(o), out); return; }
	if(auto *cd = dyn_cast<ConstantDataSequential>(c)) { for(unsigned i = 0; i < cd->getNumElements(); i++) constVals(S, cd->getElementAsConstant(i), out); return; }
	if(auto *ce = dyn_cast<ConstantExpr>(c)) {
		auto ev = [&](Value *v) { return constE(S, cast<Constant>(v)); };
		if(auto *g = dyn_cast<GEPOperator>(ce)) { out.push_back(gepE(S, g, ev)); return; }
		if(ce->isCast()) { out.push_back(castE(ce->getOpcode(), ev(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType())); return; }
		if(ce->getOpcode() == Instruction::ICmp) { out.push_back(icmpE((CmpInst::Predicate)ce->getPredicate(), ev(ce->getOperand(0)), ev(ce->getOperand(1)))); return; }
		out.push_back(binE(ce->getOpcode(), ev(ce->getOperand(0)), ev(ce->getOperand(1)))); return;
	}
	std::string s; raw_string_ostream o(s); c->print(o);
	throw EngineErr{"constant " + s};
}
static E castE(unsigned op, E a, Type *from, Type *to)
{
	unsigned w = tw(to);
	switch(op) {
	case Instruction::Trunc: return mkExtract(a, 0, w);
	case Instruction::ZExt: return mkZext(a, w);
	case Instruction::SExt: return mkSext(a, w);
	case Instruction::PtrToInt: return w < 64 ? mkExtract(a, 0, w) : a;
	case Instruction::IntToPtr: return mkZext(a, 64);
	case Instruction::BitCast: case Instruction::AddrSpaceCast: if(from->isFloatingPointTy() == to->isFloatingPointTy()) return a;
		if(to->isDoubleTy()) return mkBits2R(a); if(from->isDoubleTy()) return mkR2Bits(a); throw EngineErr{"fp bitcast"};
	case Instruction::FPExt: return a;
	case Instruction::FPTrunc: if(a->op == RCONST) return mkReal(to->isFloatTy() ? (long double)(float)a->rval : (long double)(double)a->rval); return a;
	case Instruction::UIToFP: case Instruction::SIToFP: { E r = mkI2R(a, op == Instruction::SIToFP); if(r->op == RCONST) return mkReal(to->isFloatTy() ? (float)r->rval : to->isDoubleTy() ? (double)r->rval : r->rval); return r; }
	case Instruction::FPToUI: return mkR2I(a, w, false);
	case Instruction::FPToSI: return mkR2I(a, w, true);
	}
	throw EngineErr{"cast"};
}

static void initCells(State &S, Obj *o, Constant *c, uint64_t off)
{
	Type *t = c->getType();
	if(isa<ConstantAggregateZero>(c) or isa<ConstantPointerNull>(c)) return;
	if(isa<UndefValue>(c)) return;
	if(auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		uint64_t es = DL->getTypeAllocSize(cd->getElementType());
		for(unsigned i = 0; i < cd->getNumElements(); i++) initCells(S, o, cd->getElementAsConstant(i), off + i * es); return;
	}
	if(auto *ca = dyn_cast<ConstantAggregate>(c)) {
		if(auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for(unsigned i = 0; i < ca->getNumOperands(); i++) initCells(S, o, ca->getOperand(i), off + sl->getElementOffset(i)); }
		else { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for(unsigned i = 0; i < ca->getNumOperands(); i++) initCells(S, o, ca->getOperand(i), off + i * es); }
		return;
	}
	E v = constE(S, c);
	o->cells[off] = Cell{(uint32_t)DL->getTypeStoreSize(t).getFixedValue(), v};
}
static ObjP globalObj(uint32_t id)
{
	static std::unordered_map<uint32_t, ObjP> cache;
	auto it = cache.find(id); if(it != cache.end()) return it->second;
	auto o = std::make_shared<Obj>(); o->id = id;
	GlobalValue *g = g_gval[id]; if(not g) return nullptr;
	o->name = g->getName().str();
	if(auto *gv = dyn_cast<GlobalVariable>(g)) {
		o->csize = DL->getTypeAllocSize(gv->getValueType()); o->init = I_ZERO; o->ro = gv->isConstant();
		State tmp;
		if(gv->hasInitializer()) initCells(tmp, o.get(), gv->getInitializer(), 0);
		else if(o->name == "__libc_single_threaded") { o->cells[0] = Cell{1, mkConst(1, 8)}; }
		else if(o->name.find("_ZTV") == 0 or o->name.find("_ZTI") == 0) { o->csize = 4096; }
		else o->init = I_UNDEF;
	} else { o->csize = 0; o->ro = true; }
	cache[id] = o;
	return o;
}

// ---------------------------------------------------------------- evaluation
static void evals(State &S, Value *v, std::vector<E> &out)
{
	if(auto *c = dyn_cast<Constant>(v)) { constVals(S, c, out); return; }
	Frame &f = S.st.back();
	auto it = f.fi->slot.find(v); if(it == f.fi->slot.end()) throw EngineErr{"no slot"};
	unsigned n = nslots(v->getType());
	for(unsigned i = 0; i < n; i++) { E e = f.regs[it->second + i]; if(not e) throw EngineErr{"unset register in " + dem(f.f)}; out.push_back(e); }
}
static E ev(State &S, Value *v)
{
	if(auto *ci = dyn_cast<ConstantInt>(v)) { if(ci->getBitWidth() > 64) throw EngineErr{"wide int"}; return mkConst(ci->getZExtValue(), ci->getBitWidth()); }
	if(auto *c = dyn_cast<Constant>(v)) return constE(S, c);
	Frame &f = S.st.back();
	auto it = f.fi->slot.find(v); if(it == f.fi->slot.end()) throw EngineErr{"no slot"};
	E e = f.regs[it->second]; if(not e) throw EngineErr{"unset register in " + dem(f.f)};
	return e;
}
static void setv(State &S, const Value *v, E e) { Frame &f = S.st.back(); f.regs[f.fi->slot[v]] = e; }

// ---------------------------------------------------------------- pointer resolution
static E findIte(E p) { if(p->op == ITE) return p; if(p->op == ADD or p->op == SUB) { for(int i = 0; i < 2; i++) { E r = findIte(p->c[i]); if(r) return r; } } return nullptr; }
static E substIte(E p, E ite, E by) { if(p == ite) return by; if(p->op == ADD or p->op == SUB) return mkBin(p->op, substIte(p->c[0], ite, by), substIte(p->c[1], ite, by)); return p; }

static uint64_t constPart(E p, bool *ok) // constant addend of a sum
{
	if(isC(p)) { *ok = true; return p->val; }
	if(p->op == ADD and isC(p->c[0])) { *ok = true; return p->c[0]->val; }
	*ok = false; return 0;
}

struct PRes { uint32_t id; E off; };
static PRes resolve(State &S, E p, const char *what)
{
	if(isC(p)) {
		uint32_t id = p->val >> ADDR_SHIFT;
		if(id == 0) { prove(S, mkFalse(), "mem", std::string("null or invalid pointer ") + what); }
		Obj *o = getObj(S, id);
		if(not o) { prove(S, mkFalse(), "mem", std::string("wild pointer ") + what); }
		return {id, mkConst(p->val - baseOf(id), 64)};
	}
	bool ok; uint64_t c = constPart(p, &ok);
	if(ok and (c >> ADDR_SHIFT) and getObj(S, c >> ADDR_SHIFT)) { uint32_t id = c >> ADDR_SHIFT; return {id, mkBin(SUB, p, mkConst(baseOf(id), 64))}; }
	if(E it = findIte(p)) {
		E cnd = it->c[0];
		int d = decide(&S, cnd);
		if(d == -1) throw ForkRetry{{cnd, mkNot(cnd)}};
		return resolve(S, substIte(p, it, d ? it->c[1] : it->c[2]), what);
	}
	// by model
	Model m; Res r = checkC(S, mkTrue(), &m);
	{ Model m2; if(solverCheck(S.pc, mkCmp(EQ, p, p) == nullptr ? mkTrue() : mkOr(mkCmp(ULT, p, mkConst(~0ULL, 64)), mkCmp(EQ, p, mkConst(~0ULL, 64))), &m2) == SAT) { for(auto &q : m2.v) m.v[q.first] = q.second; for(auto &q : m2.arr) m.arr[q.first] = q.second; for(auto &q : m2.arrDefault) m.arrDefault[q.first] = q.second; } (void)r; }
	uint64_t v;
	if(not evalBV(p, m, &v)) throw EngineErr{"cannot resolve pointer " + toStr(p)};
	uint32_t id = v >> ADDR_SHIFT;
	E in = mkCmp(EQ, mkExtract(p, ADDR_SHIFT, 64 - ADDR_SHIFT), mkConst(id, 64 - ADDR_SHIFT));
	int d = decide(&S, in);
	if(d == -1) throw ForkRetry{{in, mkNot(in)}};
	if(d == 0) { E nin = mkNot(in); (void)nin; throw EngineErr{"stale model resolving pointer " + toStr(p)}; }
	if(id == 0 or not getObj(S, id)) { prove(S, mkFalse(), "mem", std::string("wild pointer ") + what); }
	return {id, mkBin(SUB, p, mkConst(baseOf(id), 64))};
}
static void checkAccess(State &S, const PRes &r, E n, const char *what, bool write)
{
	Obj *o = getObj(S, r.id);
	if(o->freed) prove(S, mkFalse(), "mem", std::string("use after free ") + what + " of " + o->name);
	if(isa_and_nonnull<Function>(g_gval.count(r.id) ? g_gval[r.id] : nullptr)) prove(S, mkFalse(), "mem", std::string("access to code ") + what);
	if(write and o->ro) prove(S, mkFalse(), "mem", std::string("write to read-only ") + o->name);
	E sz = o->sizeE();
	E c = mkAnd(mkCmp(ULE, n, sz), mkCmp(ULE, r.off, mkBin(SUB, sz, n)));
	if(isT(c)) { if(not g_dry) { OblKey k{"mem", std::string("bounds ") + what + " in " + repoFuncOf(S), locOf(S)}; if(not k.loc.empty()) { auto &st = g_obl[k]; st.n++; st.trivial++; } } return; }
	prove(S, c, "mem", std::string("bounds ") + what);
}
static E loadT(State &S, E p, Type *t)
{
	PRes r = resolve(S, p, "load");
	unsigned n = DL->getTypeStoreSize(t).getFixedValue();
	checkAccess(S, r, mkConst(n, 64), "load", false);
	if(t->isFloatingPointTy()) return loadBytes(S, r.id, r.off, n, true, t);
	unsigned w = tw(t);
	E v = loadBytes(S, r.id, r.off, n, false, t);
	if(v->w > w) v = mkExtract(v, 0, w);
	return v;
}
static void storeT(State &S, E p, Type *t, E v)
{
	PRes r = resolve(S, p, "store");
	unsigned n = DL->getTypeStoreSize(t).getFixedValue();
	checkAccess(S, r, mkConst(n, 64), "store", true);
	if(v->w and v->w < n * 8) v = mkZext(v, n * 8);
	storeBytes(S, r.id, r.off, n, v);
}

// copy bytes
static void doCopy(State &S, E dst, E src, E len)
{
	if(isC(len) and len->val == 0) return;
	if(not isC(len)) {
		E z = mkCmp(EQ, len, mkConst(0, 64));
		int d = decide(&S, z);
		if(d == 1) return;
		if(d == -1) throw ForkRetry{{z, mkNot(z)}};
	}
	PRes d = resolve(S, dst, "memcpy-dst"), s = resolve(S, src, "memcpy-src");
	checkAccess(S, s, len, "memcpy-src", false);
	checkAccess(S, d, len, "memcpy-dst", true);
	Obj *so = getObj(S, s.id), *dobj = getObj(S, d.id);
	if(isC(len) and isC(d.off) and isC(s.off) and not so->chained and not dobj->chained) {
		uint64_t n = len->val, so_ = s.off->val, do_ = d.off->val;
		// materialise undefined source bytes lazily: copy only the cells; split cells on the borders
		Obj *sw = getObjW(S, s.id);
		// cut borders
		auto cut = [&](uint64_t at) { auto j = sw->cells.upper_bound(at); if(j != sw->cells.begin()) { auto p = std::prev(j); if(p->first < at and p->first + p->second.n > at and p->second.v->w) { uint64_t o = p->first; Cell c = p->second; sw->cells.erase(p); for(unsigned i = 0; i < c.n; i++) sw->cells[o + i] = Cell{1, byteOf(c.v, i)}; } } };
		cut(so_); cut(so_ + n);
		std::vector<std::pair<uint64_t, Cell>> cs; std::vector<std::pair<uint64_t,uint64_t>> gaps; uint64_t cur = so_;
		for(auto j = sw->cells.lower_bound(so_); j != sw->cells.end() and j->first < so_ + n; ++j) { if(j->first > cur) gaps.push_back({cur, j->first}); cs.push_back({j->first - so_, j->second}); cur = j->first + j->second.n; }
		if(cur < so_ + n) gaps.push_back({cur, so_ + n});
		Init si = sw->init; std::string sname = sw->name;
		if(si == I_SYM) { // materialise gap bytes as 8-byte/1-byte symbols so that both sides agree
			for(auto &g : gaps) for(uint64_t a = g.first; a < g.second; ) { unsigned k = ((a & 7) == 0 and g.second - a >= 8) ? 8 : 1; E v = freshVar("sym_" + sname + "+" + std::to_string(a), k * 8); getObjW(S, s.id)->cells[a] = Cell{k, v}; cs.push_back({a - so_, Cell{k, v}}); a += k; }
			gaps.clear();
		}
		Obj *dw = getObjW(S, d.id);
		splitCells(dw, do_, n);
		for(auto &c : cs) dw->cells[do_ + c.first] = c.second;
		for(auto &g : gaps) {
			if(si == I_ZERO and dw->init != I_ZERO) { for(uint64_t a = g.first; a < g.second; ) { unsigned k = ((a & 7) == 0 and g.second - a >= 8) ? 8 : 1; dw->cells[do_ + a - so_] = Cell{k, mkConst(0, k * 8)}; a += k; } }
			else if(si == I_UNDEF and dw->init != I_UNDEF) { for(uint64_t a = g.first; a < g.second; ) { unsigned k = ((a & 7) == 0 and g.second - a >= 8) ? 8 : 1; dw->cells[do_ + a - so_] = Cell{k, freshVar("undef_" + sname, k * 8)}; a += k; } }
			// undef source into undef destination: splitCells removed old cells; they read as fresh again
		}
		return;
	}
	if(isC(len) and len->val <= 8 and not dobj->chained and isC(d.off)) {
		E v = loadBytes(S, s.id, s.off, len->val, false, nullptr);
		storeBytes(S, d.id, d.off, len->val, v); return;
	}
	if(isC(len) and len->val <= 256 and not dobj->chained and isC(d.off)) {
		std::vector<E> vs; for(uint64_t i = 0; i < len->val; i++) vs.push_back(loadBytes(S, s.id, mkBin(ADD, s.off, mkConst(i, 64)), 1, false, nullptr));
		for(uint64_t i = 0; i < len->val; i++) storeBytes(S, d.id, mkConst(d.off->val + i, 64), 1, vs[i]);
		return;
	}
	// small constant copies into chains: explicit stores keep values recombinable
	if(isC(len) and len->val <= 16 and not so->chained and isC(s.off)) {
		uint64_t k = 0; std::vector<std::pair<E,unsigned>> vs;
		while(k < len->val) { unsigned st = len->val - k >= 8 ? 8 : len->val - k >= 4 ? 4 : len->val - k >= 2 ? 2 : 1; vs.push_back({loadBytes(S, s.id, mkConst(s.off->val + k, 64), st, false, nullptr), st}); k += st; }
		k = 0; for(auto &p : vs) { storeBytes(S, d.id, mkBin(ADD, d.off, mkConst(k, 64)), p.second, p.first); k += p.second; }
		return;
	}
	so = getObjW(S, s.id); ChainP sc = viewChain(so);
	Obj *dw = getObjW(S, d.id); toChain(dw);
	auto c = std::make_shared<Chain>(); c->t = Chain::CPY; c->off = d.off; c->len = len; c->src = sc; c->srcoff = s.off; c->prev = dw->chain; c->depth = dw->chain->depth + 1;
	dw->chain = c;
}
static void doFill(State &S, E dst, E val, E len)
{
	if(isC(len) and len->val == 0) return;
	if(not isC(len)) { E z = mkCmp(EQ, len, mkConst(0, 64)); int d = decide(&S, z); if(d == 1) return; if(d == -1) throw ForkRetry{{z, mkNot(z)}}; }
	PRes d = resolve(S, dst, "memset");
	checkAccess(S, d, len, "memset", true);
	Obj *o = getObjW(S, d.id);
	if(not o->chained and isC(len) and isC(d.off) and len->val <= 65536) {
		uint64_t a = d.off->val, e = a + len->val; splitCells(o, a, len->val);
		if(isC(val) and val->val == 0 and o->init == I_ZERO) return;
		while(a < e) { unsigned k = ((a & 7) == 0 and e - a >= 8) ? 8 : ((a & 3) == 0 and e - a >= 4) ? 4 : 1; E v = val; for(unsigned i = 1; i < k; i++) v = mkConcat(val, v); o->cells[a] = Cell{k, v}; a += k; }
		return;
	}
	toChain(o);
	auto c = std::make_shared<Chain>(); c->t = Chain::FILL; c->off = d.off; c->len = len; c->val = val; c->prev = o->chain; c->depth = o->chain->depth + 1; o->chain = c;
}

static std::string cstr(State &S, E p)
{
	std::string s; if(isC(p) and p->val == 0) return "";
	for(int i = 0; i < 4000; i++) { PRes r = resolve(S, mkBin(ADD, p, mkConst(i, 64)), "cstr"); E b = loadBytes(S, r.id, r.off, 1, false, nullptr); if(not isC(b)) return s + "?"; if(not b->val) break; s += (char)b->val; }
	return s;
}

#include "exec.inc"
