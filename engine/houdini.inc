// ---------------------------------------------------------------- loop invariants (Houdini)
struct LVar { bool phi; unsigned slot = 0; uint32_t obj = 0; uint64_t off = 0; unsigned n = 0; E init = nullptr; bool ptr = false; uint32_t pobj = 0; E fresh = nullptr; };
typedef std::function<E(const std::vector<E> &)> Cand;

static E lvGet(State &T, const LVar &v, size_t depth)
{
	if(v.phi) return T.st[depth - 1].regs[v.slot];
	Obj *o = getObj(T, v.obj);
	if(not o or o->freed) return nullptr;
	bool real = v.init->w == 0;
	if(o->chained and real) return nullptr;
	try { return loadBytes(T, v.obj, mkConst(v.off, 64), v.n, real, nullptr); } catch(EngineErr &) { return nullptr; }
}
static uint32_t ptrObj(State &S, E e) { if(e->w != 64) return 0; bool ok; uint64_t c = constPart(e, &ok); if(ok and (c >> ADDR_SHIFT) and getObj(S, c >> ADDR_SHIFT) and (c >> ADDR_SHIFT) >= 1) return c >> ADDR_SHIFT; return 0; }
static bool undefVal(E v) { return v->op == VAR and (g_vars[v->val].name.compare(0, 6, "undef_") == 0 or g_vars[v->val].name.compare(0, 4, "sym_") == 0); }

static void collectAtoms(E e, std::vector<E> &out) { if(e->w == 1 and (e->op == AND or e->op == OR or (e->op == XOR and isT(e->c[0])))) { for(int i = 0; i < e->nc; i++) collectAtoms(e->c[i], out); return; } if(e->w == 1 and (e->op == EQ or e->op == ULT or e->op == ULE or e->op == SLT or e->op == SLE)) out.push_back(e); }

struct ChainMod { uint32_t obj; int cursor = -2; }; // cursor: index of the variable bounding the written range, -1 whole object

static bool summarizeLoop(State &S0, BasicBlock *from, BasicBlock *header)
{
	size_t depth = S0.st.size();
	if(S0.sumDepth >= 2) return false;
	FInfo *fi = S0.st.back().fi; loopInfo(fi);
	auto *blocks = &fi->loopBlocks[header];
	std::string lname = dem(S0.st.back().f).substr(0, 80) + ":" + header->getName().str();
	const char *whyfail = "?";
	static std::map<std::string, int> failCount;
	if(failCount[lname] >= 3) return false;
	double tstart = now();
	// base state at the header
	StateP B(new State(S0));
	B->sumDepth++;
	enterBlock(*B, header);
	std::vector<LVar> vars; std::vector<ChainMod> chains;
	for(auto &phi : header->phis()) {
		LVar v; v.phi = true; v.slot = fi->slot[&phi]; v.init = B->st.back().regs[v.slot];
		if(nslots(phi.getType()) != 1 or not v.init) { return false; }
		if((v.pobj = ptrObj(*B, v.init))) v.ptr = true;
		vars.push_back(v);
	}
	auto freshen = [&](LVar &v, const char *nm) {
		if(v.init->w == 0) v.fresh = mkRVar(std::string(nm) + "!" + std::to_string(g_fresh++));
		else if(v.ptr) { E o = freshVar(nm, 64); v.fresh = mkBin(ADD, mkConst(baseOf(v.pobj), 64), o); }
		else v.fresh = freshVar(nm, v.init->w);
	};
	for(auto &v : vars) freshen(v, "phi");
	std::vector<std::pair<Cand, std::string>> cands; std::vector<char> alive;
	auto inits = [&]() { std::vector<E> r; for(auto &v : vars) r.push_back(v.init); return r; };
	auto freshs = [&]() { std::vector<E> r; for(auto &v : vars) r.push_back(v.fresh); return r; };

	auto makeHeader = [&](bool withInv) -> StateP {
		StateP H(new State(*B));
		H->model.reset();
		for(auto &v : vars) {
			if(v.phi) H->st.back().regs[v.slot] = v.fresh;
			else storeBytes(*H, v.obj, mkConst(v.off, 64), v.n, v.fresh);
		}
		for(auto &c : chains) {
			Obj *o = getObjW(*H, c.obj);
			auto nb = std::make_shared<Chain>(); nb->t = Chain::BASE; nb->arr = mkArr("havoc_" + o->name + "!" + std::to_string(g_fresh++), wordChain(o->chain) ? 64 : 8);
			if(c.cursor < 0) o->chain = nb;
			else {
				LVar &v = vars[c.cursor];
				E lo = mkBin(SUB, v.init, mkConst(baseOf(c.obj), 64)), hi = mkBin(SUB, v.fresh, mkConst(baseOf(c.obj), 64));
				auto k = std::make_shared<Chain>(); k->t = Chain::CPY; k->off = lo; k->len = mkBin(SUB, hi, lo); k->src = nb; k->srcoff = lo; k->prev = o->chain; k->depth = o->chain->depth + 1; o->chain = k;
			}
		}
		for(auto &v : vars) if(v.init->w == 8 and false) {}
		if(withInv) { auto fv = freshs(); for(size_t i = 0; i < cands.size(); i++) if(alive[i]) { E c = cands[i].first(fv); if(not isT(c)) addPC(*H, c); } }
		return H;
	};
	// run one generic iteration from H; collects the back-edge states
	auto runIter = [&](StateP H, std::vector<StateP> &backs) -> bool {
		std::deque<StateP> local, *saved = WL; WL = &local;
		LoopSum ls; ls.header = header; ls.depth = depth; ls.blocks = blocks; ls.final = false; ls.back = &backs; ls.outer = H->sum;
		size_t maxBacks = 64;
		ls.onBack = [&](State &T) { backs.push_back(StateP(new State(T))); };
		H->sum = &ls;
		auto savedBounds = g_bounds; size_t nb = g_bounds.size(); (void)nb;
		long boundsBefore = 0; for(auto &p : g_bounds) boundsBefore += p.second;
		auto savedErr = g_errors; auto savedEnds = g_ends; auto savedLoops = g_loops;
		g_dry++;
		bool ok = true; int n = 0;
		try {
			WL->push_back(std::move(H));
			while(not WL->empty()) {
				StateP s = std::move(WL->back()); WL->pop_back();
				runState(std::move(s));
				if(++n > 300 or backs.size() > maxBacks or now() - tstart > 60) { ok = false; whyfail = "too many paths in the body"; break; }
			}
		} catch(EngineErr &e) { ok = false; static std::string keep; keep = "engine: " + e.why; whyfail = keep.c_str(); }
		g_dry--;
		long boundsAfter = 0; for(auto &p : g_bounds) boundsAfter += p.second;
		if(boundsAfter != boundsBefore) { ok = false; whyfail = "bounded loop inside"; }
		if(g_errors.size() != savedErr.size()) { ok = false; whyfail = "error inside"; }
		g_bounds = savedBounds; g_errors = savedErr; g_ends = savedEnds; g_loops = savedLoops;
		WL = saved;
		for(auto &b : backs) b->sum = ls.outer;
		return ok;
	};
	auto fail = [&](const std::string &w) { failCount[lname]++; if(not g_dry) g_loops[lname + ": no invariant (" + w + ")"]++; return false; };

	// ---- discover what the loop modifies
	std::vector<E> atoms;
	for(int round = 0; ; round++) {
		if(round > 12) return fail("modified set does not stabilise");
		std::vector<StateP> backs;
		StateP H = makeHeader(false);
		// memory of H for comparison
		StateP Href(new State(*H));
		if(not runIter(std::move(H), backs)) return fail(whyfail);
		bool changed = false;
		for(auto &T : backs) {
			for(size_t i = Href->pc.size(); i < T->pc.size(); i++) collectAtoms(T->pc[i], atoms);
			for(uint32_t id = g_firstDyn ? 1 : 1; id < T->mem.size(); id++) {
				Obj *o = T->mem[id].get(); if(not o) continue;
				if(id >= Href->mem.size() or (id < g_firstDyn and not Href->mem[id])) {
					if(id < g_firstDyn) { // lazily instantiated global
						Obj *g = globalObj(id).get(); if(g and (g->chain != o->chain)) { if(o->chained and not g->chained) { getObjW(*B, id); toChain(getObjW(*B, id)); changed = true; } continue; }
						if(g) { bool diff = g->cells.size() != o->cells.size(); if(not diff) { auto a = g->cells.begin(); for(auto &c : o->cells) { if(c.first != a->first or c.second.v != a->second.v) { diff = true; break; } ++a; } } if(diff and not g->ro) { getObj(*B, id); getObjW(*B, id); changed = true; } }
						continue;
					}
					if(o->heap and not o->freed) return fail("allocates in the body");
					continue;
				}
				Obj *h = Href->mem[id].get();
				if(not h) continue;
				if(h == o) continue;
				if(h->freed != o->freed) return fail("frees in the body");
				if(o->freed) continue;
				if(o->chained != h->chained) { if(getObj(*B, id) and not B->mem[id]->chained) { toChain(getObjW(*B, id)); changed = true;
					for(size_t q = 0; q < vars.size(); ) { if(not vars[q].phi and vars[q].obj == id) vars.erase(vars.begin() + q); else q++; } }
					continue; }
				if(o->chained) {
					if(o->chain == h->chain) continue;
					bool known = false; for(auto &c : chains) if(c.obj == id) known = true;
					if(not known) { ChainMod c; c.obj = id; c.cursor = -2; chains.push_back(c); changed = true; }
					continue;
				}
				for(auto &c : o->cells) {
					auto j = h->cells.find(c.first);
					if(j != h->cells.end() and j->second.v == c.second.v and j->second.n == c.second.n) continue;
					if(j == h->cells.end() and undefVal(c.second.v)) continue;
					bool known = false;
					for(auto &v : vars) if(not v.phi and v.obj == id and c.first < v.off + v.n and v.off < c.first + c.second.n) { known = true; if(v.off != c.first or v.n != c.second.n) return fail("cell shape changes"); }
					if(known) continue;
					LVar v; v.phi = false; v.obj = id; v.off = c.first; v.n = c.second.n;
					StateP tmp(new State(*B));
					try { v.init = loadBytes(*B, id, mkConst(v.off, 64), v.n, c.second.v->w == 0, nullptr); } catch(EngineErr &) { return fail("cell type"); }
					if((v.pobj = ptrObj(*B, v.init))) v.ptr = true;
					freshen(v, "cell");
					vars.push_back(v); changed = true;
				}
			}
		}
		if(vars.size() > 40) return fail("too many variables");
		if(not changed) { // pick cursors for chain modifications
			bool again = false;
			for(auto &c : chains) if(c.cursor == -2) {
				// try each pointer variable as the end of the written range
				int pick = -1;
				for(size_t k = 0; k < vars.size() and pick < 0; k++) if(vars[k].ptr and vars[k].pobj == c.obj) {
					bool ok = true;
					for(auto &T : backs) {
						Obj *o = T->mem[c.obj].get(), *h = Href->mem[c.obj].get();
						E nv = lvGet(*T, vars[k], depth); if(not nv) { ok = false; break; }
						E lo = mkBin(SUB, vars[k].fresh, mkConst(baseOf(c.obj), 64)), hi = mkBin(SUB, nv, mkConst(baseOf(c.obj), 64));
						for(ChainP n = o->chain; n and n != h->chain; n = n->prev) {
							if(n->t == Chain::BASE) { ok = false; break; }
							E len = n->t == Chain::ST ? mkConst(n->n, 64) : n->len;
							// within [lo, hi): assume sane magnitudes (objects are at most 2^38 bytes, checked by bounds obligations)
							E w = mkAnd(mkCmp(ULE, lo, n->off), mkCmp(ULE, mkBin(ADD, n->off, len), hi));
							std::vector<E> pc = T->pc; pc.push_back(mkCmp(ULE, lo, mkConst(MAX_OBJ, 64)));
							if(solverCheck(pc, mkNot(w), nullptr) != UNSAT) { ok = false; break; }
						}
						if(not ok) break;
					}
					if(ok) pick = k;
				}
				c.cursor = pick; again = true;
			}
			if(not again) break;
			break;
		}
	}
	// ---- candidates
	auto add = [&](Cand c, const std::string &n) { cands.push_back({c, n}); alive.push_back(1); };
	auto offE = [](const LVar &v, E e) { return v.ptr ? mkBin(SUB, e, mkConst(baseOf(v.pobj), 64)) : e; };
	std::vector<E> iv = inits();
	size_t nv = vars.size();
	for(size_t i = 0; i < nv; i++) {
		LVar v = vars[i]; E i0 = offE(v, v.init);
		if(v.init->w == 0) { if(v.init->op == RCONST and not std::isfinite(v.init->rval)) return fail("infinite real"); E r0 = v.init; add([i, r0](const std::vector<E> &x) { return mkRCmp(REQ, x[i], r0); }, "=="); add([i, r0](const std::vector<E> &x) { return mkRCmp(RLE, r0, x[i]); }, ">="); add([i, r0](const std::vector<E> &x) { return mkRCmp(RLE, x[i], r0); }, "<="); continue; }
		add([i, v, i0, offE](const std::vector<E> &x) { return mkCmp(EQ, offE(v, x[i]), i0); }, "== init");
		if(v.init->w == 1) continue;
		add([i, v, i0, offE](const std::vector<E> &x) { return mkCmp(ULE, i0, offE(v, x[i])); }, ">= init");
		add([i, v, i0, offE](const std::vector<E> &x) { return mkCmp(ULE, offE(v, x[i]), i0); }, "<= init");
		if(not v.ptr) { add([i, i0](const std::vector<E> &x) { return mkCmp(SLE, i0, x[i]); }, ">=s init"); add([i, i0](const std::vector<E> &x) { return mkCmp(SLE, x[i], i0); }, "<=s init");
			unsigned w = v.init->w;
			add([i, w](const std::vector<E> &x) { return mkCmp(ULE, x[i], mkConst(1, w)); }, "<= 1");
			if(w >= 32) { add([i, w](const std::vector<E> &x) { return mkCmp(ULE, x[i], mkConst(MAX_OBJ < maskw(w) ? MAX_OBJ : maskw(w) / 4, w)); }, "small"); } }
		else { E sz = getObj(*B, v.pobj)->sizeE(); add([i, v, sz, offE](const std::vector<E> &x) { return mkCmp(ULE, offE(v, x[i]), sz); }, "in object"); }
	}
	if(nv <= 14) for(size_t i = 0; i < nv; i++) for(size_t j = 0; j < nv; j++) if(i != j and vars[i].init->w and vars[i].init->w == vars[j].init->w and vars[i].init->w >= 8) {
		LVar a = vars[i], b = vars[j]; E a0 = offE(a, a.init), b0 = offE(b, b.init);
		if(i < j) {
			add([=](const std::vector<E> &x) { return mkCmp(EQ, mkBin(SUB, offE(a, x[i]), a0), mkBin(SUB, offE(b, x[j]), b0)); }, "lockstep");
			add([=](const std::vector<E> &x) { return mkCmp(EQ, mkBin(SUB, offE(a, x[i]), a0), mkBin(SUB, b0, offE(b, x[j]))); }, "counterstep");
			if(not a.ptr and not b.ptr) add([=](const std::vector<E> &x) { return mkCmp(EQ, x[i], x[j]); }, "equal");
		}
		add([=](const std::vector<E> &x) { return mkCmp(ULE, mkBin(SUB, offE(a, x[i]), a0), mkBin(SUB, offE(b, x[j]), b0)); }, "not faster");
		if(a.ptr == b.ptr and (not a.ptr or a.pobj == b.pobj)) add([=](const std::vector<E> &x) { return mkCmp(ULE, offE(a, x[i]), offE(b, x[j])); }, "ordered");
	}
	{ // from the conditions on the paths of one iteration
		auto fv = freshs(); std::set<E> seen; std::set<uint32_t> fids;
		for(auto &v : vars) for(uint32_t x : varsOf(v.fresh)) fids.insert(x);
		std::set<uint32_t> known; for(E e : B->pc) for(uint32_t x : varsOf(e)) known.insert(x);
		for(E i : iv) for(uint32_t x : varsOf(i)) known.insert(x);
		auto addAtom = [&](E at) {
			if(isC(at) or not seen.insert(at).second) return;
			bool has = false, ok = true; for(uint32_t x : varsOf(at)) { if(fids.count(x)) has = true; else if(x & 0x80000000u) {} else if(not known.count(x)) { const std::string &nm = g_vars[x].name; (void)nm; } }
			if(not has or not ok) return;
			add([at, fv, this_vars = vars](const std::vector<E> &x) { std::unordered_map<E, E> m; for(size_t i = 0; i < fv.size(); i++) { E key = fv[i]; if(this_vars[i].ptr) { key = mkBin(SUB, key, mkConst(baseOf(this_vars[i].pobj), 64)); m[key] = mkBin(SUB, x[i], mkConst(baseOf(this_vars[i].pobj), 64)); m[fv[i]] = x[i]; } else m[key] = x[i]; } return substE(at, m); }, "atom");
		};
		size_t lim = 0;
		for(E a : atoms) { if(++lim > 80) break; addAtom(a); if(a->op == ULT) addAtom(mkCmp(ULE, a->c[0], a->c[1])); if(a->op == SLT) addAtom(mkCmp(SLE, a->c[0], a->c[1])); addAtom(mkNot(a)); if(a->op == EQ and a->c[0]->w > 1) { addAtom(mkCmp(ULE, a->c[0], a->c[1])); addAtom(mkCmp(ULE, a->c[1], a->c[0])); } }
	}
	// ---- filter
	auto filter = [&](State &T, const std::vector<E> &vals) { // drop candidates not implied in T
		std::vector<E> ce(cands.size(), nullptr);
		for(size_t i = 0; i < cands.size(); i++) if(alive[i]) { ce[i] = cands[i].first(vals); if(isF(ce[i])) alive[i] = 0; }
		for(int it = 0; it < 200; it++) {
			E conj = mkTrue(); for(size_t i = 0; i < cands.size(); i++) if(alive[i] and not isT(ce[i])) conj = mkAnd(conj, ce[i]);
			if(isT(conj)) return;
			Model m; Res r = solverCheck(T.pc, mkNot(conj), &m);
			if(r == UNSAT) return;
			if(r == UNKNOWN) break;
			bool dropped = false;
			for(size_t i = 0; i < cands.size(); i++) if(alive[i] and not isT(ce[i])) { uint64_t v; if(ce[i]->hasReal or not evalBV(ce[i], m, &v)) continue; if(not v) { alive[i] = 0; dropped = true; } }
			if(not dropped) break;
		}
		for(size_t i = 0; i < cands.size(); i++) if(alive[i] and not isT(ce[i])) if(solverCheck(T.pc, mkNot(ce[i]), nullptr) != UNSAT) alive[i] = 0;
	};
	filter(*B, iv);
	for(int round = 0; ; round++) {
		if(round > 40) return fail("no fixpoint");
		if(now() - tstart > 90) return fail("time");
		int before = 0; for(char c : alive) before += c;
		std::vector<StateP> backs;
		if(not runIter(makeHeader(true), backs)) return fail(whyfail);
		for(auto &T : backs) {
			std::vector<E> vals; for(auto &v : vars) { E e = lvGet(*T, v, depth); if(not e or e->w != v.init->w) return fail("variable lost"); vals.push_back(e); }
			// pointer variables must stay in their object
			for(size_t i = 0; i < nv; i++) if(vars[i].ptr) { uint32_t po = ptrObj(*T, vals[i]); if(po != vars[i].pobj) { return fail("pointer leaves its object"); } }
			filter(*T, vals);
			// written ranges
			for(auto &c : chains) if(c.cursor >= 0) {
				Obj *o = T->mem[c.obj].get(); E lo = mkBin(SUB, vars[c.cursor].fresh, mkConst(baseOf(c.obj), 64)), hi = mkBin(SUB, vals[c.cursor], mkConst(baseOf(c.obj), 64)), lo0 = mkBin(SUB, vars[c.cursor].init, mkConst(baseOf(c.obj), 64));
				if(not mustTrue(*T, mkAnd(mkCmp(ULE, lo0, lo), mkCmp(ULE, lo, hi)))) return fail("cursor not monotone");
				for(ChainP n = o->chain; n; n = n->prev) {
					if(n->t == Chain::CPY and n->off == lo0) break; // the havoc node
					if(n->t == Chain::BASE) return fail("written range");
					E len = n->t == Chain::ST ? mkConst(n->n, 64) : n->len;
					if(not mustTrue(*T, mkAnd(mkCmp(ULE, lo, n->off), mkCmp(ULE, mkBin(ADD, n->off, len), hi)))) return fail("write outside the range");
				}
			}
			// other memory unchanged is implied by the discovery; check again
			for(uint32_t id = g_firstDyn; id < B->mem.size(); id++) { Obj *o = T->mem[id].get(), *h = B->mem[id].get(); if(not o or not h or o == h or o->freed != h->freed) { if(o and h and o->freed != h->freed) return fail("frees in the body"); continue; } if(o->chained) { if(o->chain != h->chain) { bool k = false; for(auto &c : chains) if(c.obj == id) k = true; if(not k) return fail("unexpected write"); } continue; }
				if(h->chained) return fail("unexpected write");
				for(auto &c : o->cells) { bool k = false; for(auto &v : vars) if(not v.phi and v.obj == id and v.off == c.first) k = true; if(k) continue; auto j = h->cells.find(c.first); if(j == h->cells.end()) { if(undefVal(c.second.v)) continue; return fail("unexpected cell"); } if(j->second.v != c.second.v) return fail("unexpected cell write"); } }
		}
		int after = 0; for(char c : alive) after += c;
		if(after == before) break;
	}
	// ---- continue from the generic iteration
	StateP H = makeHeader(true);
	H->sumDepth--;
	LoopSum *ls = new LoopSum(); ls->header = header; ls->depth = depth; ls->blocks = blocks; ls->final = true; ls->outer = H->sum; ls->back = nullptr; ls->onBack = [](State &) {};
	H->sum = ls; H->abs = true;
	if(not g_dry) { int k = 0; for(char c : alive) k += c; std::string key = lname + ": invariant of " + std::to_string(k) + " conjuncts over " + std::to_string(nv) + " variables"; g_loops[key]++;
		if(getenv("IRVC_INV")) { auto fv = freshs(); for(size_t i = 0; i < cands.size(); i++) if(alive[i]) fprintf(stderr, "  inv %s: %s\n", cands[i].second.c_str(), toStr(cands[i].first(fv), 6).c_str()); } }
	S0 = std::move(*H);
	return true;
}
