// ---------------------------------------------------------------- execution
// facts about the exact real value of a libm function
static void realAxioms(State &S, std::string n, const std::vector<E> &a, E u)
{
	if(n.size() > 1 and n.back() == 'l' and n != "ceil") n.pop_back();
	E one = mkReal(1), z = mkReal(0); auto le = [](E x, E y) { return mkNot(mkRCmp(RLT, y, x)); };
	if(n == "ceil") assume(S, mkAnd(mkAnd(le(a[0], u), mkRCmp(RLT, u, mkR(RADD, a[0], one, 80))), mkIte(mkRCmp(RLT, z, a[0]), le(one, u), le(u, z))));
	else if(n == "floor") assume(S, mkAnd(mkAnd(le(u, a[0]), mkRCmp(RLT, mkR(RSUB, a[0], one, 80), u)), mkIte(mkRCmp(RLT, a[0], one), le(u, z), le(one, u))));
	else if(n == "exp" or n == "exp2") assume(S, mkRCmp(RLT, z, u));
	else if(n == "sqrt") assume(S, mkAnd(le(z, u), mkOr(mkRCmp(RLT, a[0], z), mkRCmp(REQ, mkR(RMUL, u, u, 80), a[0]))));
	else if(n == "cbrt") assume(S, mkRCmp(REQ, mkR(RMUL, u, mkR(RMUL, u, u, 80), 80), a[0]));
}

static std::deque<StateP> *WL = new std::deque<StateP>();
static std::vector<pid_t> g_children;
static bool g_isRoot = true;
static bool g_noSpawn = false;

struct LoopSum { BasicBlock *header; size_t depth; std::vector<StateP> *back; std::set<BasicBlock *> *blocks; bool final; bool bad = false; LoopSum *outer = nullptr;
	std::function<void(State &)> onBack; };

static bool g_noinv = false;
static int64_t CFG(State &S, const char *k, int64_t d) { if(g_noinv and k[0] == 'i' and k[1] == 'n' and k[2] == 'v' and k[3] == 0) return 0; auto it = S.cfg.find(k); return it == S.cfg.end() ? d : it->second; }

static void resetResults() { g_obl.clear(); g_covers.clear(); g_funcs.clear(); g_assumed.clear(); g_bounds.clear(); g_errors.clear(); g_loops.clear(); g_ends.clear(); g_viol.clear(); g_violCount.clear(); g_sstats = SolverStats(); }

static void writeResults()
{
	std::string fn = g_outdir + "/r." + g_entry + "." + std::to_string(getpid()) + ".json";
	FILE *f = fopen(fn.c_str(), "w"); if(not f) return;
	fprintf(f, "{\"obl\":[");
	bool first = true;
	for(auto &p : g_obl) { fprintf(f, "%s[%s,%s,%s,%ld,%ld,%ld,%ld,%ld]", first ? "" : ",", jstr(p.first.kind).c_str(), jstr(p.first.label).c_str(), jstr(p.first.loc).c_str(), p.second.n, p.second.trivial, p.second.bysolver, p.second.failed, p.second.unknown); first = false; }
	fprintf(f, "]");
	auto mp = [&](const char *n, std::map<std::string, long> &m) { fprintf(f, ",\"%s\":{", n); bool fi = true; for(auto &p : m) { fprintf(f, "%s%s:%ld", fi ? "" : ",", jstr(p.first).c_str(), p.second); fi = false; } fprintf(f, "}"); };
	mp("covers", g_covers); mp("funcs", g_funcs); mp("assumed", g_assumed); mp("bounds", g_bounds); mp("errors", g_errors); mp("loops", g_loops); mp("ends", g_ends);
	fprintf(f, ",\"solver\":{\"queries\":%lu,\"cache\":%lu,\"model\":%lu,\"unknown\":%lu,\"cvc5\":%lu,\"secs\":%.3f}", g_sstats.queries, g_sstats.cacheHits, g_sstats.modelHits, g_sstats.unknowns, g_sstats.cvc5, g_sstats.secs);
	fprintf(f, ",\"viol\":["); first = true; for(auto &v : g_viol) { fprintf(f, "%s%s", first ? "" : ",", v.c_str()); first = false; } fprintf(f, "]}\n");
	fclose(f);
}

static void maybeSpawn()
{
	if(g_dry or g_noSpawn) return;
	while(WL->size() >= 1 and SH->active.load() < g_maxprocs) {
		if(SH->active.fetch_add(1) >= g_maxprocs) { SH->active.fetch_sub(1); return; }
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if(p < 0) { SH->active.fetch_sub(1); return; }
		if(p == 0) {
			g_isRoot = false; g_children.clear();
			resetResults();
			StateP s = std::move(WL->front()); WL->clear(); WL->push_back(std::move(s));
			throw std::string("child");
		}
		g_children.push_back(p);
		WL->pop_front();
	}
}

static void enterBlock(State &S, BasicBlock *to)
{
	Frame &f = S.st.back();
	f.prev = f.bb; f.bb = to; f.it = to->begin();
	// phis in parallel
	std::vector<std::pair<const Value *, std::vector<E>>> vals;
	for(auto &phi : to->phis()) { std::vector<E> v; evals(S, phi.getIncomingValueForBlock(f.prev), v); vals.push_back({&phi, v}); }
	for(auto &p : vals) { unsigned s = f.fi->slot[p.first]; for(size_t i = 0; i < p.second.size(); i++) f.regs[s + i] = p.second[i]; }
	f.it = to->getFirstNonPHI()->getIterator();
}

static bool summarizeLoop(State &S, BasicBlock *from, BasicBlock *header); // houdini

static void jump(State &S, BasicBlock *to)
{
	Frame &f = S.st.back();
	// leaving / closing a loop under summarisation
	for(LoopSum *ls = S.sum; ls; ls = ls->outer) {
		if(S.st.size() == ls->depth) {
			if(to == ls->header and S.st.size() == ls->depth and ls->blocks->count(f.bb)) {
				enterBlock(S, to);
				ls->onBack(S);
				throw PathEnd{ls->final ? "loop-backedge" : "dry"};
			}
			if(not ls->blocks->count(to)) {
				if(not ls->final) throw PathEnd{"dry"};
				// leaving a finalised loop: drop it
				LoopSum **pp = &S.sum; while(*pp and *pp != ls) pp = &(*pp)->outer; // chain is immutable across states: only pop when on top
				if(S.sum == ls) S.sum = ls->outer;
				break;
			}
		}
		if(S.st.size() < ls->depth) { if(not ls->final) throw PathEnd{"dry"}; }
	}
	if(CFG(S, "inv", 0)) {
		loopInfo(f.fi);
		if(f.fi->headers.count(to)) {
			auto &b = f.backs[to];
			if(not f.fi->loopBlocks[to].count(f.bb)) b = {0, S.pc.size()};
			else if(b.second < S.pc.size() and b.first >= 0) {
				b.second = S.pc.size();
				if(++b.first >= CFG(S, "invafter", 2)) {
					if(summarizeLoop(S, f.bb, to)) return;
					S.st.back().backs[to].first = -1; // not again for this activation
				}
			}
		}
	}
	enterBlock(S, to);
}

static void pushFrame(State &S, Function *fn, CallBase *site, const std::vector<E> &args, const std::vector<E> &va)
{
	if((int64_t)S.st.size() > CFG(S, "maxdepth", 300)) { g_bounds["recursion depth in " + dem(fn)]++; throw PathEnd{"bound"}; }
	int64_t mr = CFG(S, "maxrec", 40); int cnt = 0; for(auto &f : S.st) if(f.f == fn) cnt++;
	if(cnt >= mr) { g_bounds["recursion of " + dem(fn)]++; throw PathEnd{"bound"}; }
	if(not g_dry) { const std::string &d = dem(fn); g_funcs[d]++; }
	Frame nf; nf.f = fn; nf.fi = finfo(fn); nf.bb = &fn->getEntryBlock(); nf.prev = nullptr; nf.site = site;
	nf.regs.resize(nf.fi->nslots, nullptr);
	for(size_t i = 0; i < args.size() and i < nf.regs.size(); i++) nf.regs[i] = args[i];
	nf.varargs = va;
	nf.it = nf.bb->begin();
	S.st.push_back(std::move(nf));
}

static void retFrom(State &S, const std::vector<E> &rv)
{
	Frame f = std::move(S.st.back()); S.st.pop_back();
	for(uint32_t a : f.allocas) { Obj *o = getObjW(S, a); if(o) { o->freed = true; o->cells.clear(); o->chain.reset(); if(o->chained) { o->chain = std::make_shared<Chain>(); o->chain->t = Chain::BASE; o->chain->constBase = true; } } }
	if(S.st.empty()) throw PathEnd{"done"};
	for(LoopSum *ls = S.sum; ls; ls = ls->outer) if(S.st.size() < ls->depth) { if(not ls->final) throw PathEnd{"dry"}; }
	while(S.sum and S.st.size() < S.sum->depth) S.sum = S.sum->outer;
	Frame &c = S.st.back();
	if(not f.site) die("no site");
	if(not f.site->getType()->isVoidTy()) { unsigned s = c.fi->slot[f.site]; for(size_t i = 0; i < rv.size(); i++) c.regs[s + i] = rv[i]; }
	++c.it;
}

static void brFork(State &S, const Instruction *I, std::vector<std::pair<E, BasicBlock *>> alts)
{
	// find feasible alternatives
	std::vector<std::pair<E, BasicBlock *>> ok; std::vector<std::shared_ptr<Model>> models; std::vector<char> unk;
	for(auto &a : alts) {
		if(isF(a.first)) continue;
		if(isT(a.first)) { ok.push_back(a); models.push_back(S.model); unk.push_back(0); continue; }
		Model m; Res r = checkC(S, a.first, &m);
		if(r == UNSAT) continue;
		ok.push_back(a); models.push_back(r == SAT and not S.unk ? std::make_shared<Model>(m) : nullptr); unk.push_back(r == UNKNOWN);
	}
	if(ok.empty()) throw PathEnd{"infeasible"};
	if(ok.size() > 1) {
		int &n = S.st.back().forks[I];
		if(++n > CFG(S, "unroll", 24)) {
			g_bounds["loop at " + locOf(S) + " in " + dem(S.st.back().f)]++;
			S.bounded = true;
			throw PathEnd{"bound"};
		}
		SH->forks++;
	}
	for(size_t i = 1; i < ok.size(); i++) {
		StateP ns(new State(S));
		addPC(*ns, ok[i].first); ns->model = models[i]; if(unk[i]) ns->unk = true;
		bool live = true;
		try { jump(*ns, ok[i].second); } catch(PathEnd &pe) { live = false; g_ends[pe.why]++; } catch(EngineErr &ee) { live = false; if(not g_dry) g_errors[ee.why + " @" + locOf(*ns)]++; else throw; }
		catch(ForkRetry &) { live = false; g_errors["fork in jump"]++; }
		if(live) WL->push_back(std::move(ns));
	}
	if(ok.size() > 1) { addPC(S, ok[0].first); S.model = models[0]; if(unk[0]) S.unk = true; }
	else if(not isT(ok[0].first)) { if(models[0]) S.model = models[0]; }
	if(ok.size() > 1) {
		// spawning may throw in the child; current state must be saved first
		if(not g_dry and not g_noSpawn and SH->active.load() < g_maxprocs) maybeSpawn();
	}
	jump(S, ok[0].second);
}

static E rarith(State &S, Op op, E a, E b, int fb)
{
	if(op == RDIV and b->op != RCONST) {
		E z = mkRCmp(REQ, b, mkReal(0)); int d = decide(&S, z);
		if(d == -1) throw ForkRetry{{z, mkNot(z)}};
		if(d == 1) b = mkReal(0);
	}
	if(op == RDIV and b->op == RCONST and b->rval == 0 and a->op != RCONST) {
		E p = mkRCmp(RLT, mkReal(0), a), n = mkRCmp(RLT, a, mkReal(0));
		if(decide(&S, p) == 1) return mkReal(INFINITY); if(decide(&S, n) == 1) return mkReal(-INFINITY);
		E z = mkRCmp(REQ, a, mkReal(0)); if(decide(&S, z) == 1) return mkReal(NAN);
		throw ForkRetry{{p, n, z}};
	}
	E r = mkR(op, a, b, fb);
	if(r) return r;
	E s = a->op == RCONST ? b : a; long double inf = a->op == RCONST ? a->rval : b->rval;
	E p = mkRCmp(RLT, mkReal(0), s), n = mkRCmp(RLT, s, mkReal(0)), z = mkRCmp(REQ, s, mkReal(0));
	if(decide(&S, p) == 1) return mkReal(inf); if(decide(&S, n) == 1) return mkReal(-inf); if(decide(&S, z) == 1) return op == RMUL ? mkReal(NAN) : mkReal(inf);
	throw ForkRetry{{p, n, z}};
}

static E fcmpE(CmpInst::Predicate p, E a, E b)
{
	bool nan = (a->op == RCONST and std::isnan(a->rval)) or (b->op == RCONST and std::isnan(b->rval));
	switch(p) {
	case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
	case CmpInst::FCMP_ORD: return mkConst(not nan, 1); case CmpInst::FCMP_UNO: return mkConst(nan, 1);
	default: break;
	}
	bool unordered = CmpInst::isUnordered(p);
	if(nan) return mkConst(unordered, 1);
	switch(p) {
	case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkRCmp(REQ, a, b);
	case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkNot(mkRCmp(REQ, a, b));
	case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkRCmp(RLT, a, b);
	case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkRCmp(RLE, a, b);
	case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkRCmp(RLT, b, a);
	case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkRCmp(RLE, b, a);
	default: throw EngineErr{"fcmp"};
	}
}

static bool handleExternal(State &S, CallBase *cb, Function *fn, const std::string &name, std::vector<E> &a, std::vector<E> &rv);
static bool handleIntrinsic(State &S, IntrinsicInst *ii);

static void advance(State &S) { ++S.st.back().it; }

static uint64_t concretize(State &S, E e, const char *what, unsigned limit)
{
	if(isC(e)) return e->val;
	Model m; if(S.model) m = *S.model;
	std::vector<E> vals; std::vector<E> conds; std::vector<E> pc = S.pc;
	E any = mkTrue();
	for(unsigned i = 0; i <= limit; i++) {
		Model mm = m;
		// force a model for the variables in e
		E probe = mkAnd(any, mkOr(mkCmp(ULE, mkConst(1, e->w), e), mkNot(mkCmp(ULE, mkConst(1, e->w), e))));
		Res r;
		if(i == 0) { // use slice of e: trivial condition mentioning e
			E t = mkCmp(ULT, e, mkConst(0x7fffffff, e->w)); Model m1 = mm; r = solverCheck(S.pc, t, &m1); if(r == SAT) mm = m1; else { r = solverCheck(S.pc, mkNot(t), &m1); if(r == SAT) mm = m1; } }
		else r = solverCheck(S.pc, probe, &mm);
		if(r == UNSAT) break;
		if(r == UNKNOWN) throw EngineErr{std::string("cannot concretize ") + what};
		uint64_t v; if(not evalBV(e, mm, &v)) throw EngineErr{std::string("cannot evaluate ") + what};
		if(i == limit) { g_bounds[std::string("concretize ") + what + " at " + locOf(S)]++; S.bounded = true; break; }
		E c = mkCmp(EQ, e, mkConst(v, e->w));
		conds.push_back(c); any = mkAnd(any, mkNot(c)); vals.push_back(mkConst(v, e->w));
	}
	if(conds.empty()) throw PathEnd{"infeasible"};
	if(conds.size() == 1) { addPC(S, conds[0]); return vals[0]->val; }
	throw ForkRetry{conds};
}

static void execInst(State &S)
{
	Frame &f = S.st.back();
	Instruction *I = &*f.it;
	S.steps++;
	switch(I->getOpcode()) {
	case Instruction::Ret: {
		std::vector<E> rv; if(auto *v = cast<ReturnInst>(I)->getReturnValue()) evals(S, v, rv);
		retFrom(S, rv); return; }
	case Instruction::Br: {
		auto *b = cast<BranchInst>(I);
		if(b->isUnconditional()) { jump(S, b->getSuccessor(0)); return; }
		E c = ev(S, b->getCondition());
		if(isC(c)) { jump(S, b->getSuccessor(c->val ? 0 : 1)); return; }
		if(b->getSuccessor(0) == b->getSuccessor(1)) { jump(S, b->getSuccessor(0)); return; }
		brFork(S, I, {{c, b->getSuccessor(0)}, {mkNot(c), b->getSuccessor(1)}}); return; }
	case Instruction::Switch: {
		auto *s = cast<SwitchInst>(I); E c = ev(S, s->getCondition());
		if(isC(c)) { jump(S, s->findCaseValue(ConstantInt::get(cast<IntegerType>(s->getCondition()->getType()), c->val))->getCaseSuccessor()); return; }
		std::vector<std::pair<E, BasicBlock *>> alts; E def = mkTrue();
		for(auto &cs : s->cases()) {
			E q = mkCmp(EQ, c, mkConst(cs.getCaseValue()->getZExtValue(), c->w)); def = mkAnd(def, mkNot(q));
			bool found = false; for(auto &x : alts) if(x.second == cs.getCaseSuccessor()) { x.first = mkOr(x.first, q); found = true; }
			if(not found) alts.push_back({q, cs.getCaseSuccessor()});
		}
		bool found = false; for(auto &x : alts) if(x.second == s->getDefaultDest()) { x.first = mkOr(x.first, def); found = true; }
		if(not found) alts.push_back({def, s->getDefaultDest()});
		brFork(S, I, alts); return; }
	case Instruction::Unreachable:
		prove(S, mkFalse(), "abort", "unreachable code reached"); throw PathEnd{"unreachable"};
	case Instruction::PHI: throw EngineErr{"phi"};
	case Instruction::Alloca: {
		auto *a = cast<AllocaInst>(I); uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType());
		E n = a->isArrayAllocation() ? mkZext(ev(S, a->getArraySize()), 64) : mkConst(1, 64);
		uint32_t id;
		if(isC(n)) id = newObj(S, a->getName().str().empty() ? "tmp" : a->getName().str(), sz * n->val, nullptr, I_UNDEF); else id = newObj(S, "vla", 0, mkBin(MUL, n, mkConst(sz, 64)), I_UNDEF);
		S.mem[id]->stack = true; S.st.back().allocas.push_back(id);
		setv(S, I, mkConst(baseOf(id), 64)); advance(S); return; }
	case Instruction::Load: {
		auto *l = cast<LoadInst>(I); E p = ev(S, l->getPointerOperand());
		Type *t = l->getType();
		if(t->isAggregateType()) {
			std::vector<E> out; std::function<void(Type *, E)> rec = [&](Type *ty, E q) { if(auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), mkBin(ADD, q, mkConst(sl->getElementOffset(i), 64))); } else if(auto *at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for(unsigned i = 0; i < at->getNumElements(); i++) rec(at->getElementType(), mkBin(ADD, q, mkConst(i * es, 64))); } else out.push_back(loadT(S, q, ty)); };
			rec(t, p); unsigned s = S.st.back().fi->slot[I]; for(size_t i = 0; i < out.size(); i++) S.st.back().regs[s + i] = out[i];
		} else setv(S, I, loadT(S, p, t));
		advance(S); return; }
	case Instruction::Store: {
		auto *s = cast<StoreInst>(I); E p = ev(S, s->getPointerOperand()); Type *t = s->getValueOperand()->getType();
		if(t->isAggregateType()) {
			std::vector<E> vs; evals(S, s->getValueOperand(), vs); size_t k = 0;
			std::function<void(Type *, E)> rec = [&](Type *ty, E q) { if(auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), mkBin(ADD, q, mkConst(sl->getElementOffset(i), 64))); } else if(auto *at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for(unsigned i = 0; i < at->getNumElements(); i++) rec(at->getElementType(), mkBin(ADD, q, mkConst(i * es, 64))); } else storeT(S, q, ty, vs[k++]); };
			rec(t, p);
		} else storeT(S, p, t, ev(S, s->getValueOperand()));
		advance(S); return; }
	case Instruction::GetElementPtr: setv(S, I, gepE(S, cast<GEPOperator>(I), [&](Value *v) { return ev(S, v); })); advance(S); return;
	case Instruction::ICmp: {
		auto *c = cast<ICmpInst>(I); E a = ev(S, c->getOperand(0)), b = ev(S, c->getOperand(1));
		if(c->getOperand(0)->getType()->isPointerTy()) { // pointers into different objects differ
			bool k1, k2; uint64_t x = constPart(a, &k1), y = constPart(b, &k2);
			if(k1 and k2 and (not isC(a) or not isC(b)) and (x >> ADDR_SHIFT) != (y >> ADDR_SHIFT)) {
				if(c->getPredicate() == CmpInst::ICMP_EQ) { setv(S, I, mkFalse()); advance(S); return; }
				if(c->getPredicate() == CmpInst::ICMP_NE) { setv(S, I, mkTrue()); advance(S); return; }
			}
			if(k1 and k2 and (x >> ADDR_SHIFT) and (x >> ADDR_SHIFT) == (y >> ADDR_SHIFT)) { uint64_t bb = baseOf(x >> ADDR_SHIFT); a = mkBin(SUB, a, mkConst(bb, 64)); b = mkBin(SUB, b, mkConst(bb, 64)); }
		}
		setv(S, I, icmpE(c->getPredicate(), a, b)); advance(S); return; }
	case Instruction::FCmp: setv(S, I, fcmpE(cast<FCmpInst>(I)->getPredicate(), ev(S, I->getOperand(0)), ev(S, I->getOperand(1)))); advance(S); return;
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
		Op op = I->getOpcode() == Instruction::FAdd ? RADD : I->getOpcode() == Instruction::FSub ? RSUB : I->getOpcode() == Instruction::FMul ? RMUL : RDIV;
		setv(S, I, rarith(S, op, ev(S, I->getOperand(0)), ev(S, I->getOperand(1)), fbits(I->getType()))); advance(S); return; }
	case Instruction::FNeg: { E a = ev(S, I->getOperand(0)); setv(S, I, a->op == RCONST ? mkReal(-a->rval) : mkR(RSUB, mkReal(0), a, 80)); advance(S); return; }
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		E a = ev(S, I->getOperand(0)), b = ev(S, I->getOperand(1));
		if(not isC(b) or b->val == 0) prove(S, mkNot(mkCmp(EQ, b, mkConst(0, b->w))), "mem", "division by zero");
		setv(S, I, binE(I->getOpcode(), a, b)); advance(S); return; }
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		setv(S, I, binE(I->getOpcode(), ev(S, I->getOperand(0)), ev(S, I->getOperand(1)))); advance(S); return;
	case Instruction::Select: {
		E c = ev(S, I->getOperand(0));
		std::vector<E> a, b; evals(S, I->getOperand(1), a); evals(S, I->getOperand(2), b);
		unsigned s = f.fi->slot[I];
		if(isC(c)) { for(size_t i = 0; i < a.size(); i++) f.regs[s + i] = c->val ? a[i] : b[i]; advance(S); return; }
		// infinities cannot be carried inside a symbolic real: fork
		for(size_t i = 0; i < a.size(); i++) if(a[i]->w == 0 and ((a[i]->op == RCONST and not std::isfinite(a[i]->rval)) or (b[i]->op == RCONST and not std::isfinite(b[i]->rval)))) { int d = decide(&S, c); if(d == -1) throw ForkRetry{{c, mkNot(c)}}; c = mkConst(d, 1); }
		for(size_t i = 0; i < a.size(); i++) f.regs[s + i] = mkIte(c, a[i], b[i]);
		advance(S); return; }
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
	case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::AddrSpaceCast:
		setv(S, I, castE(I->getOpcode(), ev(S, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); advance(S); return;
	case Instruction::Freeze: { std::vector<E> a; evals(S, I->getOperand(0), a); unsigned s = f.fi->slot[I]; for(size_t i = 0; i < a.size(); i++) f.regs[s + i] = a[i]; advance(S); return; }
	case Instruction::ExtractValue: case Instruction::InsertValue: {
		auto idxs = I->getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(I)->getIndices() : cast<InsertValueInst>(I)->getIndices();
		Type *t = I->getOperand(0)->getType(); unsigned off = 0;
		for(unsigned ix : idxs) { if(auto *st = dyn_cast<StructType>(t)) { for(unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); } }
		std::vector<E> a; evals(S, I->getOperand(0), a); unsigned s = f.fi->slot[I];
		if(I->getOpcode() == Instruction::ExtractValue) { for(unsigned i = 0; i < nslots(t); i++) f.regs[s + i] = a[off + i]; }
		else { std::vector<E> b; evals(S, I->getOperand(1), b); for(size_t i = 0; i < b.size(); i++) a[off + i] = b[i]; for(size_t i = 0; i < a.size(); i++) f.regs[s + i] = a[i]; }
		advance(S); return; }
	case Instruction::AtomicRMW: {
		auto *r = cast<AtomicRMWInst>(I); E p = ev(S, r->getPointerOperand()), v = ev(S, r->getValOperand()); E o = loadT(S, p, r->getType()); E n;
		switch(r->getOperation()) { case AtomicRMWInst::Add: n = mkBin(ADD, o, v); break; case AtomicRMWInst::Sub: n = mkBin(SUB, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = mkBin(AND, o, v); break; case AtomicRMWInst::Or: n = mkBin(OR, o, v); break; default: throw EngineErr{"atomicrmw"}; }
		storeT(S, p, r->getType(), n); setv(S, I, o); advance(S); return; }
	case Instruction::AtomicCmpXchg: {
		auto *r = cast<AtomicCmpXchgInst>(I); E p = ev(S, r->getPointerOperand()), c = ev(S, r->getCompareOperand()), n = ev(S, r->getNewValOperand());
		E o = loadT(S, p, r->getNewValOperand()->getType()); E eq = mkCmp(EQ, o, c); storeT(S, p, r->getNewValOperand()->getType(), mkIte(eq, n, o));
		unsigned s = S.st.back().fi->slot[I]; S.st.back().regs[s] = o; S.st.back().regs[s + 1] = eq; advance(S); return; }
	case Instruction::Fence: advance(S); return;
	case Instruction::Call: {
		if(auto *ii = dyn_cast<IntrinsicInst>(I)) { if(handleIntrinsic(S, ii)) { return; } }
		auto *cb = cast<CallBase>(I);
		if(cb->isInlineAsm()) { if(not I->getType()->isVoidTy()) throw EngineErr{"inline asm"}; advance(S); return; }
		Function *fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
		if(not fn) {
			E p = ev(S, cb->getCalledOperand());
			PRes r = resolve(S, p, "indirect call");
			auto it = g_gval.find(r.id); if(it == g_gval.end() or not isa<Function>(it->second)) { prove(S, mkFalse(), "mem", "indirect call to non-function"); }
			fn = cast<Function>(it->second);
		}
		std::vector<E> a, va; unsigned k = 0;
		for(auto &arg : cb->args()) {
			if(cb->isByValArgument(k)) { // copy
				Type *bt = cb->getParamByValType(k); uint64_t sz = DL->getTypeAllocSize(bt); E src = ev(S, arg);
				uint32_t id = newObj(S, "byval", sz, nullptr, I_UNDEF); S.mem[id]->stack = true; doCopy(S, mkConst(baseOf(id), 64), src, mkConst(sz, 64)); S.st.back().allocas.push_back(id); a.push_back(mkConst(baseOf(id), 64));
			} else evals(S, arg, a);
			k++;
		}
		std::vector<E> rv;
		if(fn->isDeclaration() or fn->getName().startswith("v_")) {
			std::string nm = fn->getName().str();
			size_t depth = S.st.size();
			if(not handleExternal(S, cb, fn, nm, a, rv)) throw EngineErr{"unmodelled external function " + dem(fn)};
			if(S.st.size() != depth) return; // pushed a frame
			if(not I->getType()->isVoidTy()) {
				unsigned ns = nslots(I->getType());
				if(rv.size() != ns) throw EngineErr{"external result arity " + nm};
				unsigned s = S.st.back().fi->slot[I]; for(unsigned i = 0; i < ns; i++) S.st.back().regs[s + i] = rv[i];
			}
			advance(S); return;
		}
		if(fn->isVarArg()) throw EngineErr{"vararg call " + dem(fn)};
		pushFrame(S, fn, cb, a, va);
		return; }
	default: { std::string s; raw_string_ostream o(s); I->print(o); throw EngineErr{"instruction" + s}; }
	}
}

static bool handleIntrinsic(State &S, IntrinsicInst *ii)
{
	auto A = [&](unsigned i) { return ev(S, ii->getArgOperand(i)); };
	switch(ii->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(S, A(0), A(1), A(2)); break;
	case Intrinsic::memset: doFill(S, A(0), A(1), A(2)); break;
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::var_annotation: break;
	case Intrinsic::stacksave: case Intrinsic::invariant_start: setv(S, ii, mkConst(0, 64)); break;
	case Intrinsic::expect: setv(S, ii, A(0)); break;
	case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setv(S, ii, A(0)); break;
	case Intrinsic::umin: setv(S, ii, mkIte(mkCmp(ULT, A(0), A(1)), A(0), A(1))); break;
	case Intrinsic::umax: setv(S, ii, mkIte(mkCmp(ULT, A(0), A(1)), A(1), A(0))); break;
	case Intrinsic::smin: setv(S, ii, mkIte(mkCmp(SLT, A(0), A(1)), A(0), A(1))); break;
	case Intrinsic::smax: setv(S, ii, mkIte(mkCmp(SLT, A(0), A(1)), A(1), A(0))); break;
	case Intrinsic::abs: { E a = A(0); setv(S, ii, mkIte(mkCmp(SLT, a, mkConst(0, a->w)), mkBin(SUB, mkConst(0, a->w), a), a)); break; }
	case Intrinsic::usub_sat: { E a = A(0), b = A(1); setv(S, ii, mkIte(mkCmp(ULT, a, b), mkConst(0, a->w), mkBin(SUB, a, b))); break; }
	case Intrinsic::uadd_sat: { E a = A(0), b = A(1), s = mkBin(ADD, a, b); setv(S, ii, mkIte(mkCmp(ULT, s, a), mkConst(~0ULL, a->w), s)); break; }
	case Intrinsic::uadd_with_overflow: { E a = A(0), b = A(1), s = mkBin(ADD, a, b); unsigned k = S.st.back().fi->slot[ii]; S.st.back().regs[k] = s; S.st.back().regs[k + 1] = mkCmp(ULT, s, a); break; }
	case Intrinsic::usub_with_overflow: { E a = A(0), b = A(1); unsigned k = S.st.back().fi->slot[ii]; S.st.back().regs[k] = mkBin(SUB, a, b); S.st.back().regs[k + 1] = mkCmp(ULT, a, b); break; }
	case Intrinsic::umul_with_overflow: { E a = A(0), b = A(1); unsigned w = a->w; unsigned k = S.st.back().fi->slot[ii]; E p = mkBin(MUL, a, b); S.st.back().regs[k] = p;
		E ov; if(isC(b)) ov = b->val ? mkCmp(ULT, mkConst(maskw(w) / b->val, w), a) : mkFalse(); else if(isC(a)) ov = a->val ? mkCmp(ULT, mkConst(maskw(w) / a->val, w), b) : mkFalse(); else ov = mkAnd(mkNot(mkCmp(EQ, a, mkConst(0, w))), mkNot(mkCmp(EQ, mkBin(UDIV, p, a), b)));
		S.st.back().regs[k + 1] = ov; break; }
	case Intrinsic::fshl: case Intrinsic::fshr: { E a = A(0), b = A(1), c = A(2); if(not isC(c)) throw EngineErr{"symbolic funnel shift"}; unsigned w = a->w, k = c->val % w; bool l = ii->getIntrinsicID() == Intrinsic::fshl;
		E r = k == 0 ? (l ? a : b) : l ? mkBin(OR, mkBin(SHL, a, mkConst(k, w)), mkBin(LSHR, b, mkConst(w - k, w))) : mkBin(OR, mkBin(SHL, a, mkConst(w - k, w)), mkBin(LSHR, b, mkConst(k, w))); setv(S, ii, r); break; }
	case Intrinsic::bswap: { E a = A(0); E r = byteOf(a, 0); for(unsigned i = 1; i < a->w / 8; i++) r = mkConcat(r, byteOf(a, i)); setv(S, ii, r); break; }
	case Intrinsic::ctpop: { E a = A(0); E r = mkConst(0, a->w); for(unsigned i = 0; i < a->w; i++) r = mkBin(ADD, r, mkZext(mkExtract(a, i, 1), a->w)); setv(S, ii, r); break; }
	case Intrinsic::ctlz: { E a = A(0); E r = mkConst(a->w, a->w); for(unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); setv(S, ii, r); break; }
	case Intrinsic::cttz: { E a = A(0); E r = mkConst(a->w, a->w); for(unsigned i = a->w; i-- > 0; ) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); setv(S, ii, r); break; }
	case Intrinsic::fabs: { E a = A(0); if(a->op == RCONST) setv(S, ii, mkReal(fabsl(a->rval))); else setv(S, ii, mkIte(mkRCmp(RLT, a, mkReal(0)), mkR(RSUB, mkReal(0), a, 80), a)); break; }
	case Intrinsic::is_fpclass: { E a = A(0); unsigned mask = cast<ConstantInt>(ii->getArgOperand(1))->getZExtValue(); if(a->op == RCONST) { unsigned cl = std::isnan(a->rval) ? 3 : std::isinf(a->rval) ? (a->rval < 0 ? 4 : 512) : a->rval == 0 ? (std::signbit(a->rval) ? 32 : 64) : a->rval < 0 ? 8 : 256; setv(S, ii, mkConst((mask & cl) != 0, 1)); }
		else { unsigned fin = mask & 0x1f8; E r; if(fin == 0) r = mkFalse(); else if(fin == 0x1f8) r = mkTrue(); else throw EngineErr{"fpclass"}; setv(S, ii, r); } break; }
	case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::fma: case Intrinsic::exp2: case Intrinsic::log2: {
		E a = A(0); if(a->op == RCONST and ii->arg_size() == 1) { long double v = a->rval; switch(ii->getIntrinsicID()) { case Intrinsic::floor: v = floorl(v); break; case Intrinsic::trunc: v = truncl(v); break; case Intrinsic::ceil: v = ceill(v); break; case Intrinsic::round: v = roundl(v); break; case Intrinsic::sqrt: v = sqrtl(v); break; case Intrinsic::exp: v = expl(v); break; case Intrinsic::log: v = logl(v); break; default: v = rintl(v); } setv(S, ii, mkReal(v)); break; }
		if(ii->getIntrinsicID() == Intrinsic::trunc) { setv(S, ii, mkI2R(mkR2I(a, 64, true), true)); break; }
		std::vector<E> args; for(unsigned i = 0; i < ii->arg_size(); i++) args.push_back(A(i)); { std::string fnm = ii->getCalledFunction()->getName().str(); fnm = fnm.substr(5, fnm.find('.', 5) - 5); E u = mkUF(fnm, args, 0); realAxioms(S, fnm, args, u); setv(S, ii, u); } break; }
	case Intrinsic::maxnum: { E a = A(0), b = A(1); setv(S, ii, mkIte(mkRCmp(RLT, a, b), b, a)); break; }
	case Intrinsic::minnum: { E a = A(0), b = A(1); setv(S, ii, mkIte(mkRCmp(RLT, b, a), b, a)); break; }
	case Intrinsic::is_constant: setv(S, ii, mkFalse()); break;
	case Intrinsic::objectsize: setv(S, ii, mkConst(~0ULL, tw(ii->getType()))); break;
	case Intrinsic::trap: case Intrinsic::ubsantrap: prove(S, mkFalse(), "abort", "trap"); throw PathEnd{"trap"};
	case Intrinsic::threadlocal_address: setv(S, ii, A(0)); break;
	case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { E a = A(0), b = A(1); unsigned w = a->w; if(w > 32) throw EngineErr{"signed overflow intrinsic 64"}; unsigned k = S.st.back().fi->slot[ii]; Op op = ii->getIntrinsicID() == Intrinsic::smul_with_overflow ? MUL : ii->getIntrinsicID() == Intrinsic::sadd_with_overflow ? ADD : SUB; E r = mkBin(op, mkSext(a, 2 * w), mkSext(b, 2 * w)); E t = mkExtract(r, 0, w); S.st.back().regs[k] = t; S.st.back().regs[k + 1] = mkNot(mkCmp(EQ, mkSext(t, 2 * w), r)); break; }
	default: throw EngineErr{"intrinsic " + ii->getCalledFunction()->getName().str()};
	}
	advance(S);
	return true;
}

static E allocHeap(State &S, E size, const std::string &nm, Init init)
{
	if(not isC(size)) { E ok = mkCmp(ULE, size, mkConst(MAX_OBJ, 64)); if(not assume(S, ok)) throw PathEnd{"bad_alloc"}; }
	else if(size->val > MAX_OBJ) throw PathEnd{"bad_alloc"};
	uint32_t id = isC(size) ? newObj(S, nm, size->val, nullptr, init) : newObj(S, nm, 0, size, init);
	S.mem[id]->heap = true;
	return mkConst(baseOf(id), 64);
}

static E memcmpE(State &S, E p, E q, E n, bool eqOnly)
{
	if(not isC(n)) { uint64_t k = concretize(S, n, "memcmp length", CFG(S, "memcmp_max", 40)); n = mkConst(k, 64); }
	uint64_t len = n->val;
	if(len == 0) return mkConst(0, 32);
	PRes a = resolve(S, p, "memcmp"), b = resolve(S, q, "memcmp");
	checkAccess(S, a, n, "memcmp", false); checkAccess(S, b, n, "memcmp", false);
	E r = mkConst(0, 32);
	for(uint64_t i = len; i-- > 0; ) {
		E x = loadBytes(S, a.id, mkBin(ADD, a.off, mkConst(i, 64)), 1, false, nullptr), y = loadBytes(S, b.id, mkBin(ADD, b.off, mkConst(i, 64)), 1, false, nullptr);
		E ne = mkNot(mkCmp(EQ, x, y));
		r = mkIte(ne, eqOnly ? mkConst(1, 32) : mkBin(SUB, mkZext(x, 32), mkZext(y, 32)), r);
	}
	return r;
}

static std::vector<std::regex> &abortOk() { static auto *v = new std::vector<std::regex>(); return *v; }

static bool handleExternal(State &S, CallBase *cb, Function *fn, const std::string &n, std::vector<E> &a, std::vector<E> &rv)
{
	// --- specification primitives
	if(n.compare(0, 2, "v_") == 0) {
		if(n == "v_nd") { unsigned w = concretize(S, a[1], "width", 1); std::string nm = cstr(S, a[0]); E v = freshVar(nm, w); S.nd.push_back({nm, 'u', v, 0}); rv.push_back(mkZext(v, 64)); return true; }
		if(n == "v_real") { std::string nm = cstr(S, a[0]); E v = mkRVar(nm + "!" + std::to_string(g_fresh++)); S.nd.push_back({nm, 'r', v, 0}); rv.push_back(v); return true; }
		if(n == "v_assume") { E c = a[0]; if(c->w != 1) c = mkNot(mkCmp(EQ, c, mkConst(0, c->w))); if(not assume(S, c)) throw PathEnd{"assume"}; return true; }
		if(n == "v_assert") { E c = a[0]; if(c->w != 1) c = mkNot(mkCmp(EQ, c, mkConst(0, c->w))); prove(S, c, "assert", cstr(S, a[1])); return true; }
		if(n == "v_bytes" or n == "v_words") { std::string nm = cstr(S, a[1]); E sz = a[0]; if(not isC(sz)) { if(not assume(S, mkCmp(ULE, sz, mkConst(MAX_OBJ, 64)))) throw PathEnd{"assume"}; }
			uint32_t id = newObj(S, nm, 0, sz, I_UNDEF); Obj *o = S.mem[id].get(); o->heap = true; o->chained = true; if(isC(sz)) { o->csize = sz->val; o->ssize = nullptr; } o->chain = std::make_shared<Chain>(); o->chain->t = Chain::BASE; o->chain->arr = mkArr(nm + "!" + std::to_string(g_fresh++), n == "v_words" ? 64 : 8); S.nd.push_back({nm, 'b', sz, o->chain->arr}); rv.push_back(mkConst(baseOf(id), 64)); return true; }
		if(n == "v_havoc") { uint64_t k = concretize(S, a[1], "havoc size", 1); std::string nm = cstr(S, a[2]); PRes r = resolve(S, a[0], "havoc"); checkAccess(S, r, mkConst(k, 64), "havoc", true); uint32_t arr = mkArr(nm + "!" + std::to_string(g_fresh++)); for(uint64_t i = 0; i < k; i++) storeBytes(S, r.id, mkBin(ADD, r.off, mkConst(i, 64)), 1, mkSelect(arr, mkConst(i, 64))); S.nd.push_back({nm, 'b', mkConst(k, 64), arr}); return true; }
		if(n == "v_choose") { uint64_t k = concretize(S, a[0], "choose", 1); std::string nm = cstr(S, a[1]);
			if(k == 0) throw PathEnd{"assume"};
			for(uint64_t i = 1; i < k; i++) { StateP ns(new State(S)); E v = mkConst(i, 64); ns->nd.push_back({nm, 'c', v, 0}); setv(*ns, cb, v); advance(*ns); WL->push_back(std::move(ns)); }
			E v = mkConst(0, 64); S.nd.push_back({nm, 'c', v, 0}); setv(S, cb, v); advance(S);
			if(k > 1) { g_noSpawn = g_noSpawn; if(not g_dry and SH->active.load() < g_maxprocs) { StateP self(new State(S)); WL->push_back(std::move(self)); maybeSpawn(); throw PathEnd{"requeue"}; } }
			throw PathEnd{"continue"}; }
		if(n == "v_cover") { if(not g_dry) g_covers[cstr(S, a[0])]++; return true; }
		if(n == "v_engine") { rv.push_back(mkConst(1, 32)); return true; }
		if(n == "v_cfg") { S.cfg[cstr(S, a[0])] = (int64_t)concretize(S, a[1], "cfg", 1); return true; }
		if(n == "v_concrete") { rv.push_back(mkConst(concretize(S, a[0], "v_concrete", CFG(S, "conc_max", 300)), 64)); return true; }
		if(n == "v_note") { S.notes.push_back(cstr(S, a[0]) + "=" + toStr(a[1], 6)); return true; }
		if(n == "v_print") { fprintf(stderr, "[v_print] %s %s\n", cstr(S, a[0]).c_str(), toStr(a[1], 12).c_str()); return true; }
		if(n == "v_freed") { bool fr = true; if(isC(a[0])) { Obj *o = getObj(S, a[0]->val >> ADDR_SHIFT); fr = (not o) or o->freed; } rv.push_back(mkConst(fr, 32)); return true; }
		if(n == "v_objsize") { PRes r = resolve(S, a[0], "objsize"); rv.push_back(getObj(S, r.id)->sizeE()); return true; }
		if(n == "v_uf") { std::string nm = cstr(S, a[0]); E e = mkUF(nm, {a[1], a[2]}, 64); E v = freshVar("uf_" + nm, 64); addPC(S, mkCmp(EQ, v, e)); S.nd.push_back({"uf_" + nm, 'u', v, 0}); S.model.reset(); rv.push_back(v); return true; }
		if(n == "v_must") { E c = a[0]; if(c->w != 1) c = mkNot(mkCmp(EQ, c, mkConst(0, c->w))); rv.push_back(mkConst(mustTrue(S, c), 32)); return true; }
		if(n == "v_stop") { throw PathEnd{"stop"}; }
		if(n == "v_abort_ok") { S.cfg["abort_ok"] = (int64_t)concretize(S, a[0], "abort_ok", 1); return true; }
		if(n == "v_live_heap") { long k = 0; for(auto &o : S.mem) if(o and o->heap and not o->freed) k++; rv.push_back(mkConst(k, 64)); return true; }
		if(n == "v_assumed") { if(not g_dry) g_assumed[cstr(S, a[0])]++; return true; }
		return false;
	}
	// --- memory
	if(n == "_Znwm" or n == "_Znam" or n == "malloc" or n == "_ZnwmSt11align_val_t" or n == "_ZnwmRKSt9nothrow_t" or n == "_ZnamRKSt9nothrow_t") { rv.push_back(allocHeap(S, a[0], "heap", I_UNDEF)); return true; }
	if(n == "calloc") { rv.push_back(allocHeap(S, mkBin(MUL, a[0], a[1]), "heap", I_ZERO)); return true; }
	if(n == "_ZdlPv" or n == "_ZdlPvm" or n == "_ZdaPv" or n == "_ZdaPvm" or n == "free" or n == "_ZdlPvSt11align_val_t" or n == "_ZdlPvmSt11align_val_t") {
		if(isC(a[0]) and a[0]->val == 0) return true;
		if(not isC(a[0])) { E z = mkCmp(EQ, a[0], mkConst(0, 64)); int d = decide(&S, z); if(d == 1) return true; if(d == -1) throw ForkRetry{{z, mkNot(z)}}; }
		PRes r = resolve(S, a[0], "delete");
		Obj *o = getObjW(S, r.id);
		if(o->freed) prove(S, mkFalse(), "mem", "double free");
		if(not o->heap) prove(S, mkFalse(), "mem", "free of non-heap memory");
		if(not isC(r.off) or r.off->val) prove(S, mkCmp(EQ, r.off, mkConst(0, 64)), "mem", "free of interior pointer");
		o->freed = true; o->cells.clear(); o->chain.reset(); if(o->chained) { o->chain = std::make_shared<Chain>(); o->chain->t = Chain::BASE; o->chain->constBase = true; }
		return true; }
	if(n == "memcpy" or n == "memmove") { doCopy(S, a[0], a[1], a[2]); rv.push_back(a[0]); return true; }
	if(n == "memset") { doFill(S, a[0], mkExtract(a[1], 0, 8), a[2]); rv.push_back(a[0]); return true; }
	if(n == "memcmp" or n == "bcmp") { rv.push_back(memcmpE(S, a[0], a[1], a[2], n == "bcmp")); return true; }
	if(n == "strlen") {
		E r = mkConst(0, 64);
		for(uint64_t i = 0; ; i++) { PRes q = resolve(S, mkBin(ADD, a[0], mkConst(i, 64)), "strlen"); checkAccess(S, q, mkConst(1, 64), "strlen", false); E b = loadBytes(S, q.id, q.off, 1, false, nullptr); if(not isC(b)) { E z = mkCmp(EQ, b, mkConst(0, 8)); int d = decide(&S, z); if(d == -1) throw ForkRetry{{z, mkNot(z)}}; if(d == 1) { r = mkConst(i, 64); break; } } else if(b->val == 0) { r = mkConst(i, 64); break; } if(i > (uint64_t)CFG(S, "strlen_max", 4096)) { g_bounds["strlen"]++; throw PathEnd{"bound"}; } }
		rv.push_back(r); return true; }
	// --- process / aborts
	if(n == "abort" or n == "__assert_fail" or n == "__cxa_pure_virtual" or n == "_ZSt9terminatev" or n.compare(0, 10, "_ZSt17__th") == 0 or n.compare(0, 5, "_ZSt2") == 0 and n.find("__throw") != std::string::npos or n.find("__throw_") != std::string::npos or n == "__cxa_throw" or n == "exit" or n == "_exit") {
		std::string what = n;
		if(n == "__assert_fail") what = "assert(" + cstr(S, a[0]) + ")";
		if(CFG(S, "abort_ok", 0)) throw PathEnd{"abort-ok"};
		prove(S, mkFalse(), "abort", what); throw PathEnd{"abort"}; }
	if(n == "__cxa_guard_acquire") { PRes r = resolve(S, a[0], "guard"); E b = loadBytes(S, r.id, r.off, 1, false, nullptr); rv.push_back(mkIte(mkCmp(EQ, b, mkConst(0, 8)), mkConst(1, 32), mkConst(0, 32))); return true; }
	if(n == "__cxa_guard_release") { PRes r = resolve(S, a[0], "guard"); storeBytes(S, r.id, r.off, 1, mkConst(1, 8)); return true; }
	if(n == "__cxa_atexit" or n == "atexit") { rv.push_back(mkConst(0, 32)); return true; }
	if(n.compare(0, 8, "pthread_") == 0 or n.compare(0, 10, "__pthread_") == 0) { if(not g_dry) g_assumed["pthread primitives succeed (" + n + ")"]++; if(not fn->getReturnType()->isVoidTy()) rv.push_back(mkConst(0, tw(fn->getReturnType()))); return true; }
	if(n == "printf" or n == "puts" or n == "putchar" or n == "fprintf" or n == "fflush" or n == "fputs" or n == "fputc" or n == "fwrite" or n == "putc") { if(not fn->getReturnType()->isVoidTy()) rv.push_back(mkConst(0, tw(fn->getReturnType()))); return true; }
	if(n == "snprintf" or n == "sprintf") { // output text havocked: single fresh character string
		PRes r = resolve(S, a[0], "snprintf"); E lim = n == "snprintf" ? a[1] : mkConst(2, 64); if(isC(lim) and lim->val >= 2) { checkAccess(S, r, lim, "snprintf", true); storeBytes(S, r.id, r.off, 1, freshVar("snprintf", 8)); storeBytes(S, r.id, mkBin(ADD, r.off, mkConst(1, 64)), 1, mkConst(0, 8)); }
		if(not g_dry) g_assumed["snprintf output is arbitrary text"]++; rv.push_back(mkConst(1, 32)); return true; }
	if(n == "rand" or n == "random") { E v = freshVar(n, 31); S.nd.push_back({n, 'u', v, 0}); rv.push_back(mkZext(v, tw(fn->getReturnType()))); return true; }
	if(n == "close" or n == "write" or n == "read" or n == "pipe") { if(not g_dry) g_assumed["system call " + n + " arbitrary result"]++; rv.push_back(freshVar(n, tw(fn->getReturnType()))); return true; }
	if(n == "fabsl" or n == "fabs") { E x = a[0]; if(x->op == RCONST) rv.push_back(mkReal(fabsl(x->rval))); else rv.push_back(mkIte(mkRCmp(RLT, x, mkReal(0)), mkR(RSUB, mkReal(0), x, 80), x)); return true; }
	if(n == "modfl" or n == "modf") { E x = a[0]; long double ip; if(x->op == RCONST) { long double fr = modfl(x->rval, &ip); storeT(S, a[1], fn->getReturnType(), mkReal(ip)); rv.push_back(mkReal(fr)); } else { E i = mkI2R(mkR2I(x, 64, true), true); storeT(S, a[1], fn->getReturnType(), i); rv.push_back(mkR(RSUB, x, i, 80)); } return true; }
	static const std::set<std::string> lm = {"sqrtl","powl","logl","expl","log10l","log2l","exp2l","roundl","floorl","ceill","sqrt","pow","log","exp","floor","ceil","round","cbrtl","cbrt","truncl"};
	if(lm.count(n)) {
		if(a.size() == 1 and a[0]->op == RCONST) { long double x = a[0]->rval, r = 0; if(n[0] == 's') r = sqrtl(x); else if(n == "floorl" or n == "floor") r = floorl(x); else if(n == "ceill" or n == "ceil") r = ceill(x); else if(n == "roundl" or n == "round") r = roundl(x); else if(n == "truncl") r = truncl(x); else if(n == "cbrtl" or n == "cbrt") r = cbrtl(x); else if(n == "logl" or n == "log") r = logl(x); else if(n == "expl" or n == "exp") r = expl(x); else throw EngineErr{"libm " + n}; rv.push_back(mkReal(r)); return true; }
		if(n == "truncl") { rv.push_back(mkI2R(mkR2I(a[0], 64, true), true)); return true; }
		if(not g_dry) g_assumed["libm " + n + " uninterpreted"]++;
		{ E u = mkUF(n, a, 0); realAxioms(S, n, a, u); rv.push_back(u); } return true; }
	if(n.find("ios_base") != std::string::npos) { if(not fn->getReturnType()->isVoidTy()) throw EngineErr{"ios " + n}; return true; }
	return false;
}

// run one state until it ends
static void runState(StateP st)
{
	State *S = st.get();
	try {
		while(true) {
			try {
				while(true) {
					execInst(*S);
					if((S->steps & 0x3ff) == 0) {
						SH->steps += 0x400;
						if(now() > deadline() or SH->stop.load()) { if(not g_dry) g_errors["time budget exhausted"]++; throw PathEnd{"timeout"}; }
						if((int64_t)S->steps > CFG(*S, "maxsteps", 40000000)) throw EngineErr{"step limit"};
					}
				}
			} catch(ForkRetry &fr) {
				struct Alt { E first; std::shared_ptr<Model> second; bool unk; }; std::vector<Alt> ok;
				for(E c : fr.conds) { Model m; Res r = checkC(*S, c, &m); if(r == UNSAT) continue; ok.push_back({c, r == SAT and not S->unk ? std::make_shared<Model>(m) : nullptr, r == UNKNOWN}); }
				if(ok.empty()) throw PathEnd{"infeasible"};
				if(ok.size() > 1) { SH->forks++; int &n = S->st.back().forks[&*S->st.back().it]; if(++n > CFG(*S, "unroll", 24) * 20) { g_bounds["forking at " + locOf(*S)]++; throw PathEnd{"bound"}; } }
				for(size_t i = 1; i < ok.size(); i++) { StateP ns(new State(*S)); addPC(*ns, ok[i].first); ns->model = ok[i].second; if(ok[i].unk) ns->unk = true; WL->push_back(std::move(ns)); }
				addPC(*S, ok[0].first); S->model = ok[0].second; if(ok[0].unk) S->unk = true;
				if(ok.size() > 1 and not g_dry and not g_noSpawn and SH->active.load() < g_maxprocs) { WL->push_back(std::move(st)); S = nullptr; maybeSpawn(); throw PathEnd{"requeue"}; }
			} catch(PathEnd &pe) { if(pe.why == "continue") continue; throw; }
		}
	} catch(PathEnd &pe) {
		if(pe.why == "requeue") return;
		if(not g_dry) { g_ends[pe.why]++; SH->paths++; }
	} catch(EngineErr &ee) {
		if(g_dry) throw;
		g_errors[ee.why + " @" + (S ? locOf(*S) + " in " + (S->st.empty() ? std::string("?") : dem(S->st.back().f)) : std::string())]++;
	}
}

static void drain()
{
	while(not WL->empty()) {
		StateP s = std::move(WL->back()); WL->pop_back();
		runState(std::move(s));
		if(not g_dry and not g_noSpawn and WL->size() > 1 and SH->active.load() < g_maxprocs) maybeSpawn();
	}
}

#include "houdini.inc"
