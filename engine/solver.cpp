#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

SolverStats g_sstats;
unsigned g_rlimit = 60000000;
double (*g_timeLeft)() = nullptr;

static z3::context &ctx() { static z3::context *c = new z3::context(); return *c; }

struct LowerCache { std::unordered_map<E, z3::expr> m; };
static LowerCache &lc() { static LowerCache *l = new LowerCache(); return *l; }
static std::unordered_map<uint32_t, z3::expr> &varAst() { static auto *m = new std::unordered_map<uint32_t, z3::expr>(); return *m; }

static z3::expr realConst(long double v)
{
	// exact rational
	if(v == 0) return ctx().real_val(0);
	int ex; long double m = frexpl(v, &ex); // v = m * 2^ex, 0.5<=|m|<1
	m = ldexpl(m, 64); ex -= 64;
	bool neg = m < 0; unsigned long long mi = (unsigned long long)(neg ? -m : m);
	while(mi and not (mi & 1)) { mi >>= 1; ex++; }
	std::string s = std::to_string(mi);
	z3::expr r = ctx().real_val(s.c_str());
	if(neg) r = -r;
	if(ex) {
		// 2^|ex| as decimal string via z3 power on numerals
		z3::expr p = ctx().real_val(1);
		int k = ex < 0 ? -ex : ex;
		z3::expr base = ctx().real_val(2);
		// repeated multiply by simplify
		while(k > 0) { int step = std::min(k, 30); p = (p * ctx().real_val((int64_t)(1LL << step))).simplify(); k -= step; }
		r = (ex > 0 ? r * p : r / p).simplify();
	}
	return r.simplify();
}

static z3::expr lower(E e);
static z3::expr var(uint32_t id)
{
	auto &m = varAst();
	auto it = m.find(id);
	if(it != m.end()) return it->second;
	auto &vi = g_vars[id];
	std::string nm = "v" + std::to_string(id) + "_" + vi.name;
	z3::expr r(ctx());
	if(vi.isArr) r = ctx().constant(nm.c_str(), ctx().array_sort(ctx().bv_sort(64), ctx().bv_sort(vi.w)));
	else if(vi.isReal) r = ctx().real_const(nm.c_str());
	else if(vi.w == 1) r = ctx().bool_const(nm.c_str());
	else r = ctx().bv_const(nm.c_str(), vi.w);
	m.emplace(id, r);
	return r;
}
static z3::expr asBV(E e) { z3::expr r = lower(e); if(e->w == 1) return z3::ite(r, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); return r; }

static z3::expr lower1(E e)
{
	z3::context &c = ctx();
	auto L = [&](int i) { return lower(e->c[i]); };
	switch(e->op) {
	case CONST: if(e->w == 1) return c.bool_val(e->val != 0); return c.bv_val((uint64_t)e->val, e->w);
	case VAR: case RVAR: return var(e->val);
	case ADD: return L(0) + L(1);
	case SUB: return L(0) - L(1);
	case MUL: return L(0) * L(1);
	case UDIV: return z3::udiv(L(0), L(1));
	case SDIV: return L(0) / L(1);
	case UREM: return z3::urem(L(0), L(1));
	case SREM: return z3::srem(L(0), L(1));
	case AND: return e->w == 1 ? L(0) && L(1) : L(0) & L(1);
	case OR: return e->w == 1 ? L(0) || L(1) : L(0) | L(1);
	case XOR: if(e->w == 1) { if(isT(e->c[0])) return !L(1); return L(0) != L(1); } return L(0) ^ L(1);
	case SHL: return z3::shl(L(0), L(1));
	case LSHR: return z3::lshr(L(0), L(1));
	case ASHR: return z3::ashr(L(0), L(1));
	case CONCAT: return z3::concat(asBV(e->c[0]), asBV(e->c[1]));
	case EXTRACT: { z3::expr r = asBV(e->c[0]).extract(e->val + e->w - 1, e->val); if(e->w == 1) return r == c.bv_val(1, 1); return r; }
	case ZEXT: return z3::zext(asBV(e->c[0]), e->w - e->c[0]->w);
	case SEXT: return z3::sext(asBV(e->c[0]), e->w - e->c[0]->w);
	case EQ: return L(0) == L(1);
	case ULT: return z3::ult(L(0), L(1));
	case ULE: return z3::ule(L(0), L(1));
	case SLT: return L(0) < L(1);
	case SLE: return L(0) <= L(1);
	case ITE: return z3::ite(L(0), L(1), L(2));
	case SELECT: return z3::select(var(e->val), L(0));
	case RCONST: return realConst(e->rval);
	case RADD: return L(0) + L(1);
	case RSUB: return L(0) - L(1);
	case RMUL: return L(0) * L(1);
	case RDIV: return L(0) / L(1);
	case RLT: return L(0) < L(1);
	case RLE: return L(0) <= L(1);
	case REQ: return L(0) == L(1);
	case U2R: return z3::expr(c, Z3_mk_int2real(c, Z3_mk_bv2int(c, asBV(e->c[0]), false)));
	case S2R: return z3::expr(c, Z3_mk_int2real(c, Z3_mk_bv2int(c, asBV(e->c[0]), true)));
	case R2U: { z3::expr x = L(0); z3::expr i(c, Z3_mk_real2int(c, x)); return z3::int2bv(e->w, i); }
	case R2S: { z3::expr x = L(0); z3::expr f(c, Z3_mk_real2int(c, x)); z3::expr g(c, Z3_mk_real2int(c, -x)); return z3::int2bv(e->w, z3::ite(x >= 0, f, -g)); }
	case R2BITS: { z3::func_decl f = c.function("r2bits", c.real_sort(), c.bv_sort(64)); return f(L(0)); }
	case BITS2R: { z3::func_decl f = c.function("bits2r", c.bv_sort(64), c.real_sort()); return f(L(0)); }
	case UF: {
		std::vector<z3::sort> ss; z3::expr_vector args(c);
		for(int i = 0; i < e->nc; i++) { z3::expr x = L(i); ss.push_back(x.get_sort()); args.push_back(x); }
		z3::sort rs = e->w == 0 ? c.real_sort() : e->w == 1 ? c.bool_sort() : c.bv_sort(e->w);
		z3::func_decl f = c.function(("uf_" + g_ufs[e->val]).c_str(), ss.size(), ss.data(), rs);
		return f(args); }
	}
	abort();
}
static z3::expr lower(E e)
{
	auto &m = lc().m;
	auto it = m.find(e);
	if(it != m.end()) return it->second;
	// avoid deep recursion: process children iteratively
	std::vector<E> st{e};
	while(not st.empty()) {
		E x = st.back();
		if(m.count(x)) { st.pop_back(); continue; }
		bool ready = true;
		for(int i = 0; i < x->nc; i++) if(not m.count(x->c[i])) { st.push_back(x->c[i]); ready = false; }
		if(ready) { m.emplace(x, lower1(x)); st.pop_back(); }
	}
	return m.find(e)->second;
}

struct CacheEnt { Res r; Model m; };
static std::unordered_map<std::string, CacheEnt> &qcache() { static auto *m = new std::unordered_map<std::string, CacheEnt>(); return *m; }

static bool runCvc5(z3::solver &s, Res *out, int secs)
{
	char fn[64]; snprintf(fn, sizeof fn, "/tmp/irvc_q_%d.smt2", (int)getpid());
	FILE *f = fopen(fn, "w"); if(not f) return false;
	std::string q = s.to_smt2();
	fprintf(f, "(set-logic ALL)\n%s\n", q.c_str()); fclose(f);
	std::string cmd = "cvc5 --tlimit=" + std::to_string(secs * 1000) + " " + fn + " 2>/dev/null";
	FILE *p = popen(cmd.c_str(), "r"); char buf[256] = {0};
	if(p) { if(not fgets(buf, sizeof buf, p)) buf[0] = 0; pclose(p); }
	unlink(fn);
	g_sstats.cvc5++;
	if(0 == strncmp(buf, "unsat", 5)) { *out = UNSAT; return true; }
	return false;
}

static void getModel(z3::model &mm, const std::vector<uint32_t> &vars, Model *m)
{
	for(uint32_t id : vars) {
		if(id & 0x80000000u) continue;
		auto &vi = g_vars[id];
		z3::expr a = var(id);
		if(vi.isArr) {
			m->arr[id].clear(); m->arrDefault.erase(id);
			z3::expr v = mm.eval(a, true);
			// walk store chain / const array / as-array
			while(true) {
				if(v.is_app() and v.decl().decl_kind() == Z3_OP_STORE) {
					uint64_t i, x; if(v.arg(1).is_numeral_u64(i) and v.arg(2).is_numeral_u64(x)) { if(not m->arr[id].count(i)) m->arr[id][i] = x; }
					v = v.arg(0);
				} else if(v.is_app() and v.decl().decl_kind() == Z3_OP_CONST_ARRAY) { uint64_t x; if(v.arg(0).is_numeral_u64(x)) m->arrDefault[id] = x; break; }
				else if(v.is_app() and v.decl().decl_kind() == Z3_OP_AS_ARRAY) {
					z3::func_decl fd(ctx(), Z3_get_as_array_func_decl(ctx(), v));
					z3::func_interp fi = mm.get_func_interp(fd);
					for(unsigned i = 0; i < fi.num_entries(); i++) { uint64_t k, x; if(fi.entry(i).arg(0).is_numeral_u64(k) and fi.entry(i).value().is_numeral_u64(x)) m->arr[id][k] = x; }
					uint64_t x; if(fi.else_value().is_numeral_u64(x)) m->arrDefault[id] = x;
					break;
				} else break;
			}
		} else if(vi.isReal) {
			z3::expr v = mm.eval(a, true);
			long double r = 0;
			if(v.is_numeral()) {
				std::string n = Z3_get_numeral_string(ctx(), v);
				size_t sl = n.find('/');
				if(sl == std::string::npos) r = strtold(n.c_str(), 0); else r = strtold(n.substr(0, sl).c_str(), 0) / strtold(n.substr(sl + 1).c_str(), 0);
			} else { std::string d = v.get_decimal_string(25); r = strtold(d.c_str(), 0); }
			m->rvl[id] = r;
		} else if(vi.w == 1) { z3::expr v = mm.eval(a, true); m->v[id] = v.is_true(); }
		else { z3::expr v = mm.eval(a, true); uint64_t x = 0; v.is_numeral_u64(x); m->v[id] = x; }
	}
}

Res solverCheck(const std::vector<E> &pc, E cond, Model *m)
{
	if(isF(cond)) return UNSAT;
	// slice
	std::vector<uint32_t> vars = varsOf(cond);
	std::vector<char> used(pc.size(), 0);
	std::vector<E> slice;
	bool ch = not isC(cond);
	if(isT(cond)) { for(size_t i = 0; i < pc.size(); i++) { slice.push_back(pc[i]); std::vector<uint32_t> t; auto &cv = varsOf(pc[i]); std::set_union(vars.begin(), vars.end(), cv.begin(), cv.end(), std::back_inserter(t)); vars.swap(t); } }
	while(ch) {
		ch = false;
		for(size_t i = 0; i < pc.size(); i++) if(not used[i]) {
			auto &cv = varsOf(pc[i]);
			bool inter = false;
			std::vector<uint32_t>::const_iterator x = vars.begin(), y = cv.begin();
			while(x != (std::vector<uint32_t>::const_iterator)vars.end() and y != cv.end()) { if(*x < *y) ++x; else if(*y < *x) ++y; else { inter = true; break; } }
			if(inter) { used[i] = 1; ch = true; slice.push_back(pc[i]); std::vector<uint32_t> t; std::set_union(vars.begin(), vars.end(), cv.begin(), cv.end(), std::back_inserter(t)); vars.swap(t); }
		}
	}
	std::vector<uint32_t> ids; for(E e : slice) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.push_back(cond->id);
	std::string key((const char *)ids.data(), ids.size() * 4);
	auto &qc = qcache();
	auto it = qc.find(key);
	g_sstats.queries++;
	auto apply = [&](const Model &src) { if(m) { for(auto &p : src.v) m->v[p.first] = p.second; for(auto &p : src.arr) m->arr[p.first] = p.second; for(auto &p : src.arrDefault) m->arrDefault[p.first] = p.second; for(auto &p : src.rvl) m->rvl[p.first] = p.second; } };
	if(it != qc.end()) { g_sstats.cacheHits++; if(it->second.r == SAT) apply(it->second.m); return it->second.r; }
	auto t0 = std::chrono::steady_clock::now();
	bool real = cond->hasReal, arr = cond->hasArr; for(E e : slice) { real |= e->hasReal; arr |= e->hasArr; }
	Res r = UNKNOWN; CacheEnt ce;
	try {
		z3::check_result cr = z3::unknown;
		z3::solver s(ctx());
		// portfolio with growing resource limits: the same query can be trivial for one configuration and hard for another
		struct Att { int kind; unsigned div; int seed; };
		static const Att bvAtt[] = {{0, 60, 0}, {1, 60, 0}, {2, 40, 0}, {3, 5, 0}, {0, 20, 7}, {1, 10, 3}, {2, 5, 5}, {3, 30, 0}, {2, 1, 0}};
		static const Att realAtt[] = {{1, 20, 0}, {3, 5, 0}, {0, 10, 3}, {1, 4, 5}, {4, 4, 0}, {3, 30, 0}, {1, 1, 0}};
		const Att *at = real ? realAtt : bvAtt; int na = real ? 7 : 9;
		bool done = false;
		for(int i = 0; i < na and not done; i++) {
			double left = g_timeLeft ? g_timeLeft() : 1e9; if(left < 1) break;
			if(at[i].kind == 3) { Res o; if(runCvc5(s, &o, (int)std::min<double>(at[i].div, left + 1))) { r = o; done = true; } continue; }
			if(at[i].kind == 0) s = z3::solver(ctx(), z3::solver::simple());
			else if(at[i].kind == 1) s = z3::solver(ctx());
			else if(at[i].kind == 4) s = z3::tactic(ctx(), "qfnra-nlsat").mk_solver();
			else s = z3::solver(ctx(), arr ? "QF_ABV" : "QF_BV");
			z3::params p(ctx()); p.set("rlimit", g_rlimit / at[i].div); p.set("timeout", (unsigned)std::min<double>(120000u / (at[i].div > 20 ? 10 : at[i].div > 4 ? 4 : 1), 1000 * left)); if(at[i].seed and at[i].kind != 4) p.set("random_seed", (unsigned)at[i].seed);
			try { s.set(p); for(E e : slice) s.add(lower(e)); s.add(lower(cond)); cr = s.check(); } catch(z3::exception &) { cr = z3::unknown; continue; }
			if(cr == z3::unsat) { r = UNSAT; done = true; }
			else if(cr == z3::sat) { r = SAT; z3::model mm = s.get_model(); getModel(mm, vars, &ce.m); done = true; }
		}
		if(getenv("IRVC_DUMP")) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if(dt > atof(getenv("IRVC_DUMP"))) { static int n = 0; char fn[100]; snprintf(fn, sizeof fn, "/tmp/irvc_slow_%d_%d.smt2", (int)getpid(), n++); FILE *f = fopen(fn, "w"); fprintf(f, "; %f s res %d\n%s", dt, r, s.to_smt2().c_str()); fclose(f); } }
	} catch(z3::exception &ex) { fprintf(stderr, "z3 exception: %s\n", ex.msg()); r = UNKNOWN; }
	g_sstats.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	if(r == UNKNOWN) g_sstats.unknowns++;
	ce.r = r;
	if(r == SAT) apply(ce.m);
	qc.emplace(key, std::move(ce));
	return r;
}
