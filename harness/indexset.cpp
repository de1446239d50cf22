// contracts for Range / IndexSet.  Pre-state: an arbitrary canonical set of at most KMAX ranges with arbitrary 64-bit bounds.
#include "common.hpp"
#include "src/Object.cpp"
#include "src/IndexSet.cpp"
using namespace com::zenomt;
#ifdef V_THOROUGH
#define KMAX 4
#define SETS_S 2
#define SETS_O 2
#else
#define KMAX 3
#define SETS_S 1
#define SETS_O 2
#endif
static size_t build(IndexSet &s, uint64_t *f, uint64_t *t, size_t kmax = KMAX) {
	size_t k = v_choose(kmax + 1, "ranges");
	for(size_t i = 0; i < k; i++) {
		f[i] = nd64("from"); t[i] = nd64("to"); v_assume(f[i] <= t[i]);
		if(i) v_assume(f[i] > t[i - 1] and f[i] - t[i - 1] > 1);
		s.m_ranges.push_back(Range(f[i], t[i]));
	}
	return k;
}
static bool in(const uint64_t *f, const uint64_t *t, size_t k, uint64_t x) { bool r = false; for(size_t i = 0; i < k; i++) r |= (x >= f[i]) & (x <= t[i]); return r; }
static void canonical(IndexSet &s) {
	bool first = true; uint64_t pe = 0; size_t n = 0;
	for(auto &r : s.m_ranges) { v_assert(r.start <= r.end, "ranges are well formed"); if(not first) v_assert(r.start > pe and r.start - pe > 1, "ranges are sorted, disjoint and not adjacent"); pe = r.end; first = false; n++; }
	v_assert(n == s.countRanges(), "range count"); v_assert(s.empty() == (n == 0), "empty");
}
static bool model(IndexSet &s, uint64_t x) { bool r = false; for(auto &e : s.m_ranges) r |= (x >= e.start) & (x <= e.end); return r; }

ENTRY b_P04_add() {
	IndexSet s; uint64_t f[KMAX], t[KMAX]; size_t k = build(s, f, t);
	uint64_t a = nd64("a"), b = nd64("b"), x = nd64("x");
	v_cover("add");
	if(ndb("single")) { v_assume(a == b); s.add(a); } else s.add(a, b);
	canonical(s);
	v_assert(model(s, x) == (in(f, t, k, x) or (a <= x and x <= b)), "add: membership afterwards is the union");
}
ENTRY b_P04_remove() {
	IndexSet s; uint64_t f[KMAX], t[KMAX]; size_t k = build(s, f, t);
	uint64_t a = nd64("a"), b = nd64("b"), x = nd64("x");
	v_cover("remove");
	if(ndb("single")) { v_assume(a == b); s.remove(a); } else s.remove(a, b);
	canonical(s);
	v_assert(model(s, x) == (in(f, t, k, x) and not (a <= x and x <= b)), "remove: membership afterwards is the difference");
}
ENTRY b_P04_query() {
	IndexSet s; uint64_t f[KMAX], t[KMAX]; size_t k = build(s, f, t); uint64_t x = nd64("x");
	v_cover("query");
	v_assert(s.contains(x) == in(f, t, k, x), "contains is membership");
	v_assert(s.empty() == (k == 0) and s.countRanges() == k, "empty and countRanges");
	uint64_t sz = 0; bool ov = false; for(size_t i = 0; i < k; i++) { uint64_t n = t[i] - f[i] + 1; if(n == 0) { ov = true; n = UINT64_MAX; } sz += n; }
	v_assert(s.size() == sz, "size is the number of members");
	v_assert(s.lowestIndex() == (k ? f[0] : 0) and s.highestIndex() == (k ? t[k - 1] : 0), "lowest and highest");
	if(k) { v_assert(s.firstRange().start == f[0] and s.firstRange().end == t[0], "firstRange"); v_assert(s.lastRange().start == f[k - 1] and s.lastRange().end == t[k - 1], "lastRange"); }
	else v_assert(s.firstRange().start == 0 and s.firstRange().end == 0 and s.lastRange().end == 0, "ranges of the empty set");
	size_t i = 0; bool okv = true; size_t stop = nd64("stop");
	bool r = s.extentsDo([&](uintmax_t a, uintmax_t b) { okv = okv and i < k and a == f[i] and b == t[i]; i++; return i != stop; });
	v_assert(okv and r == (stop == 0 or stop > k) and i == (r ? k : stop), "extentsDo visits the ranges in order until told to stop");
	IndexSet c(s); canonical(c); v_assert(model(c, x) == in(f, t, k, x), "copy has the same members");
	c.clear(); v_assert(c.empty() and not c.contains(x) and s.contains(x) == in(f, t, k, x), "clear empties only the copy");
}
ENTRY b_P04_indicesDo() {
	IndexSet s; uint64_t f[2], t[2]; size_t k = build(s, f, t, 2);
	for(size_t i = 0; i < k; i++) v_assume(t[i] - f[i] < 3);
	uint64_t got[8]; size_t n = 0; size_t stop = nd8("stop");
	v_cover("indicesDo");
	bool r = s.indicesDo([&](uintmax_t x) { v_assert(n < 8, "indicesDo terminates after the last member"); got[n++] = x; return n != stop; });
	size_t e = 0; bool ok = true;
	for(size_t i = 0; i < k; i++) for(uint64_t d = 0; d <= t[i] - f[i]; d++) { if(e < n) ok = ok and got[e] == f[i] + d; e++; }
	v_assert(ok and n <= e, "indicesDo visits the members in ascending order");
	v_assert(r == (n == e and stop != e) or e == 0, "indicesDo result"); v_assert(n == e or n == stop, "indicesDo visits every member unless stopped");
}
ENTRY b_P04_sets() {
	IndexSet s, o; uint64_t f[2], t[2], g[2], u[2]; size_t k = build(s, f, t, SETS_S), m = build(o, g, u, SETS_O); uint64_t x = nd64("x");
	bool rem = ndb("remove"); v_cover("sets");
	if(rem) s.remove(o); else s.add(o);
	canonical(s); canonical(o);
	v_assert(model(s, x) == (rem ? in(f, t, k, x) and not in(g, u, m, x) : in(f, t, k, x) or in(g, u, m, x)), "set union / difference");
	v_assert(model(o, x) == in(g, u, m, x), "argument unchanged");
}
ENTRY b_P04_self() {
	IndexSet s; uint64_t f[2], t[2]; size_t k = build(s, f, t, 2); uint64_t x = nd64("x"); v_cover("self");
	if(ndb("remove")) { s.remove(s); v_assert(s.empty() and not model(s, x), "removing a set from itself leaves it empty"); }
	else { s.add(s); canonical(s); v_assert(model(s, x) == in(f, t, k, x), "adding a set to itself changes nothing"); }
}
ENTRY h_P04_range() {
	uint64_t a = nd64("a"), b = nd64("b"), c = nd64("c"), d = nd64("d"), x = nd64("x"); v_assume(a <= b and c <= d); v_cover("range");
	Range r(a, b), q(c, d);
	v_assert(r.intersects(q) == (c <= b and d >= a) and r.intersects(c, d) == r.intersects(q), "intersects");
	v_assert(r.contains(q) == (c >= a and d <= b) and r.contains(x) == (a <= x and x <= b), "contains");
	bool adj = (c <= b and d >= a) or (b != UINT64_MAX and b + 1 == c) or (d != UINT64_MAX and d + 1 == a);
	v_assert(r.contiguousWith(q) == adj, "contiguous means overlapping or adjacent");
	uint64_t sz = b - a + 1; v_assert(r.size() == (sz ? sz : UINT64_MAX), "size, saturated for the full range");
	r.extend(q); v_assert(r.start == (a < c ? a : c) and r.end == (b > d ? b : d), "extend is the convex hull");
	Range z; v_assert(z.start == 0 and z.end == 0, "default range");
}
