// contracts for List / SumList over an arbitrary well-formed node table of any size (local-invariant style):
// the doubly linked ring invariant is assumed at every node an operation may touch and at an arbitrary probe
// node, and re-established at the probe; link changes are specified exactly, so element order is determined.
#include "common.hpp"
#include "src/Object.cpp"
#include "include/rtmfp/List.hpp"
using namespace com::zenomt;
typedef List<uint64_t> L;
typedef L::Node Node;
// ghost: position of every node in its ring (sentinel and free-list head are 0), so that no used node is outside the list
struct Pre { L l; size_t n; Node *nodes; size_t sz; uint64_t *rank, *at; };
static bool okRank(const Node *N, const uint64_t *R, long i) { long a = N[i].m_next; return (R[i] < 1 << 21) & ((a <= 1) | (R[a] == R[i] + 1)) & ((i > 1) == (R[i] > 0)); }
static bool inr(Pre &p, long i) { return i >= 0 and (size_t)i < p.n; }
// invariant at node i: links stay inside the table, are mutually inverse, and free/used nodes are in different rings
static bool inTab(const Node *N, size_t n, long i) { return ((unsigned long)N[i].m_next < n) & ((unsigned long)N[i].m_prev < n); }
static bool linked(const Node *N, long i) { long a = N[i].m_next, b = N[i].m_prev; return (N[a].m_prev == i) & (N[b].m_next == i) & (N[a].m_inUse == N[i].m_inUse) & (N[b].m_inUse == N[i].m_inUse); }
static uint8_t rawUse(const Node *N, long i) { return *(uint8_t *)&N[i].m_inUse; }
static void assumeAt(Pre &p, long i) {
	v_assume(inr(p, i)); v_assume(inTab(p.nodes, p.n, i));
	v_assume((rawUse(p.nodes, i) <= 1) & (rawUse(p.nodes, p.nodes[i].m_next) <= 1) & (rawUse(p.nodes, p.nodes[i].m_prev) <= 1));
	v_assume(linked(p.nodes, i)); v_assume(okRank(p.nodes, p.rank, i)); if(p.nodes[i].m_inUse) { v_assume(p.rank[i] <= p.sz); v_assume(p.at[p.rank[i]] == (uint64_t)i); }
}
static void pre(Pre &p, size_t fixed = 0) {
	if(fixed) p.n = fixed; else { p.n = nd64("nodes"); v_assume(p.n >= 16 and p.n <= 1 << 20); }
	p.nodes = (Node *)v_words(p.n * sizeof(Node), "table"); p.rank = (uint64_t *)v_words(p.n * 8, "rank"); p.at = (uint64_t *)v_words(p.n * 8, "nodeAt");
	std::vector<Node> dead; dead.swap(p.l.m_nodes);
	v_setvec(p.l.m_nodes, p.nodes, p.n, p.n);
	p.sz = nd64("size"); v_assume(p.sz < p.n); p.l.m_size = p.sz;
	assumeAt(p, 0); assumeAt(p, 1); v_assume(p.nodes[0].m_inUse and not p.nodes[1].m_inUse);
	v_assume(p.rank[p.nodes[0].m_prev] == p.sz); // the last element's position is the number of elements
	assumeAt(p, p.nodes[0].m_prev);
}
// the name under operation plus its neighbourhood
static long pick(Pre &p, const char *nm) { long x = (long)nd64(nm); if(inr(p, x)) { assumeAt(p, x); assumeAt(p, p.nodes[x].m_next); assumeAt(p, p.nodes[x].m_prev); } return x; }
struct Probe { long j, next, prev; uint64_t val; bool used; };
static Probe probe(Pre &p) { Probe q; q.j = (long)nd64("probe"); assumeAt(p, q.j); q.next = p.nodes[q.j].m_next; q.prev = p.nodes[q.j].m_prev; q.val = p.nodes[q.j].m_val; q.used = p.nodes[q.j].m_inUse; return q; }
static void check(Pre &p, long j) { Node *N = p.l.m_nodes.data(); size_t n = p.l.m_nodes.size(); v_assert((n >= p.n) & ((size_t)j < n), "table never shrinks"); v_assert(inTab(N, n, j), "links stay inside the table"); v_assert(linked(N, j), "links are mutually inverse and used/free nodes stay in separate rings"); v_assert(N[0].m_inUse and not N[1].m_inUse, "sentinel and free list heads keep their roles"); }

static void insert(bool after, bool full) {
	Pre p; pre(p, full ? 16 : 0);
	long fn = p.nodes[1].m_next;
	if(full) v_assume(fn == 1 and p.nodes[1].m_prev == 1); else { v_assume(fn != 1); assumeAt(p, fn); assumeAt(p, p.nodes[fn].m_next); }
	if(full) v_cfg("unroll", 64);
	long name = pick(p, "name"); Probe q = probe(p); uint64_t val = nd64("val");
	v_assume((unsigned long)name < p.n); v_assume(p.nodes[name].m_inUse);
	long on = p.nodes[name].m_next, op = p.nodes[name].m_prev;
	v_cover(full ? "grow" : "insert");
	long r;
	if(ndb("shorthand")) { v_assume(name == 0); r = after ? p.l.prepend(val) : p.l.append(val); }
	else r = after ? p.l.addAfter(val, name) : p.l.addBefore(val, name);
	Node *N = p.l.m_nodes.data();
	v_assert(r > 1 and (size_t)r < p.l.m_nodes.size(), "a fresh name in the table");
	v_assert(full ? (size_t)r >= p.n : r == fn, "the name was free");
	v_assert(N[r].m_inUse and p.l.has(r) and p.l.at(r) == val, "value stored under its name");
	v_assert(p.l.size() == p.sz + 1 and not p.l.empty(), "size grows by one");
	if(after) v_assert(N[name].m_next == r and N[r].m_prev == name and N[r].m_next == on and N[on].m_prev == r, "linked right after its predecessor");
	else v_assert(N[name].m_prev == r and N[r].m_next == name and N[r].m_prev == op and N[op].m_next == r, "linked right before its successor");
	check(p, q.j); check(p, r); check(p, 1);
	if(q.used) { // positions after the insertion
		auto pos = [&](long j) -> uint64_t { uint64_t base = after ? p.rank[name] + 1 : (name == 0 ? p.sz + 1 : p.rank[name]); return j == 0 ? 0 : j == r ? base : p.rank[j] + (p.rank[j] >= base); };
		long nx = N[q.j].m_next; v_assert(((nx == 0) | (pos(nx) == pos(q.j) + 1)) & ((q.j == 0) | (pos(q.j) <= p.sz + 1)), "every element has a position in the list, one more than its predecessor's");
		v_assert(pos(N[0].m_prev) == p.sz + 1, "the last position is the size");
		uint64_t k = pos(q.j), base = pos(r); v_assert((int64_t)(k < base ? p.at[k] : p.at[k - 1]) == q.j, "positions are distinct");
	}
	if(q.used) {
		v_assert(N[q.j].m_inUse and N[q.j].m_val == q.val, "other elements keep their value");
		v_assert(N[q.j].m_next == ((after and q.j == name) or (not after and q.j == op) ? r : q.next), "other elements keep their successor");
		v_assert(N[q.j].m_prev == ((not after and q.j == name) or (after and q.j == on) ? r : q.prev), "other elements keep their predecessor");
	}
	if(full) { long f = (long)nd64("freshprobe"); v_assume(f >= (long)p.n and (size_t)f < p.l.m_nodes.size()); f = v_concrete(f - (long)p.n) + (long)p.n; check(p, f); v_assert(f == r or not N[f].m_inUse, "new nodes are free"); }
}
ENTRY h_P05_insert_after() { insert(true, false); }
ENTRY h_P05_insert_before() { insert(false, false); }
ENTRY b_P05_grow_after() { insert(true, true); }
ENTRY b_P05_grow_before() { insert(false, true); }
ENTRY h_P05_bare_add() {
	Pre p; pre(p); long fn = p.nodes[1].m_next; v_assume(fn != 1); assumeAt(p, fn); assumeAt(p, p.nodes[fn].m_next);
	long name = pick(p, "name"); Probe q = probe(p); bool after = ndb("after"); v_cover("bare");
	bool valid = name == 0 or (name > 0 and (size_t)name < p.n and p.nodes[name].m_inUse);
	long r = after ? p.l.addAfter(name) : p.l.addBefore(name);
	v_assert((r == -1) == not valid, "adding next to a name that is not in use fails");
	check(p, q.j);
	Node *N = p.l.m_nodes.data();
	if(not valid) v_assert(p.l.size() == p.sz and N[q.j].m_next == q.next and N[q.j].m_prev == q.prev and N[q.j].m_inUse == q.used, "failure changes nothing");
	else v_assert(p.l.size() == p.sz + 1 and p.l.has(r) and (after ? N[name].m_next == r : N[name].m_prev == r), "added");
}
ENTRY h_P05_remove() {
	Pre p; pre(p); long fl = p.nodes[1].m_prev; assumeAt(p, fl);
	int how = (int)v_choose(3, "how");
	long name = how == 1 ? p.nodes[0].m_next : how == 2 ? p.nodes[0].m_prev : pick(p, "name");
	if(how) { assumeAt(p, name); assumeAt(p, p.nodes[name].m_next); assumeAt(p, p.nodes[name].m_prev); }
	Probe q = probe(p); v_cover("remove");
	bool valid = name > 0 and (size_t)name < p.n and p.nodes[name].m_inUse;
	if(valid) v_assume(p.sz > 0);
	long on = valid ? p.nodes[name].m_next : 0, op = valid ? p.nodes[name].m_prev : 0;
	p.l.m_blank = nd64("blank");
	bool r = how == 0 ? p.l.remove(name) : how == 1 ? p.l.removeFirst() : p.l.removeLast();
	v_assert(r == valid, "remove succeeds exactly for names in use");
	check(p, q.j);
	Node *N = p.l.m_nodes.data();
	if(valid) {
		v_assert(not p.l.has(name) and p.l.size() == p.sz - 1 and N[name].m_val == p.l.m_blank, "name is free and its value dropped");
		v_assert((N[op].m_next == on) & (N[on].m_prev == op), "neighbours are joined");
		if(q.used and q.j != name) { auto pos = [&](long j) -> uint64_t { return j == 0 ? 0 : p.rank[j] - (p.rank[j] > p.rank[name]); }; long nx = N[q.j].m_next; v_assert(((nx == 0) | (pos(nx) == pos(q.j) + 1)) & (pos(q.j) <= p.sz - 1), "every remaining element has a position in the list, one more than its predecessor's"); uint64_t k = pos(q.j); v_assert((int64_t)(k < p.rank[name] ? p.at[k] : p.at[k + 1]) == q.j, "positions are distinct"); if(p.sz > 1) v_assert(pos(N[0].m_prev) == p.sz - 1, "the last position is the size"); }
		if(q.used and q.j != name) { v_assert(N[q.j].m_inUse and N[q.j].m_val == q.val, "other elements keep their value"); v_assert(N[q.j].m_next == (q.j == op ? on : q.next) and N[q.j].m_prev == (q.j == on ? op : q.prev), "other elements keep their place"); }
	} else v_assert(p.l.size() == p.sz and N[q.j].m_next == q.next and N[q.j].m_prev == q.prev and N[q.j].m_val == q.val, "failure changes nothing");
}
ENTRY h_P05_move() {
	Pre p; pre(p); long name = pick(p, "name"); Probe q = probe(p);
	assumeAt(p, p.nodes[0].m_next); assumeAt(p, p.nodes[0].m_prev);
	bool valid = name > 0 and (size_t)name < p.n and p.nodes[name].m_inUse;
	long first = p.nodes[0].m_next, last = p.nodes[0].m_prev; long on = valid ? p.nodes[name].m_next : 0, op = valid ? p.nodes[name].m_prev : 0;
	int how = (int)v_choose(4, "op"); v_cover("move");
	bool r = how == 0 ? p.l.moveNameToHead(name) : how == 1 ? p.l.moveNameToTail(name) : how == 2 ? p.l.rotateNameToHead(name) : p.l.rotateNameToTail(name);
	v_assert(r == (valid or name == 0), "moving succeeds exactly for names in use");
	check(p, q.j); check(p, 0);
	Node *N = p.l.m_nodes.data();
	v_assert(p.l.size() == p.sz and N[q.j].m_val == q.val and N[q.j].m_inUse == q.used, "moving keeps every value and the size");
	if(not valid) { v_assert(N[q.j].m_next == q.next and N[q.j].m_prev == q.prev, "nothing moved"); return; }
	if(how == 0) v_assert(p.l.first() == name and (name == first or p.l.next(name) == first), "moved to the head, the old head follows");
	if(how == 1) v_assert(p.l.last() == name and (name == last or p.l.prev(name) == last), "moved to the tail, the old tail precedes");
	if(how == 2) { v_assert(p.l.first() == name and p.l.next(name) == (on == 0 ? (name == first ? 0 : first) : on), "rotated to the head keeping cyclic order"); v_assert(op == 0 or p.l.last() == op, "the old predecessor becomes the tail"); }
	if(how == 3) { v_assert(p.l.last() == name and p.l.prev(name) == (op == 0 ? (name == last ? 0 : last) : op), "rotated to the tail keeping cyclic order"); v_assert(on == 0 or p.l.first() == on, "the old successor becomes the head"); }
	if(how < 2) { if(op != 0 and not (how == 0 and op == name)) v_assert(N[op].m_next == (how == 1 and on == 0 ? name : on), "gap closed"); }
}
ENTRY h_P05_query() {
	Pre p; pre(p); long name = pick(p, "name"); v_cover("query");
	bool valid = name > 0 and (size_t)name < p.n and p.nodes[name].m_inUse;
	v_assert(p.l.has(name) == valid and p.l.isUsing(name) == (valid or name == 0), "has/isUsing");
	v_assert(p.l.next(name) == (valid or name == 0 ? p.nodes[name].m_next : -1) and p.l.prev(name) == (valid or name == 0 ? p.nodes[name].m_prev : -1), "next/prev");
	v_assert(p.l.first() == p.nodes[0].m_next and p.l.last() == p.nodes[0].m_prev and p.l.size() == p.sz and p.l.empty() == (p.sz == 0), "first/last/size/empty");
	if(valid) { const L &c = p.l; v_assert(&p.l.at(name) == &p.nodes[name].m_val and &c.at(name) == &p.nodes[name].m_val, "at"); }
}
ENTRY h_P05_init() {
	uint64_t blank = nd64("blank"); L l(blank); v_cover("init");
	v_assert(l.empty() and l.size() == 0 and l.first() == 0 and l.last() == 0 and not l.removeFirst() and not l.removeLast(), "a new list is empty");
	Node *N = l.m_nodes.data(); size_t n = l.m_nodes.size();
	for(size_t i = 0; i < n; i++) { v_assert(inTab(N, n, (long)i), "initial links in the table"); v_assert(linked(N, (long)i) and N[i].m_inUse == (i == 0), "initial table is well formed"); }
}
// sequences of operations on a fresh list agree with a sequence model
ENTRY b_P05_sequence() {
	L l; long nm[4]; uint64_t val[4]; size_t k = 0; v_cover("seq");
	for(int step = 0; step < 3; step++) {
		int op = (int)v_choose(3, "op"); uint64_t v = nd64("v");
		if(op == 0) { long r = l.append(v); nm[k] = r; val[k] = v; k++; }
		else if(op == 1) { long r = l.prepend(v); for(size_t i = k; i > 0; i--) { nm[i] = nm[i - 1]; val[i] = val[i - 1]; } nm[0] = r; val[0] = v; k++; }
		else if(k) { size_t i = v_choose(k, "which"); v_assert(l.remove(nm[i]) and not l.remove(nm[i]), "remove once"); for(; i + 1 < k; i++) { nm[i] = nm[i + 1]; val[i] = val[i + 1]; } k--; }
	}
	L o; o.append(9); o.appendValuesFrom(l); v_assert(o.size() == k + 1, "appendValuesFrom appends every value");
	size_t i = 0; bool good = true; l.valuesDo([&](uint64_t &x) { good = good and i < k and x == val[i]; i++; return true; }); v_assert(good and i == k, "values are visited in order");
	i = 0; l.safeValuesDo([&](uint64_t &x) { good = good and i < k and x == val[i]; i++; l.clear(); return true; }); v_assert(good and i == k and (k == 0 or l.empty()), "safeValuesDo visits a snapshot while the list is emptied");
	i = 0; for(long n = o.next(o.first()); n > 0; n = o.next(n)) { v_assert(o.at(n) == val[i], "appended in order"); i++; }
	uint64_t w = nd64("w"); long f = o.find(w); bool has = w == 9; for(i = 0; i < k; i++) has = has or val[i] == w; v_assert((f != 0) == has and (f == 0 or o.at(f) == w), "find");
}
static size_t szf(const uint64_t &v) { return (size_t)v_uf("size", v, 0); }
ENTRY h_P05_sum() {
	// one step from an arbitrary sum: the sum changes by exactly the size of the added/removed value
	SumList<uint64_t> l(szf); v_cover("sum"); uint64_t a = nd64("a"), b = nd64("b"); size_t base = nd64("base");
	long na = l.append(a), nb = l.prepend(b); v_assert(l.sum() == szf(a) + szf(b), "sum of sizes");
	l.m_sum = base;
	if(ndb("rm")) { v_assert(l.remove(na) and l.sum() == base - szf(a), "removal subtracts the size"); v_assert(not l.remove(na) and l.sum() == base - szf(a), "failed removal changes nothing"); v_assert(l.removeFirst() and l.sum() == base - szf(a) - szf(b), "removeFirst"); }
	else { uint64_t c = nd64("c"); long nc = ndb("after") ? l.addAfter(c, nb) : l.addBefore(c, na); v_assert(l.sum() == base + szf(c) and l.next(nb) == nc and l.next(nc) == na, "insertion adds the size"); l.clear(); v_assert(l.empty() and l.sum() == base - szf(a) - szf(b), "clear"); }
}
