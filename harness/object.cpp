// contracts for Object reference counting and Retainer: one operation from arbitrary counts, all aliasings
#include "common.hpp"
#include "src/Object.cpp"
#include "include/rtmfp/Retainer.hpp"
using namespace com::zenomt;
static int destroyed[2];
struct Foo : public Object { int k; Foo(int k_) : k(k_) {} ~Foo() { destroyed[k]++; } long rc() { return m_refcount; } };
struct Bar : public Foo { using Foo::Foo; };
typedef Retainer<Foo> R;

ENTRY h_P06_count() {
	Foo *f = new Foo(0); v_cover("count"); v_assert(f->rc() == 1, "a new object has one reference");
	long c = (long)nd64("count"); v_assume(c > 0 and c < (1L << 62)); f->m_refcount = c;
	bool st = ndb("static");
	if(ndb("retain")) { if(st) Object::retain(f); else f->retain(); v_assert(f->rc() == c + 1 and not destroyed[0], "retain adds one reference"); }
	else { if(st) Object::release(f); else f->release(); v_assert(destroyed[0] == (c == 1) and v_freed(f) == (c == 1), "release destroys the object exactly when the last reference goes"); if(c > 1) v_assert(f->rc() == c - 1, "release drops one reference"); }
	Object::retain(nullptr); Object::release(nullptr);
}
ENTRY h_P06_share() {
	Foo *f = new Foo(0); long c = (long)nd64("count"); v_assume(c > 0 and c < (1L << 62)); f->m_refcount = c; bool ret = ndb("retain"); v_cover("share");
	{ std::shared_ptr<Foo> s = share_ref(f, ret); v_assert(f->rc() == c + ret and s.get() == f, "share_ref takes or adopts one reference"); auto t = s; v_assert(f->rc() == c + ret, "copies of the shared_ptr share that reference"); }
	v_assert(destroyed[0] == (not ret and c == 1), "the reference is given back when the last copy goes"); if(not destroyed[0]) v_assert(f->rc() == c + ret - 1, "count restored");
}
// two retainers over two objects (or null, or the same), each object also referenced elsewhere, one operation
ENTRY h_P06_retainer() {
	Foo *o[2] = {new Foo(0), new Bar(1)}; long c[2];
	for(int i = 0; i < 2; i++) { c[i] = (long)nd64("others"); v_assume(c[i] >= 0 and c[i] < (1L << 62)); o[i]->m_refcount = c[i]; }
	size_t ia = v_choose(3, "a"), ib = v_choose(3, "b"), op = v_choose(16, "op"); v_cover("retainer");
	Foo *pa = ia < 2 ? o[ia] : nullptr, *pb = ib < 2 ? o[ib] : nullptr;
	// without another reference an object is only alive while held
	for(int i = 0; i < 2; i++) { bool held = ia == (size_t)i or ib == (size_t)i; if(not held) v_assume(c[i] > 0); }
	Foo *ea, *eb; Foo *ec = nullptr; bool hasC = false;
	long exp[2];
	{
		R a, b; if(pa) { a.m_ptr = pa; pa->m_refcount++; } if(pb) { b.m_ptr = pb; pb->m_refcount++; }
		ea = pa; eb = pb; R x;
		switch(op) {
		case 0: { R t(a); x = t; ec = pa; break; }
		case 1: { R t(std::move(a)); ea = nullptr; v_assert(a.get() == nullptr, "moved from"); x.swap(t); ec = pa; break; }
		case 2: a = b; ea = pb; break;
		case 3: a = std::move(b); ea = pb; eb = nullptr; break;
		case 4: a = a; break;
		case 5: a.swap(b); ea = pb; eb = pa; break;
		case 6: a.reset(); ea = nullptr; break;
		case 7: { if(pb) { pb->m_refcount++; x = claim_ref(pb); ec = pb; } break; }
		case 8: x = retain_ref(pb); ec = pb; break;
		case 9: a = pb; ea = pb; break;
		case 10: a = nullptr; ea = nullptr; break;
		case 11: { Retainer<Object> t(a); v_assert(t.get() == pa, "converting copy"); if(pa) v_assert(pa->rc() == c[ia] + 2 + (ib == ia), "converting copy retains"); break; }
		case 12: { Retainer<Object> t(std::move(a)); ea = nullptr; v_assert(a.empty() and t.get() == pa, "converting move"); if(pa) v_assert(pa->rc() == c[ia] + 1 + (ib == ia), "converting move transfers"); break; }
		case 13: { Retainer<Object> t; t = a; v_assert(t.get() == pa, "converting assign"); break; }
		case 14: { Retainer<Object> t(pb); t = std::move(a); ea = nullptr; v_assert(t.get() == pa and a.empty(), "converting move assign"); break; }
		case 15: { a = std::move(a); v_assert(a.get() == pa or a.get() == nullptr, "self move"); ea = a.get(); break; }
		}
		v_assert(a.get() == ea and b.get() == eb and x.get() == ec, "pointers after the operation");
		v_assert((bool)a == (ea != nullptr) and a.empty() == (ea == nullptr), "bool/empty");
		v_assert((a == b) == (ea == eb) and (a != b) == (ea != eb) and (a == nullptr) == (ea == nullptr) and (nullptr == a) == (ea == nullptr) and (a != nullptr) == (ea != nullptr), "equality");
		v_assert((a < b) == (ea < eb) and (a > b) == (ea > eb) and (a <= b) == (ea <= eb) and (a >= b) == (ea >= eb), "order agrees with the pointers");
		for(int i = 0; i < 2; i++) { exp[i] = c[i] + (ea == o[i]) + (eb == o[i]) + (ec == o[i]); v_assert(destroyed[i] == (exp[i] == 0), "an object lives exactly as long as something holds it"); if(not destroyed[i]) v_assert(o[i]->rc() == exp[i], "every retainer holds exactly one reference"); }
	}
	for(int i = 0; i < 2; i++) { v_assert(destroyed[i] == (c[i] == 0), "references are given back on destruction"); if(not destroyed[i]) v_assert(o[i]->rc() == c[i], "count restored on destruction"); }
}
ENTRY h_P06_deref_less() {
	int a = (int)nd32("a"), b = (int)nd32("b"); bool na = ndb("na"), nb = ndb("nb"); v_cover("less");
	deref_less<int *> l; int *p = na ? nullptr : &a, *q = nb ? nullptr : &b;
	v_assert(l(p, q) == (p and q ? a < b : not p and q != nullptr), "compares pointees, null first");
	v_assert(not (l(p, q) and l(q, p)) and not l(p, p), "strict order");
}
// a handle assigned from a handle that lives inside the object it refers to
struct Link : public Foo { R next; using Foo::Foo; };
ENTRY h_P06_chain() {
	Link *o = new Link(0); Foo *in = new Foo(1); long c0 = (long)nd64("outer"), c1 = (long)nd64("inner"); v_assume(c0 >= 0 and c0 < (1L << 62) and c1 >= 0 and c1 < (1L << 62)); size_t op = v_choose(6, "op"); v_cover("chain");
	o->m_refcount = c0 + 1; in->m_refcount = c1 + 1; o->next.m_ptr = in; bool moved = op == 1 or op == 2, sw = op == 4;
	{
		R a; a.m_ptr = o;
		switch(op) {
		case 0: a = o->next; break;
		case 1: a = std::move(o->next); break;
		case 2: { Retainer<Link> l; l.m_ptr = o; a.m_ptr = nullptr; a = std::move(l->next); v_assert(l.get() == o, "only the source is emptied"); break; }
		case 3: a = o->next.get(); break;
		case 4: a.swap(o->next); break;
		case 5: a.reset(); break;
		}
		bool gone = op == 4 ? false : c0 == 0;
		v_assert(destroyed[0] == gone and v_freed(o) == gone, "the object is destroyed exactly when its last holder goes"); 
		long e = c1 + (op == 5 ? not gone : sw ? 1 : 1 + (not gone and not moved));
		v_assert(destroyed[1] == (e == 0) and v_freed(in) == (e == 0), "the inner object lives as long as something holds it");
		if(e) v_assert(in->rc() == e, "inner count"); if(not gone) v_assert(o->rc() == c0 + sw, "outer count");
		v_assert(a.get() == (op == 5 ? nullptr : in), "handle refers to the inner object");
		if(op == 4) { v_assert(o->next.get() == o, "swapped"); o->next.reset(); v_assert(destroyed[0] == (c0 == 0), "cycle broken"); }
	}
	v_assert(destroyed[0] == (c0 == 0), "destroyed exactly once"); if(destroyed[0]) v_assert(destroyed[1] == (c1 == 0), "references are given back");
}
