// contracts for AMF0 values: decoding of arbitrary bytes, encoding, containers
#include "common.hpp"
#include "src/Object.cpp"
#include "src/AMF.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmp;
static double dbl(uint64_t u) { union { double d; uint64_t u; } x; x.u = u; return x.d; }
static uint64_t bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static uint64_t be(const uint8_t *b, int n) { uint64_t r = 0; for(int i = 0; i < n; i++) r = r << 8 | b[i]; return r; }
// every scalar marker over input of any length, at any depth
ENTRY h_P24_scalar() {
	size_t n = nd64("n"); v_assume(n <= 1 << 20); uint8_t *b = (uint8_t *)v_bytes(n, "amf"); size_t depth = nd64("depth"); v_cover("scalar");
	uint8_t m = n ? b[0] : 0; v_assume(m != 3 and m != 8 and m != 10 and m != 16);
	const uint8_t *c = b; auto v = AMF0::decode(&c, b + n, depth); size_t used = c - b;
	bool num = m == 0, boo = m == 1, str = m == 2, lng = m == 12, nul = m == 5, und = m == 6 or m == 13;
	size_t sl = str and n >= 3 ? be(b + 1, 2) : lng and n >= 5 ? be(b + 1, 4) : 0, need = num ? 9 : boo ? 2 : str ? 3 + sl : lng ? 5 + sl : 1;
	bool ok = n and depth <= AMF0::MAX_DEPTH and (num or boo or str or lng or nul or und) and n >= need;
	v_assert((v != nullptr) == ok, "yields a value exactly when the whole value is present and known"); v_assert(used == (ok ? need : 0), "consumes exactly the value");
	if(not v) return; v_cover("accepted");
	v_assert(v->getType() == (num ? AMF0::AMF0_NUMBER : boo ? AMF0::AMF0_BOOLEAN : nul ? AMF0::AMF0_NULL : und ? AMF0::AMF0_UNDEFINED : AMF0::AMF0_STRING), "type");
	v_assert(v->isNumber() == num and v->isBoolean() == boo and v->isNull() == nul and v->isUndefined() == und and v->isString() == (str or lng) and not v->isObject() and not v->isArray() and not v->isECMAArray() and not v->isTypedObject(), "type predicates");
	if(boo) v_assert(v->booleanValue() == (b[1] != 0) and v->isTruthy() == (b[1] != 0), "boolean");
	if(num) { uint64_t u = be(b + 1, 8); v_assert(bits(v->doubleValue()) == u, "number"); }
	if(str or lng) { auto *s = v->asString(); v_assert(s and s->size() == sl and v->isTruthy() == (sl != 0), "string length"); size_t i = nd64("i"); if(i < sl) v_assert((uint8_t)s->stringValue()[i] == b[need - sl + i], "string bytes"); v_assert(s->stringValue()[sl] == 0, "terminated"); }
	// re-encoding yields the canonical encoding, which decodes to the same value
	std::vector<uint8_t> e; if(v_choose(2, "pre")) e.push_back(0xee); size_t p = e.size(); v->encode(e);
	if(not (lng or (boo and b[1] > 1) or m == 13)) { v_assert(e.size() == p + need, "re-encoded size"); size_t i = nd64("j"); if(i < need) v_assert(e[p + i] == b[i], "re-encoding reproduces the bytes"); }
	if(lng) { bool l = sl > 65535; v_assert(e.size() == p + (l ? 5 : 3) + sl and e[p] == (l ? 12 : 2) and be(e.data() + p + 1, l ? 4 : 2) == sl, "string head"); size_t i = nd64("j"); if(i < sl) v_assert(e[e.size() - sl + i] == b[5 + i], "string bytes"); v_cover("long"); }
	if(p) v_assert(e[0] == 0xee, "encoding appends");
}
// contract of decode for nested values (decode is verified against it in h_P24_scalar and h_P24_dispatch):
// it is given the next depth; it refuses, or yields a value and advances by at least one byte inside the input
static size_t g_depth; static int g_calls, g_refuse = -1, g_max = 3; static const uint8_t *g_limit; static size_t g_adv[4]; static AMF0 *g_val[4]; static bool g_sym; static std::shared_ptr<AMF0> g_one;
STUB_FOR("h_P24_safety.*", "com::zenomt::rtmp::AMF0::decode")
static std::shared_ptr<AMF0> decodeAny(const uint8_t **cp, const uint8_t *limit, size_t depth) {
	v_assert(depth == g_depth + 1, "each nesting level is one deeper"); v_assert(limit == g_limit and *cp <= limit, "the same limit, inside the input");
	if(*cp == limit or ndb("refuse")) return nullptr; size_t a = nd16("adv"); v_assume(a >= 1 and a <= (size_t)(limit - *cp)); *cp += a; return g_one;
}
STUB_FOR("b_P24_bytes|b_P24_container", "com::zenomt::rtmp::AMF0::decode")
static std::shared_ptr<AMF0> decodeContract(const uint8_t **cp, const uint8_t *limit, size_t depth) {
	v_assert(depth == g_depth + 1, "each nesting level is one deeper"); v_assert(limit == g_limit and *cp <= limit, "the same limit, inside the input"); std::shared_ptr<AMF0> r; int k = g_calls++;
	if(k >= g_max) v_stop();
	if(g_sym) { if(*cp == limit or ndb("refuse")) return r; size_t a = nd64("adv"); v_assume(a >= 1 and a <= (size_t)(limit - *cp)); *cp += a; return AMF0::Number(k); }
	if(k == g_refuse or (size_t)(limit - *cp) < g_adv[k]) { g_refuse = k; return r; }
	*cp += g_adv[k]; r = AMF0::Number(k); g_val[k] = r.get(); return r;
}
// contract of the map insertion (its behaviour is the subject of b_P24_object)
static bool g_one_iter;
STUB_FOR("h_P24_safety.*|b_P24_bytes", "com::zenomt::rtmp::AMF0Object::putValueAtKey")
static AMF0Object *putContract(AMF0Object *self, const std::shared_ptr<AMF0> &v, const std::string &key) { v_assert(v != nullptr and key.size() <= 65535, "a decoded member has a value"); if(g_one_iter) v_stop(); return self; }
static std::shared_ptr<AMF0> mk(size_t kind) { switch(kind) { case 0: return AMF0::Object(); case 1: return AMF0::ECMAArray(); case 2: return share_ref(new AMF0TypedObject(), false); default: return AMF0::Array(); } }
static const uint8_t MARK[4] = { 3, 8, 16, 10 };
STUB_FOR("h_P24_safetyArray", "com::zenomt::rtmp::AMF0Array::putValueAtIndex")
static AMF0Array *putIndexContract(AMF0Array *self, const std::shared_ptr<AMF0> &v, uint32_t i) { v_assert(v != nullptr, "a decoded element has a value"); return self; }
STUB_FOR("h_P24_safety.*", "com::zenomt::rtmp::AMF0String::decodeString")
static bool decodeStringContract(bool isLong, const uint8_t **cp, const uint8_t *limit, std::string &dst) { v_assert(not isLong and *cp <= limit and limit == g_limit, "the class name, inside the input"); if(ndb("no string")) return false; size_t a = nd16("class"); v_assume(a >= 2 and a <= (size_t)(limit - *cp)); *cp += a; return true; } // (decodeString itself: h_P24_scalar)
// any body bytes of any length: no read outside the input (nested values by contract)
static void safety(size_t kind) {
	size_t n = nd16("n"); uint8_t *b = (uint8_t *)v_bytes(n, "body"); g_depth = nd64("depth"); v_assume(g_depth <= AMF0::MAX_DEPTH); g_limit = b + n; g_sym = true; g_one = AMF0::Null(); if(kind == 3) v_cfg("inv", 1); else g_one_iter = true; v_cover("safety");
	auto o = mk(kind); const uint8_t *c = b; bool ok = o->setFromEncoding(MARK[kind], &c, b + n, g_depth); v_assert(c >= b and c <= b + n and (not ok or c > b), "stays inside the input"); if(ok) v_cover("accepted");
}
ENTRY h_P24_safetyObject() { safety(0); }
ENTRY h_P24_safetyArray() { safety(3); }
ENTRY h_P24_safetyECMA() { safety(1); }
ENTRY h_P24_safetyTyped() { safety(2); }
// every body of up to 7 bytes
ENTRY b_P24_bytes() {
	size_t kind = v_choose(4, "kind"), n = v_choose(8, "n"); uint8_t *b = (uint8_t *)malloc(n); for(size_t i = 0; i < n; i++) b[i] = nd8("b"); g_depth = nd64("depth"); v_assume(g_depth <= AMF0::MAX_DEPTH); g_limit = b + n; g_sym = true; g_max = 8; v_cover("safety");
	auto o = mk(kind); const uint8_t *c = b; bool ok = o->setFromEncoding(MARK[kind], &c, b + n, g_depth); v_assert(c >= b and c <= b + n and (not ok or c > b), "stays inside the input"); if(ok) v_cover("accepted"); free(b);
}
ENTRY b_P24_container() {
	size_t kind = v_choose(4, "kind"), nm = v_choose(3, "members"); bool arr = kind == 3; size_t kl[2] = {}; for(size_t i = 0; i < nm; i++) { if(not arr) kl[i] = v_choose(3, "keylen"); g_adv[i] = 1 + v_choose(2, "adv"); }
	size_t cn = kind == 2 ? v_choose(3, "class") : 0; g_depth = nd64("depth"); v_assume(g_depth <= AMF0::MAX_DEPTH);
	std::vector<uint8_t> v; if(kind == 1) for(int i = 0; i < 4; i++) v.push_back(nd8("count")); if(arr) { v.push_back(0); v.push_back(0); v.push_back(0); v.push_back((uint8_t)nm); } if(kind == 2) { v.push_back(0); v.push_back((uint8_t)cn); for(size_t i = 0; i < cn; i++) v.push_back(nd8("c")); }
	uint8_t key[2][2]; for(size_t i = 0; i < nm; i++) { if(not arr) { v.push_back(0); v.push_back((uint8_t)kl[i]); for(size_t j = 0; j < kl[i]; j++) v.push_back(key[i][j] = nd8("key")); } for(size_t j = 0; j < g_adv[i]; j++) v.push_back(j ? 0x77 : 0); }
	if(not arr) { v.push_back(0); v.push_back(0); v.push_back(9); }
	size_t total = v.size(), n = total; int mode = (int)v_choose(3, "mode"); if(mode == 1) { if(nm == 0) return; g_refuse = (int)v_choose(nm, "refuse"); } if(mode == 2) n = v_choose(total, "cut");
	uint8_t *b = (uint8_t *)malloc(n + (mode == 0 ? 2 : 0)); memcpy(b, v.data(), n); if(mode == 0) { b[n] = nd8("trail"); b[n + 1] = 9; n += 2; } g_limit = b + n; v_cover("container");
	auto o = mk(kind); const uint8_t *c = b; bool ok = o->setFromEncoding(MARK[kind], &c, b + n, g_depth);
	v_assert(ok == (mode == 0), "accepted exactly when complete and terminated"); v_assert(ok ? c == b + total : c >= b and c <= b + n, "consumes exactly the value");
	if(ok) { v_cover("accepted"); v_assert((size_t)g_calls == nm, "every member is decoded once");
		if(arr) { v_assert(o->asArray()->size() == nm, "exactly the announced elements"); for(size_t i = 0; i < nm; i++) v_assert(o->getValueAtIndex((uint32_t)i).get() == g_val[i], "elements in order"); }
		else { auto *ob = o->asObject(); size_t distinct = nm; bool same = nm == 2 and kl[0] == kl[1]; for(size_t j = 0; j < kl[0]; j++) if(same) same = key[0][j] == key[1][j]; distinct -= same;
			for(size_t i = 0; i < nm; i++) { std::string k((const char *)key[i], kl[i]); v_assert(ob->has(k), "member present"); v_assert(ob->getValueAtKey(k).get() == g_val[same ? 1 : i], "a repeated key takes the last value"); } v_assert(ob->size() == distinct, "keys are unique");
			if(kind == 2) { auto &q = ((AMF0TypedObject *)o.get())->m_class_name; v_assert(q.size() == cn, "class name"); for(size_t i = 0; i < cn; i++) v_assert((uint8_t)q[i] == v[2 + i], "class name"); } } }
	free(b);
}
// encodings of containers: marker, head, members in key order (or index order), terminator; absent members are undefined
static std::shared_ptr<AMF0> some(size_t k, size_t i) { switch(k) { case 0: return AMF0::Number(dbl(0x3ff0000000000000ull + i)); case 1: { std::string s; for(size_t j = 0; j < i + 1; j++) s.push_back((char)nd8("ch")); return AMF0::String(s); } case 2: return AMF0::Null(); case 3: return AMF0::Boolean(i & 1); case 4: return std::shared_ptr<AMF0>(); default: { auto o = AMF0::Object(); o->putValueAtKey(AMF0::Null(), "z"); return o; } } }
ENTRY b_P24_encode() {
	size_t kind = v_choose(4, "kind"), nm = v_choose(4, "members"), cn = kind == 2 ? v_choose(2, "class") : 0; std::shared_ptr<AMF0> m[3]; std::string cls; for(size_t i = 0; i < cn; i++) cls.push_back((char)(1 + (nd8("c") & 0x7f)));
	auto o = kind == 2 ? std::shared_ptr<AMF0>(AMF0::TypedObject(cls.c_str())) : mk(kind); static const char *const K[3] = { "b", "", "ab" }; static const int ORDER[3] = { 1, 2, 0 }; v_cover("encode");
	for(size_t i = 0; i < nm; i++) { m[i] = some(i == 0 ? v_choose(6, "what") : i == 1 ? v_choose(2, "what") * 4 : 3, i); if(kind == 3) o->asArray()->appendValue(m[i]); else o->asObject()->putValueAtKey(m[i], K[i]); }
	std::vector<uint8_t> e, x; e.push_back(0xee); o->encode(e);
	x.push_back(0xee); x.push_back(MARK[kind]); if(kind == 1 or kind == 3) { x.push_back(0); x.push_back(0); x.push_back(0); x.push_back((uint8_t)nm); } if(kind == 2) { x.push_back(0); x.push_back((uint8_t)cn); for(size_t i = 0; i < cn; i++) x.push_back((uint8_t)cls[i]); }
	for(size_t j = 0; j < 3; j++) { size_t i = kind == 3 ? j : ORDER[j]; if(i >= nm) continue; if(kind != 3) { std::string k(K[i]); x.push_back(0); x.push_back((uint8_t)k.size()); for(char c : k) x.push_back((uint8_t)c); } if(m[i]) { auto y = AMF0::encode(m[i].get()); for(uint8_t c : y) x.push_back(c); } else x.push_back(6); }
	if(kind != 3) { x.push_back(0); x.push_back(0); x.push_back(9); }
	v_assert(e.size() == x.size(), "encoded size"); for(size_t i = 0; i < x.size(); i++) v_assert(e[i] == x[i], "encoded bytes");
	// and back: exactly those bytes, an equal value
	const uint8_t *c = e.data() + 1, *limit = e.data() + e.size(); auto d = AMF0::decode(&c, limit); v_assert(d and c == limit, "decoding consumes exactly the encoding"); if(not d) return; v_assert(d->getType() == o->getType(), "same type");
	auto e2 = AMF0::encode(d.get()); v_assert(e2.size() + 1 == e.size(), "equal value"); for(size_t i = 0; i < e2.size() and i + 1 < e.size(); i++) v_assert(e2[i] == e[i + 1], "equal value"); auto dup = o->duplicate(); v_assert(dup and dup.get() != o.get() and dup->getType() == o->getType(), "duplicate");
}
// nesting: accepted up to the limit, refused beyond it, never deeper recursion
ENTRY b_P24_depth() {
	static const size_t D[6] = { 1, 2, 31, 32, 33, 40 }; size_t kind = v_choose(4, "kind"), n = D[v_choose(6, "depth")]; std::vector<uint8_t> v; v_cfg("maxdepth", 400); v_cfg("maxrec", 60); v_cover("depth");
	for(size_t i = 0; i < n; i++) { v.push_back(MARK[kind]); if(kind == 1 or kind == 3) { v.push_back(0); v.push_back(0); v.push_back(0); v.push_back(1); } if(kind == 2) { v.push_back(0); v.push_back(0); } if(kind != 3) { v.push_back(0); v.push_back(1); v.push_back('k'); } }
	v.push_back(5); if(kind != 3) for(size_t i = 0; i < n; i++) { v.push_back(0); v.push_back(0); v.push_back(9); }
	const uint8_t *c = v.data(); auto o = AMF0::decode(&c, v.data() + v.size()); v_assert((o != nullptr) == (n <= AMF0::MAX_DEPTH), "nesting is limited"); v_assert(o ? c == v.data() + v.size() : c == v.data(), "consumed");
}
// arrays: the sequence of members, against a model
ENTRY b_P24_array() {
	auto a = AMF0::Array(); std::vector<AMF0 *> m; size_t steps = 3; v_cover("array");
	for(size_t s = 0; s < steps; s++) { auto v = AMF0::Number((double)s); switch(v_choose(6, "op")) {
		case 0: v_assert(a->appendValue(v) == a.get(), "append"); m.push_back(v.get()); break;
		case 1: { uint32_t i = (uint32_t)v_choose(4, "index"); a->putValueAtIndex(v, i); while(m.size() <= i) m.push_back(nullptr); m[i] = v.get(); break; }
		case 2: { uint32_t i = (uint32_t)v_choose(3, "index"); a->reset(i); if(i < m.size()) m[i] = nullptr; break; }
		case 3: { uint32_t i = (uint32_t)v_choose(4, "from"); size_t n = v_choose(4, "count"); if(n == 3) n = 1000; a->remove(i, n); if(i < m.size()) m.erase(m.begin() + i, m.begin() + (std::ptrdiff_t)std::min(m.size(), i + n)); break; }
		case 4: { size_t n = v_choose(3, "size"); a->resize(n); while(m.size() > n) m.pop_back(); while(m.size() < n) m.push_back(nullptr); break; }
		default: a->clear(); m.clear(); }
		v_assert(a->size() == m.size(), "size"); for(uint32_t i = 0; i < m.size() + 2; i++) { auto x = a->getValueAtIndex(i); v_assert(x != nullptr, "indexing always yields a value"); if(i < m.size() and m[i]) v_assert(x.get() == m[i], "members keep their places"); else v_assert(x->isUndefined(), "absent members are undefined"); } }
}
// any range of any array: only the range is removed, nothing outside it
ENTRY h_P24_remove() {
	size_t n = v_choose(4, "n"), cc = v_choose(6, "countcase"), fc = v_choose(6, "fromcase"), count = cc; uint32_t from = (uint32_t)fc; if(cc == 5) { count = nd64("count"); v_assume(count >= 5); } if(fc == 5) { from = nd32("from"); v_assume(from >= 5); } v_assume(count <= SIZE_MAX - from); auto a = AMF0::Array(); AMF0 *m[4]; for(size_t i = 0; i < n; i++) { auto v = AMF0::Null(); m[i] = v.get(); a->appendValue(v); } v_cover("remove");
	a->remove(from, count); size_t gone = from >= n ? 0 : count < n - from ? count : n - from; v_assert(a->size() == n - gone, "exactly the range is removed"); size_t k = v_choose(4, "k"); if(k < n - gone) v_assert(a->getValueAtIndex((uint32_t)k).get() == m[k < from ? k : k + gone], "the rest keeps its order");
}
// objects: unique keys, against a model
ENTRY b_P24_object() {
	auto o = AMF0::Object(); static const char *const K[3] = { "", "a", "ab" }; AMF0 *m[3] = {}; bool has[3] = {}; v_cover("object");
	for(size_t s = 0; s < 3; s++) { auto v = AMF0::Number((double)s); size_t k = v_choose(3, "key"); switch(v_choose(4, "op")) {
		case 0: v_assert(o->putValueAtKey(v, K[k]) == o.get(), "put"); m[k] = v.get(); has[k] = true; break;
		case 1: o->erase(K[k]); has[k] = false; break;
		case 2: o->putValueAtKey(v.get(), K[k]); m[k] = v.get(); has[k] = true; break;
		default: o->clear(); for(auto &h : has) h = false; }
		size_t n = 0; for(size_t i = 0; i < 3; i++) { n += has[i]; v_assert(o->has(K[i]) == has[i], "presence"); auto x = o->getValueAtKey(K[i]); v_assert(x != nullptr, "a lookup always yields a value"); if(has[i]) v_assert(x.get() == m[i], "value"); else v_assert(x->isUndefined(), "absent"); } v_assert(o->size() == n, "keys are unique"); }
}
ENTRY b_P24_longKey() { auto o = AMF0::Object(); size_t n = v_choose(2, "n") ? 65536 : 65535; std::string k(n, 'k'); v_cover("long key"); o->putValueAtKey(AMF0::Null(), k); v_assert(o->size() == (n < 65536), "a key that has no encoding is never inserted"); }
// several values in a row
ENTRY b_P24_list() {
	size_t n = v_choose(4, "n"); std::vector<std::shared_ptr<AMF0>> v, d; for(size_t i = 0; i < n; i++) v.push_back(some(i == 0 ? v_choose(6, "what") : 3 - i, i)); auto e = AMF0::encode(v); size_t real = 0; for(auto &x : v) if(x) real++; size_t cut = e.size() ? v_choose(2, "cut") : 0; v_cover("list");
	bool ok = AMF0::decode(e.data(), e.data() + e.size() - cut, d); if(cut == 0) { v_assert(ok and d.size() == real, "every value, and success"); size_t j = 0; for(auto &x : v) if(x) { v_assert(d[j]->getType() == x->getType(), "in order"); j++; } }
	else { bool nul = e.size() and v.size() and v.back() and v.back()->isNull(); v_assert(nul ? (ok and d.size() == real - 1) : not ok, "an incomplete value fails"); }
}
