// contracts for VLU / Option (variable length unsigned integers and options)
#include "common.hpp"
#include "src/VLU.cpp"
using namespace com::zenomt::rtmfp;

// specification function: value and length of the first VLU in [p, p+n), 0 if it is not complete
static size_t specVLU(const uint8_t *p, size_t n, uint64_t *val, bool *ovf) {
	uint64_t v = 0; *ovf = false;
	for(size_t i = 0; i < n; i++) {
		if(v >> 57) *ovf = true;
		v = v * 128 + (p[i] & 127);
		if(p[i] < 128) { *val = v; return i + 1; }
	}
	return 0;
}

// encode: for every 64-bit value
ENTRY h_P01_encode() {
	uint64_t x = nd64("x");
	v_cover("encode");
	uint8_t *buf = (uint8_t *)v_bytes(VLU::MAX_VLU_SIZE, "buf");
	uint8_t before[10]; memcpy(before, buf, 10);
	size_t n = VLU::encode(x, buf);
	v_assert(n >= 1 and n <= VLU::MAX_VLU_SIZE, "encoded length is 1..10");
	v_assert(n == VLU::encode(x, nullptr), "length query agrees with encoding");
	v_assert(n == 1 or buf[0] != 0x80, "encoding is minimal");
	for(size_t i = 0; i < n; i++) v_assert(((buf[i] & 0x80) != 0) == (i + 1 < n), "continuation bits");
	uint64_t acc = 0; for(size_t i = 0; i < n; i++) acc = (acc << 7) | (buf[i] & 0x7f);
	v_assert(acc == x, "digits denote the value");
	for(size_t i = n; i < 10; i++) v_assert(buf[i] == before[i], "nothing written past the encoding");
	bool sat = ndb("saturate"); bool lim = ndb("limit given"); size_t extra = nd64("extra"); v_assume(extra <= 10 - n);
	uintmax_t y = ~x;
	v_assert(VLU::parse(buf, lim ? buf + n + extra : nullptr, &y, sat) == n, "parse consumes exactly the encoding");
	v_assert(y == x, "parse(encode(x)) == x");
	size_t cut = nd64("cut"); v_assume(cut < n);
	uintmax_t z = 1234;
	v_assert(VLU::parse(buf, buf + cut, &z, sat) == 0, "a truncated encoding is not accepted");
	v_assert(z == 1234, "a truncated encoding leaves the result alone");
	v_assert(VLU::parse(buf, buf + n, nullptr, sat) == n, "null result pointer");
}
ENTRY h_P01_append() {
	uint64_t x = nd64("x"); size_t k = v_choose(2, "k") * 3;
	std::vector<uint8_t> v; for(size_t i = 0; i < k; i++) v.push_back(nd8("pre"));
	std::vector<uint8_t> pre(v); v_cover("append");
	VLU::append(x, v);
	uint8_t e[10]; size_t n = VLU::encode(x, e);
	v_assert(v.size() == k + n, "append grows by the encoded length");
	for(size_t i = 0; i < k; i++) v_assert(v[i] == pre[i], "append keeps the prefix");
	for(size_t i = 0; i < n; i++) v_assert(v[k + i] == e[i], "append adds the encoding");
}
// parse of arbitrary bytes: consumption and value
ENTRY h_P01_parse() {
	v_cfg("inv", 1);
	size_t n = nd64("n"); uint8_t *b = (uint8_t *)v_bytes(n, "b");
	v_cover("parse");
	uintmax_t y = 77; bool sat = ndb("saturate");
	size_t r = VLU::parse(b, b + n, &y, sat);
	v_assert(r <= n, "consumes at most the available bytes");
	if(r) v_assert(b[r - 1] < 0x80, "ends at a byte without continuation bit");
	else v_assert(y == 77, "failure leaves the result alone");
}
ENTRY b_P01_parseValue() {
	size_t n = nd64("n"); v_assume(n <= 20); uint8_t *b = (uint8_t *)v_bytes(n, "b");
	v_cover("parse");
	uintmax_t y = 77; bool sat = ndb("saturate");
	size_t r = VLU::parse(b, b + n, &y, sat);
	uint64_t sv = 0; bool ovf = false; size_t sr = specVLU(b, n, &sv, &ovf);
	v_assert(r == sr, "length is the first complete VLU");
	if(r and not ovf) v_assert(y == sv, "value");
	if(r and ovf and sat) v_assert(y == UINT64_MAX, "saturates when the value does not fit");
}
ENTRY h_P01_parseField() {
	v_cfg("inv", 1);
	size_t n = nd64("n"); uint8_t *b = (uint8_t *)v_bytes(n, "b");
	v_cover("parseField");
	const uint8_t *pl = nullptr; size_t pn = 99;
	size_t r = VLU::parseField(b, b + n, &pl, &pn);
	v_assert(r <= n, "field lies inside the input");
	if(r) { v_assert(pl > b and pl + pn == b + r, "payload is the tail of the field"); v_assert(pn <= n and (size_t)(pl - b) <= n - pn, "payload inside the input");
	}
	else v_assert(pl == nullptr and pn == 99, "failure leaves outputs alone");
}
ENTRY b_P01_parseFieldValue() {
	size_t n = nd64("n"); v_assume(n <= 24); uint8_t *b = (uint8_t *)v_bytes(n, "b");
	v_cover("parseField"); const uint8_t *pl = nullptr; size_t pn = 99;
	size_t r = VLU::parseField(b, b + n, &pl, &pn);
	uint64_t sv = 0; bool ovf = false; size_t sr = specVLU(b, n, &sv, &ovf);
	v_assert((r != 0) == (sr and not ovf and sv <= n - sr), "accepted exactly when the whole field is present");
	if(r) v_assert(r == sr + sv and pl == b + sr and pn == sv, "field is the prefix and its payload");
}
ENTRY h_P01_parseFieldRT() {
	size_t k = nd64("k"); v_assume(k <= 100000); uint8_t hdr[10]; size_t h = VLU::encode(k, hdr);
	size_t extra = nd64("extra"); v_assume(extra <= 100000);
	uint8_t *b = (uint8_t *)v_bytes(h + k + extra, "b");
	for(size_t i = 0; i < h; i++) v_assume(b[i] == hdr[i]);
	v_cover("field"); const uint8_t *pl = nullptr; size_t pn = 99;
	v_assert(VLU::parseField(b, b + h + k + extra, &pl, &pn) == h + k, "a complete field is consumed exactly");
	v_assert(pl == b + h and pn == k, "field payload");
	size_t cut = nd64("cut"); v_assume(cut < h + k);
	v_assert(VLU::parseField(b, b + cut, &pl, &pn) == 0, "an incomplete field is refused");
}
// contract of VLU::parse as discharged by h_P01_parse, standing in for its body in h_P01_optionParse
STUB_FOR("h_P01_optionParse", "com::zenomt::rtmfp::VLU::parse")
static size_t vluParseContract(const uint8_t *src, const uint8_t *limit, uintmax_t *val, bool) {
	size_t r = nd64("vlu.len"); v_assume(r <= (size_t)(limit - src));
	if(r) { v_assume(src[r - 1] < 0x80); if(val) *val = nd64("vlu.val"); }
	return r;
}
ENTRY h_P01_optionParse() {
	size_t n = nd64("n"); uint8_t *b = (uint8_t *)v_bytes(n, "b");
	v_cover("option");
	uintmax_t t = 55; const uint8_t *val = (const uint8_t *)1; size_t vl = 99;
	size_t r = Option::parse(b, b + n, &t, &val, &vl);
	v_assert(r <= n, "option lies inside the input");
	if(r and val) v_assert(val > b and val <= b + r and vl == (size_t)(b + r - val), "value is the tail of the option");
	if(r and not val) { v_assert(vl == 0 and t == 0, "a marker has no type or value"); v_assert(b[r - 1] < 0x80, "marker encoding"); }
}
ENTRY b_P01_optionRT() {
	uint64_t t = nd64("type"); size_t vl = v_choose(4, "vl"); if(vl == 3) vl = 130;
	uint8_t *val = (uint8_t *)v_bytes(vl, "val");
	std::vector<uint8_t> v; if(ndb("pre")) v.push_back(9);
	size_t p0 = v.size();
	switch(v_choose(4, "form")) {
	case 0: Option::append(t, val, vl, v); break;
	case 1: Option::append(t, std::vector<uint8_t>(val, val + vl), v); break;
	case 2: { v_assume(vl == 0); Option::append(t, v); break; }
	default: { v_assume(vl == 0); uint64_t u = nd64("u"); Option::append(t, u, v); uint8_t ub[10]; vl = VLU::encode(u, ub); val = (uint8_t *)v_bytes(vl, "uv"); for(size_t i = 0; i < vl; i++) v_assume(val[i] == ub[i]); }
	}
	v_cover("optionRT");
	uintmax_t t2 = ~t; const uint8_t *pv = nullptr; size_t pl = 99;
	size_t r = Option::parse(v.data() + p0, v.data() + v.size(), &t2, &pv, &pl);
	v_assert(r == v.size() - p0, "option round trip: consumed");
	v_assert(t2 == t and pl == vl and pv, "option round trip: type and length");
	for(size_t i = 0; i < vl; i++) v_assert(pv[i] == val[i], "option round trip: value");
	std::vector<uint8_t> m; Option::append(m); v_assert(m.size() == 1 and m[0] == 0, "marker is a zero length option");
}
