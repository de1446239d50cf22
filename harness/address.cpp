// contracts for Address: wire encoding, comparison, edits; from arbitrary socket address contents
#include "common.hpp"
#include "src/Object.cpp"
#include "src/Address.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
struct G { int fam; uint8_t ip[16]; unsigned port; int origin; size_t n; };
// an arbitrary address of the given kind: 0 IPv4, 1 IPv6, 2 unset; every byte of the socket address that does not matter is arbitrary too
static G mk(Address &a, size_t kind, const char *nm) {
	G g = {}; v_havoc(&a.m_addr, sizeof(a.m_addr), nm); uint8_t *b = (uint8_t *)v_bytes(16, "ip"); uint16_t p = nd16("port"); g.origin = nd8("origin") & 3; a.m_origin = (Address::Origin)g.origin;
	for(int i = 0; i < 16; i++) g.ip[i] = b[i];
	if(kind == 0) { g.fam = AF_INET; g.n = 4; a.m_addr.s.sa_family = AF_INET; memcpy(&a.m_addr.s4.sin_addr, b, 4); a.m_addr.s4.sin_port = htons(p); g.port = p; }
	else if(kind == 1) { g.fam = AF_INET6; g.n = 16; a.m_addr.s.sa_family = AF_INET6; memcpy(&a.m_addr.s6.sin6_addr, b, 16); a.m_addr.s6.sin6_port = htons(p); g.port = p; }
	else { g.fam = AF_UNSPEC; g.n = 0; a.m_addr.s.sa_family = AF_UNSPEC; g.port = 0; }
	return g;
}
static void is(const Address &a, const G &g, const char *lbl) {
	v_assert(a.getFamily() == g.fam and a.getPort() == g.port and a.getIPAddressLength() == g.n and a.getOrigin() == g.origin, lbl);
	const uint8_t *p = a.getIPAddressPtr(); v_assert((p == nullptr) == (g.n == 0), lbl); bool e = true; for(size_t i = 0; i < g.n; i++) e &= p[i] == g.ip[i]; v_assert(e, lbl);
}
ENTRY h_P03_encode() {
	Address a; G g = mk(a, v_choose(3, "kind"), "a"); v_cover("encode"); is(a, g, "accessors"); size_t el = g.n ? g.n + 3 : 0;
	v_assert(a.getEncodedLength() == el, "encoded length");
	uint8_t *d = (uint8_t *)malloc(el ? el : 1); size_t r = a.encode(d); v_assert(r == el, "writes exactly the encoded length"); is(a, g, "encoding changes nothing");
	if(el) {
		v_assert(d[0] == ((g.fam == AF_INET6 ? 0x80 : 0) | g.origin) and d[el - 2] == g.port >> 8 and d[el - 1] == (g.port & 0xff), "flags and port"); bool e = true; for(size_t i = 0; i < g.n; i++) e &= d[1 + i] == g.ip[i]; v_assert(e, "host bytes");
		auto v = a.encode(); v_assert(v.size() == el and memcmp(v.data(), d, el) == 0, "vector form agrees");
		Address b; G h = mk(b, v_choose(3, "kind2"), "b"); v_assert(b.setFromEncoding(d, d + el) == el, "consumes exactly its encoding"); is(b, g, "round trip"); v_assert(b == a and a == b and not (a < b) and not (b < a), "round trip yields an equal address"); v_cover("round trip");
		v_assert(b.setFromEncoding(d, d + el - 1) == 0, "an incomplete encoding is refused"); is(b, g, "a refused encoding changes nothing");
	} else v_assert(a.encode().empty(), "nothing to encode");
	uint8_t o[16]; size_t n = a.getIPAddress(o); v_assert(n == g.n and memcmp(o, g.ip, n) == 0, "host bytes"); auto w = a.getIPAddress(); v_assert(w.size() == g.n and memcmp(w.data(), g.ip, g.n) == 0, "host bytes");
	free(d);
}
ENTRY h_P03_decode() {
	Address a; G g = mk(a, v_choose(3, "kind"), "a"); size_t n = nd64("n"); v_assume(n <= 64); const uint8_t *b = (const uint8_t *)v_bytes(n, "wire"); v_cover("decode");
	size_t r = a.setFromEncoding(b, b + n);
	bool six = n and (b[0] & 0x80); size_t need = six ? 19 : 7; v_assert(r == (n >= need ? need : 0), "accepts exactly complete encodings");
	if(r) { v_cover("accepted"); G h = {}; h.fam = six ? AF_INET6 : AF_INET; h.n = six ? 16 : 4; for(size_t i = 0; i < h.n; i++) h.ip[i] = b[1 + i]; h.port = b[need - 2] << 8 | b[need - 1]; h.origin = b[0] & 3; is(a, h, "decoded fields"); }
	else is(a, g, "a refused encoding changes nothing");
	v_assert(a.setFromEncoding(b + n, b) == 0 or n == 0, "a reversed range is empty");
}
static int cmp(const G &a, const G &b) {
	int r = (a.port > b.port) - (a.port < b.port); if(a.n == 0) r = 0;
	for(size_t i = a.n; i-- > 0; ) r = a.ip[i] != b.ip[i] ? (a.ip[i] < b.ip[i] ? -1 : 1) : r;
	return a.fam != b.fam ? (a.fam < b.fam ? -1 : 1) : r;
}
ENTRY h_P03_compare() {
	Address a, b; G g = mk(a, v_choose(3, "ka"), "a"), h = mk(b, v_choose(3, "kb"), "b"); v_cover("compare");
	int c = cmp(g, h); bool eq = a == b, lt = a < b, gt = b < a;
	v_assert(eq == (c == 0), "equal exactly when family, host and port agree"); v_assert(lt == (c < 0) and gt == (c > 0), "ordered by family, host, port"); v_assert((int)eq + (int)lt + (int)gt == 1, "trichotomy"); is(a, g, "comparing changes nothing"); is(b, h, "comparing changes nothing");
}
ENTRY h_P03_copy() {
	Address a; G g = mk(a, v_choose(3, "ka"), "a"); Address b(a); is(b, g, "copy"); v_assert(a == b, "copy equal"); Address c; mk(c, v_choose(3, "kb"), "b"); c = a; is(c, g, "assignment"); is(a, g, "source unchanged"); v_cover("copy");
	a.erase(); v_assert(a.getFamily() == AF_UNSPEC and a.getPort() == 0, "erased"); Address d; v_assert(d.getFamily() == AF_UNSPEC and d.getOrigin() == Address::ORIGIN_UNKNOWN, "default");
}
ENTRY h_P03_edit() {
	Address a; G g = mk(a, v_choose(3, "kind"), "a"); size_t op = v_choose(5, "op"); v_cover("edit");
	switch(op) {
	case 0: { unsigned p = nd16("newport"); a.setPort(p); if(g.n) g.port = p; is(a, g, "changing the port changes nothing else"); break; }
	case 1: { size_t n = v_choose(18, "n"); const uint8_t *b = (const uint8_t *)v_bytes(n, "newip"); bool r = a.setIPAddress(b, n); v_assert(r == (n == 4 or n == 16), "only 4 and 16 byte hosts"); if(r) { g.fam = n == 4 ? AF_INET : AF_INET6; g.n = n; for(size_t i = 0; i < n; i++) g.ip[i] = b[i]; } is(a, g, "changing the host keeps port and origin"); break; }
	case 2: { a.setOrigin(Address::ORIGIN_RELAY); g.origin = 3; is(a, g, "changing the origin changes nothing else"); break; }
	case 3: { int f = (int)nd32("family"); bool map46 = g.fam == AF_INET, mapped = true; static const uint8_t pre[12] = {0,0,0,0,0,0,0,0,0,0,0xff,0xff}; for(int i = 0; i < 12; i++) mapped &= g.ip[i] == pre[i];
		bool can = f == g.fam or (f == AF_INET6 and map46) or (f == AF_INET and g.fam == AF_INET6 and mapped); v_assert(a.canMapToFamily(f) == can, "which families an address maps to");
		bool r = a.setFamily(f); v_assert(r == (f == AF_INET or f == AF_INET6), "only internet families");
		if(r and f != g.fam) { uint8_t o[16] = {}; if(can) { if(f == AF_INET) memcpy(o, g.ip + 12, 4); else { o[10] = o[11] = 0xff; memcpy(o + 12, g.ip, 4); } } g.fam = f; g.n = f == AF_INET ? 4 : 16; memcpy(g.ip, o, 16); }
		is(a, g, "changing the family keeps port, origin and mapped host"); break; }
	case 4: { union Address::in_sockaddr *s = nullptr; size_t k = v_choose(3, "k"); s = (union Address::in_sockaddr *)v_words(k == 0 ? sizeof(sockaddr_in) : sizeof(*s), "sockaddr"); s->s.sa_family = k == 0 ? AF_INET : k == 1 ? AF_INET6 : AF_UNIX; bool r = a.setSockaddr(&s->s); v_assert(r == (k < 2), "only internet socket addresses");
		if(r) { g.fam = k ? AF_INET6 : AF_INET; g.n = k ? 16 : 4; g.port = ntohs(k ? s->s6.sin6_port : s->s4.sin_port); memcpy(g.ip, k ? (uint8_t *)&s->s6.sin6_addr : (uint8_t *)&s->s4.sin_addr, g.n); v_assert(a.getSockaddrLen() == (k ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) and memcmp(a.getSockaddr(), s, a.getSockaddrLen()) == 0, "copied exactly"); Address c(&s->s, Address::ORIGIN_OBSERVED); g.origin ^= 0; v_assert(c == a and c.getOrigin() == Address::ORIGIN_OBSERVED, "constructor agrees"); }
		v_assert(not a.setSockaddr(nullptr), "null refused"); is(a, g, "host and port from the socket address, origin kept"); break; }
	}
}
