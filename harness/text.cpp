// contracts for Hex, Checksums and the string helpers of URIParse
#include "common.hpp"
extern "C" { // C locale character classes
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if(not *a) break; } return 0; }
void *v_memchr(const void *s, int c, size_t n) __asm__("memchr");
void *v_memchr(const void *s, int c, size_t n) { for(size_t i = 0; i < n; i++) if(((const unsigned char *)s)[i] == (unsigned char)c) return (void *)((const char *)s + i); return 0; }
int tolower(int c) { return c >= 'A' and c <= 'Z' ? c + 32 : c; }
}
#include "src/Hex.cpp"
#include "src/Checksums.cpp"
#include "include/rtmfp/URIParse.hpp"
// URIParse::parse uses std::regex (outside the verifier's reach): only the helpers below are under contract
#define regex_match(...) regex_match_unused(__VA_ARGS__)
namespace std { template <class A> struct vsm { A operator[](int) const { return A(); } }; typedef vsm<string> v_smatch; struct v_regex { v_regex(const char *) {} }; inline bool regex_match_unused(const string &, v_smatch &, const v_regex &) { return false; } }
#define smatch v_smatch
#define regex v_regex
#define _GLIBCXX_REGEX 1
#include "src/URIParse.cpp"
#undef regex
#undef smatch
#undef regex_match
using namespace com::zenomt;

static int hexval(uint8_t c) { return c >= '0' and c <= '9' ? c - '0' : c >= 'a' and c <= 'f' ? c - 'a' + 10 : c >= 'A' and c <= 'F' ? c - 'A' + 10 : -1; }
ENTRY h_P28_digit() {
	uint8_t c = nd8("c"); v_cover("digit"); int h = hexval(c), r = Hex::decodeDigit((char)c);
	v_assert(h >= 0 ? r == h : r < 0, "decodeDigit is the digit value, or negative for anything else");
	char s[3] = {(char)nd8("a"), (char)nd8("b"), 0}; int a = hexval((uint8_t)s[0]), b = hexval((uint8_t)s[1]);
	v_assert(Hex::decodeByte(s) == (a >= 0 and b >= 0 ? a * 16 + b : -1), "decodeByte needs exactly two digits");
}
ENTRY b_P28_roundtrip() {
	v_cfg("unroll", 12); size_t n = v_choose(5, "n"); uint8_t *d = (uint8_t *)v_bytes(n, "bytes"); v_cover("roundtrip");
	std::string s = Hex::encode(d, n);
	v_assert(s.size() == 2 * n, "two digits per byte");
	for(size_t i = 0; i < 2 * n; i++) { int h = hexval((uint8_t)s[i]); v_assert(h >= 0 and not (s[i] >= 'A' and s[i] <= 'F'), "lower case hex digits"); v_assert(h == (i & 1 ? d[i / 2] & 15 : d[i / 2] >> 4), "digit value"); }
	std::vector<uint8_t> o; o.push_back(7); bool r = Hex::decode(s.c_str(), o);
	v_assert(r and o.size() == n + 1 and o[0] == 7, "decoding appends the bytes"); for(size_t i = 0; i < n; i++) v_assert(o[i + 1] == d[i], "decode(encode(x)) == x");
	v_assert(Hex::encode(o) == "07" + s, "vector overload");
}
ENTRY b_P28_decode() {
	v_cfg("unroll", 12); size_t n = v_choose(4, "n"); char s[5]; for(size_t i = 0; i < n; i++) { s[i] = (char)nd8("c"); v_assume(s[i] != 0); } s[n] = 0; v_cover("decode");
	bool good = true; uint8_t ex[4]; size_t k = 0; int hi = -1;
	for(size_t i = 0; i < n; i++) { int h = hexval((uint8_t)s[i]); if(h < 0) { if(hi >= 0 or not isspace(s[i])) good = false; } else if(hi < 0) hi = h; else { ex[k++] = hi * 16 + h; hi = -1; } if(not good) break; }
	if(hi >= 0) good = false;
	std::vector<uint8_t> o; o.push_back(9); bool r = Hex::decode(s, o);
	v_assert(r == good, "accepts exactly pairs of digits separated by white space");
	v_assert(o.size() == (good ? k + 1 : 1) and o[0] == 9, "a failed decode leaves the destination as it was"); if(good) for(size_t i = 0; i < k; i++) v_assert(o[i + 1] == ex[i], "decoded bytes");
}
ENTRY h_P28_crc_step() {
	// one byte of both CRCs against the polynomial definition, from any register value
	uint32_t c = nd32("crc"); uint8_t b[1] = {nd8("b")}; v_cover("crc");
	uint32_t le = c ^ b[0]; for(int i = 0; i < 8; i++) le = (le >> 1) ^ (0xEDB88320u & (0u - (le & 1)));
	uint32_t be = c ^ ((uint32_t)b[0] << 24); for(int i = 0; i < 8; i++) be = (be << 1) ^ (0x04C11DB7u & (0u - (be >> 31)));
	v_assert(crc32_le(c, b, 1) == le, "reflected CRC-32 step"); v_assert(crc32_be(c, b, 1) == be, "CRC-32 step");
	v_assert(crc32_le(b, 1) == crc32_le(0xffffffffu, b, 1) and crc32_be(b, 1) == crc32_be(0xffffffffu, b, 1), "initial register is all ones");
	v_assert(crc32_le(c, b, 0) == c and crc32_be(c, b, 0) == c, "empty input");
}
ENTRY b_P28_crc_chain() {
	size_t n = v_choose(4, "n"), k = v_choose(n + 1, "k"); uint8_t b[4]; for(size_t i = 0; i < n; i++) b[i] = nd8("b"); uint32_t c = nd32("crc"); v_cover("chain");
	v_assert(crc32_le(c, b, n) == crc32_le(crc32_le(c, b, k), b + k, n - k), "CRC-LE of a concatenation is the chained CRC");
	v_assert(crc32_be(c, b, n) == crc32_be(crc32_be(c, b, k), b + k, n - k), "CRC-BE of a concatenation is the chained CRC");
}
ENTRY b_P28_cksum() {
	v_cfg("unroll", 40); size_t n = v_choose(6, "n"); uint8_t b[9]; for(size_t i = 0; i < n; i++) b[i] = nd8("b"); v_cover("cksum");
	uint32_t s = 0; for(size_t i = 0; i + 1 < n; i += 2) s += b[i] * 256u + b[i + 1]; if(n & 1) s += b[n - 1];
	while(s >> 16) s = (s & 0xffff) + (s >> 16);
	v_assert(in_cksum(b, n) == (uint16_t)~s, "one's complement of the one's complement sum");
	if(n) { size_t i = v_choose(n, "flip at"); uint8_t m = nd8("mask"); v_assume(m != 0); uint16_t a = in_cksum(b, n); b[i] ^= m; uint16_t z = in_cksum(b, n); v_assert(a != z or (uint16_t)(a + 1) <= 1, "a changed byte changes the checksum"); }
}
// every read stays inside the buffer, for any length
ENTRY h_P28_memory() {
	v_cfg("inv", 1); size_t n = nd64("n"); v_assume(n <= 1 << 16); uint8_t *b = (uint8_t *)v_bytes(n, "b"); v_cover("memory");
	int which = (int)v_choose(3, "which");
	if(which == 0) { uint32_t r = crc32_le(nd32("c"), b, n); v_print("r", r); } else if(which == 1) { uint32_t r = crc32_be(nd32("c"), b, n); v_print("r", r); } else { uint16_t r = in_cksum(b, n); v_print("r", r); }
}
static std::string str(size_t n, const char *nm) { std::string s; for(size_t i = 0; i < n; i++) s.push_back((char)nd8(nm)); return s; }
ENTRY b_P33_split() {
	v_cfg("unroll", 16); size_t n = v_choose(6, "n"); std::string s = str(n, "c"); size_t max = v_choose(4, "max"); char sep = (char)nd8("sep"); v_cover("split");
	std::vector<std::string> p = URIParse::split(s, sep, max);
	size_t seps = 0; for(size_t i = 0; i < n; i++) seps += s[i] == sep;
	size_t want = max and seps + 1 > max ? max : seps + 1;
	v_assert(p.size() == want, "one more part than separators, limited to maxParts");
	std::string j; for(size_t i = 0; i < p.size(); i++) { if(i) j.push_back(sep); j += p[i]; }
	v_assert(j == s, "joining the parts gives the string back");
	for(size_t i = 0; i + 1 < p.size(); i++) v_assert(p[i].find(sep) == std::string::npos, "only the last part may contain the separator");
	v_assert(URIParse::split(s, std::string()).empty(), "no separators: no parts");
}
ENTRY b_P33_percent() {
	v_cfg("unroll", 16); size_t n = v_choose(7, "n"); std::string s = str(n, "c"); for(size_t i = 0; i < n; i++) v_assume(s[i] != 0); v_cover("percent");
	std::string want; bool bad = false;
	for(size_t i = 0; i < n; i++) { if(s[i] == '%') { int a = i + 1 < n ? hexval((uint8_t)s[i + 1]) : -1, b = i + 2 < n ? hexval((uint8_t)s[i + 2]) : -1; if(a < 0 or b < 0 or a + b == 0) { bad = true; break; } want.push_back((char)(a * 16 + b)); i += 2; } else want.push_back(s[i]); }
	std::string r = URIParse::percentDecode(s);
	v_assert(bad ? r.empty() : r == want, "percent decoding, empty on malformed escapes and NUL");
	v_assert(URIParse::safePercentDecode(s) == (bad or want.empty() ? s : want), "safe variant falls back to the input");
	std::string l = URIParse::lowercase(s); v_assert(l.size() == n, "lowercase keeps the length"); for(size_t i = 0; i < n; i++) v_assert(l[i] == (char)tolower(s[i]), "lowercase");
}
ENTRY b_P33_dots() {
	v_cfg("unroll", 40); size_t n = v_choose(8, "n"); std::string s; for(size_t i = 0; i < n; i++) { static const char al[] = "/.a"; s.push_back(al[v_choose(3, "c")]); } v_cover("dots");
	std::string r = URIParse::removeDotSegments(s);
	v_assert(r.size() <= s.size(), "never longer");
	std::vector<std::string> seg = URIParse::split(r, '/');
	for(auto &e : seg) v_assert(e != "." and e != "..", "no dot segments are left");
	if(n and s[0] == '/') v_assert(not r.empty() and r[0] == '/', "an absolute path stays absolute");
	v_assert(URIParse::removeDotSegments(r) == r, "idempotent");
}
ENTRY b_P33_merge() {
	v_cfg("unroll", 16); URIParse u; u.path = str(v_choose(4, "n"), "p"); if(ndb("auth")) u.authorityPart = "//h"; std::string rel = str(v_choose(3, "m"), "r"); v_cover("merge");
	std::string r = u.mergedRelativePath(rel);
	std::string want;
	if(rel.empty() or rel[0] == '/') want = rel;
	else if(not u.authorityPart.empty() and u.path.empty()) want = "/" + rel;
	else { size_t k = 0; for(size_t i = 0; i < u.path.size(); i++) if(u.path[i] == '/') k = i + 1; want = u.path.substr(0, k) + rel; }
	v_assert(r == want, "merge per RFC 3986 5.2.3");
}
