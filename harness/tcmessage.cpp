// contracts for TC message framing, metadata, commands and media payload classification
#include "common.hpp"
#include "src/Object.cpp"
#include "src/VLU.cpp"
#include "src/AMF.cpp"
#include "src/TCMessage.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmp;
using namespace com::zenomt::rtmfp;
ENTRY h_P25_header() {
	size_t n = nd64("n"); const uint8_t *b = (const uint8_t *)v_bytes(n, "message"); uint8_t t0 = nd8("t0"), t = t0; uint32_t s0 = nd32("s0"), s = s0; bool wt = ndb("wantType"), ws = ndb("wantTime"); v_cover("header");
	size_t r = TCMessage::parseHeader(b, b + n, wt ? &t : nullptr, ws ? &s : nullptr);
	v_assert(r == (n >= 5 ? 5 : 0), "a header is five bytes");
	if(r) { v_cover("ok"); v_assert((not wt or t == b[0]) and (not ws or s == ((uint32_t)b[1] << 24 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 8 | b[4])), "type and timestamp"); } else v_assert(t == t0 and s == s0, "refused input sets nothing");
}
ENTRY h_P25_message() {
	uint8_t t = nd8("type"); uint32_t s = nd32("ts"); size_t n = nd64("n"); v_assume(n <= 1 << 20); uint8_t *p = (uint8_t *)v_bytes(n, "payload"); v_cover("message");
	bool vec = ndb("vec"), none = not vec and ndb("none"); Bytes m;
	if(vec) { Bytes v; v_setvec(v, p, n, n); m = TCMessage::message(t, s, v); v_setvec(v, (uint8_t *)nullptr, 0, 0); } else m = TCMessage::message(t, s, none ? nullptr : p, n);
	size_t en = none ? 0 : n; v_assert(m.size() == 5 + en, "header and payload, nothing else");
	uint8_t t2; uint32_t s2; v_assert(TCMessage::parseHeader(m.data(), m.data() + m.size(), &t2, &s2) == 5 and t2 == t and s2 == s, "round trip");
	size_t i = nd64("i"); if(i < en) v_assert(m[5 + i] == p[i], "payload unchanged");
}
// contract of VLU::parse (discharged for P01), standing in for its body: the result is some prefix length and value, the same for the same input
static size_t g_vlen; static uintmax_t g_vval; static const uint8_t *g_vsrc, *g_vlimit; static int g_vcalls;
STUB_FOR("h_P25_metadata", "com::zenomt::rtmfp::VLU::parse")
static size_t vluParseContract(const uint8_t *src, const uint8_t *limit, uintmax_t *val, bool sat) { v_assert(src == g_vsrc and limit == g_vlimit and sat, "the stream ID is parsed after the flags, saturating, up to the end"); if(g_vlen and val) *val = g_vval; return g_vlen; }
ENTRY h_P25_metadata() {
	size_t n = nd64("n"); const uint8_t *b = (const uint8_t *)v_bytes(n, "metadata"); uint32_t id = 77; ReceiveOrder ro = RO_HOLD; v_cover("metadata"); g_vsrc = b + 3; g_vlimit = b + n; g_vlen = nd64("vlen"); g_vval = nd64("vval"); v_assume(n < 4 or g_vlen <= n - 3);
	size_t r = TCMetadata::parse(b, b + n, &id, &ro); v_assert(r <= n, "inside the input");
	bool pre = n >= 4 and b[0] == 'T' and b[1] == 'C' and (b[2] & 4), ok = pre and g_vlen and g_vval <= 0xffffffffu;
	v_assert(r == (ok ? 3 + g_vlen : 0), "accepted exactly with the prefix, the stream ID flag and a complete 32-bit stream ID");
	if(r) { v_cover("accepted"); v_assert(id == g_vval and ro == ((b[2] & 1) ? RO_NETWORK : RO_SEQUENCE), "stream ID and receive intent"); } else v_assert(id == 77 and ro == RO_HOLD, "refused input sets nothing");
	v_assert(TCMetadata::parse(b, b + n, nullptr, nullptr) == r, "outputs are optional");
}
ENTRY h_P25_metadataRT() {
	uint32_t id = nd32("id"), o; ReceiveOrder ro = ndb("net") ? RO_NETWORK : RO_SEQUENCE, ro2; Bytes m = TCMetadata::encode(id, ro); v_cover("metadata");
	v_assert(TCMetadata::parse(m, &o, &ro2) == m.size() and o == id and ro2 == ro, "round trip"); v_assert(m.size() >= 4 and m[0] == 'T' and m[1] == 'C' and m[2] == (4 | (ro == RO_NETWORK)), "layout");
	size_t cut = nd64("cut"); v_assume(cut < m.size()); v_assert(TCMetadata::parse(m.data(), m.data() + cut, &o, &ro2) == 0, "truncated metadata is refused");
}
// commands: string name, number, object or null, then the arguments
static size_t isHead(const Bytes &m, bool ext, const char *name, size_t ln, double tid) {
	size_t h = ext; union { double d; uint64_t u; } x; x.d = tid; v_assert(m.size() >= h + 3 + ln + 9, "command head present"); if(ext) v_assert(m[0] == 0, "format byte");
	v_assert(m[h] == 2 and m[h + 1] == 0 and m[h + 2] == ln and memcmp(m.data() + h + 3, name, ln) == 0 and m[h + 3 + ln] == 0, "command name"); uint64_t u = 0; for(int i = 0; i < 8; i++) u = u << 8 | m[h + 4 + ln + i]; v_assert(u == x.u, "transaction ID"); return h + 12 + ln;
}
ENTRY b_P25_command() {
	bool ext = ndb("ext"); size_t how = v_choose(6, "how"); size_t ln = v_choose(3, "ln"); const char *nm = ln == 0 ? "" : ln == 1 ? "x" : "ab"; static const double td[3] = { 0, 7, -1.5 }; double tid = td[v_choose(3, "tid")]; bool b = ndb("b"); uint8_t pl[3] = { nd8("p0"), nd8("p1"), nd8("p2") }; size_t pn = v_choose(4, "pn"); v_cover("command");
	bool frame = ndb("frame"), obj = ndb("obj"); AMF0Boolean o(b); Bytes m; const AMF0 *op = obj ? &o : nullptr; std::vector<uint8_t> tail; if(how < 5) { if(obj) { tail.push_back(1); tail.push_back(b); } else tail.push_back(5); }
	Bytes pv(pl, pl + pn);
	switch(how) {
	case 0: m = frame ? TCMessage::command(nm, tid, op, pl, pn, ext) : Message::command(nm, tid, op, pl, pn, ext); tail.insert(tail.end(), pl, pl + pn); break;
	case 1: m = frame ? TCMessage::command(nm, tid, op, pv, ext) : Message::command(nm, tid, op, pv, ext); tail.insert(tail.end(), pl, pl + pn); break;
	case 2: { ext = false; AMF0Boolean i(not b); const AMF0 *ip = &i; m = frame ? TCMessage::command(nm, tid, op, ip) : Message::command(nm, tid, op, ip); tail.push_back(1); tail.push_back(not b); break; }
	case 3: { ext = false; const AMF0 *ip = nullptr; m = frame ? TCMessage::command(nm, tid, op, ip) : Message::command(nm, tid, op, ip); break; }
	case 4: { ext = false; std::shared_ptr<AMF0> i = AMF0::Null(); m = frame ? TCMessage::command(nm, tid, op, i) : Message::command(nm, tid, op, i); tail.push_back(5); break; }
	case 5: { std::vector<std::shared_ptr<AMF0>> a; a.push_back(AMF0::Boolean(b)); a.push_back(nullptr); if(obj) a.push_back(AMF0::Undefined()); m = frame ? TCMessage::command(nm, tid, a, ext) : Message::command(nm, tid, a, ext); tail.push_back(1); tail.push_back(b); if(obj) tail.push_back(6); break; }
	}
	if(frame) { v_assert(m.size() >= 5 and m[0] == (ext ? TCMSG_COMMAND_EX : TCMSG_COMMAND) and m[1] + m[2] + m[3] + m[4] == 0, "command message header"); m.erase(m.begin(), m.begin() + 5); }
	size_t c = isHead(m, ext, nm, ln, tid); v_assert(m.size() == c + tail.size() and (tail.empty() or memcmp(m.data() + c, tail.data(), tail.size()) == 0), "command object and arguments, nothing else");
}
ENTRY h_P25_timestamps() {
	uint32_t l = nd32("l"), r = nd32("r"), d = l - r; v_cover("timestamps"); bool gt = d != 0 and d <= 0x80000000u, lt = d != 0 and (uint32_t)-d <= 0x80000000u;
	v_assert(Message::timestamp_gt(l, r) == gt and Message::timestamp_lt(l, r) == lt, "modular order");
	if(d != 0x80000000u) v_assert(not (gt and lt) and (gt or lt or l == r), "exactly one of before, equal, after");
	int32_t x = Message::timestamp_diff(l, r); v_assert((uint32_t)x == d, "difference"); v_assert((d == 0x80000000u) or ((x > 0) == gt and (x < 0) == lt), "difference agrees with the order");
}
// payload classification: every predicate over payloads of any length reads at most the first five bytes
struct K { bool enh, mt; unsigned pt, frame, codec; bool avc; };
ENTRY h_P25_video() {
	size_t n = nd64("n"); const uint8_t *p = (const uint8_t *)v_bytes(n, "video"); v_cover("video"); uint8_t b0 = n ? p[0] : 0, b1 = n > 1 ? p[1] : 0;
	bool enh = n >= 5 and (b0 & 0x80); unsigned pt = b0 & 15, frame = (b0 >> 4) & 7; bool mt = enh and pt == 6, avc = not enh and n > 1 and pt == 7;
	v_assert(Message::isVideoEnhanced(p, n) == enh and Message::isVideoEnhancedMetadata(p, n) == (enh and pt == 4) and Message::isVideoEnhancedMultitrack(p, n) == mt, "enhanced");
	v_assert(Message::isVideoInit(p, n) == (enh ? pt == 0 or pt == 5 : avc and b1 == 0), "sequence header");
	bool special = n == 0 or (enh ? pt != 1 and pt != 3 and not mt : avc and b1 != 1);
	v_assert(Message::isVideoSequenceSpecial(p, n) == special, "sequence special"); v_assert(Message::isVideoKeyframe(p, n) == (n and frame == 1 and not special), "keyframe");
	uint32_t c = enh ? (mt ? 0 : (uint32_t)p[1] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 8 | p[4]) : n ? pt : 0; v_assert(Message::getVideoCodec(p, n) == c, "codec");
}
ENTRY h_P25_audio() {
	size_t n = nd64("n"); const uint8_t *p = (const uint8_t *)v_bytes(n, "audio"); v_cover("audio"); uint8_t b0 = n ? p[0] : 0, b1 = n > 1 ? p[1] : 0;
	bool enh = n >= 5 and (b0 & 0xf0) == 0x90; unsigned pt = b0 & 15; bool mt = enh and pt == 5, mc = enh and pt == 4, end = n == 0 or b0 == 0x92;
	v_assert(Message::isAudioEnhanced(p, n) == enh and Message::isAudioEnhancedMultichannelConfig(p, n) == mc and Message::isAudioEnhancedMultitrack(p, n) == mt, "enhanced");
	bool init = enh ? pt == 0 : n > 1 and (b0 & 0xf0) == 0xa0 and b1 == 0; v_assert(Message::isAudioInit(p, n) == init, "sequence header"); v_assert(Message::isAudioSequenceEnd(p, n) == end, "end of sequence"); v_assert(Message::isAudioSequenceSpecial(p, n) == (end or init or mc), "sequence special");
	uint32_t c = enh ? (mt ? 0x90 : (uint32_t)p[1] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 8 | p[4]) : n ? b0 & 0xf0 : 0; v_assert(Message::getAudioCodec(p, n) == c, "codec");
}
ENTRY h_P25_eos() {
	uint32_t c = nd32("codec"); Bytes m = Message::makeVideoEndOfSequence(c); v_cover("eos");
	if(c > 15) { v_assert(m.size() == 5 and m[0] == 0x92 and ((uint32_t)m[1] << 24 | (uint32_t)m[2] << 16 | (uint32_t)m[3] << 8 | m[4]) == c, "enhanced end of sequence"); v_assert(Message::getVideoCodec(m.data(), 5) == c, "codec round trip"); }
	else if(c == 7) v_assert(m.size() == 5 and m[0] == 0x17 and m[1] == 2 and m[2] + m[3] + m[4] == 0, "AVC end of sequence"); else v_assert(m.empty(), "silence");
	v_assert(Message::isVideoSequenceSpecial(m.data(), m.size()) and not Message::isVideoInit(m.data(), m.size()) and not Message::isVideoKeyframe(m.data(), m.size()), "classified as the end of the sequence");
}
