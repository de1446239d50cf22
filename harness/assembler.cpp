// contracts for PacketAssembler: arbitrary well-formed assembler state, one operation, arbitrary arguments
#include "common.hpp"
#include "src/VLU.cpp"
#include "src/PacketAssembler.cpp"
using namespace com::zenomt::rtmfp;

struct Pre { PacketAssembler a; uint8_t *buf; size_t cap, cur, maxLen; size_t probe; uint8_t probeVal; };
// representation invariant: m_buf <= m_cursor <= m_limit, an open chunk has its 3 byte header before m_currentChunkStart
static void pre(Pre &p, bool open) {
	p.cap = nd64("cap"); p.maxLen = nd64("maxLen"); v_assume(p.maxLen <= p.cap and p.cap <= 1 << 20);
	p.buf = (uint8_t *)v_bytes(p.cap, "buf");
	p.cur = nd64("cursor"); v_assume(p.cur <= p.maxLen);
	p.a.init(p.buf, 0, p.maxLen);
	p.a.m_cursor = p.buf + p.cur;
	if(open) { size_t cs = nd64("chunkStart"); v_assume(cs >= 3 and cs <= p.cur); p.a.m_currentChunkStart = p.buf + cs; }
	p.probe = nd64("probe"); v_assume(p.probe < p.cap); p.probeVal = p.buf[p.probe];
}
static void inv(Pre &p) {
	v_assert(p.a.m_buf == p.buf and p.a.m_limit == p.buf + p.maxLen, "buffer and limit unchanged");
	v_assert(p.a.m_cursor >= p.buf and p.a.m_cursor <= p.a.m_limit, "cursor inside the packet");
	v_assert(p.a.remaining() == p.maxLen - (size_t)(p.a.m_cursor - p.buf), "remaining is the space left");
}
static void onlyWrote(Pre &p, size_t from, size_t to) { if(p.probe < from or p.probe >= to) v_assert(p.buf[p.probe] == p.probeVal, "nothing outside the appended range is written"); }

ENTRY h_P02_init() {
	size_t cap = nd64("cap"), fm = nd64("frontMargin"), ml = nd64("maxLen"); v_assume(cap <= 1 << 20 and fm <= ml and ml <= cap);
	uint8_t *b = (uint8_t *)v_bytes(cap, "buf"); PacketAssembler a; size_t pr = nd64("probe"); v_assume(pr < cap); uint8_t pv = b[pr];
	v_cover("init");
	if(ndb("flags given")) {
		uint8_t f = nd8("flags"); long ts = (long)nd64("ts"), tse = (long)nd64("tse");
		size_t h = 1 + (ts >= 0 ? 2 : 0) + (tse >= 0 ? 2 : 0); v_assume(ml - fm >= h);
		a.init(b, fm, ml, f, ts, tse);
		v_assert(a.m_cursor == b + fm + h, "header length");
		v_assert(b[fm] == ((f & ~(HEADER_FLAG_TS | HEADER_FLAG_TSE)) | (ts >= 0 ? HEADER_FLAG_TS : 0) | (tse >= 0 ? HEADER_FLAG_TSE : 0)), "flags byte announces exactly the timestamps present");
		size_t o = fm + 1;
		if(ts >= 0) { v_assert(b[o] == ((ts >> 8) & 0xff) and b[o + 1] == (ts & 0xff), "timestamp is big endian 16 bits"); o += 2; }
		if(tse >= 0) { v_assert(b[o] == ((tse >> 8) & 0xff) and b[o + 1] == (tse & 0xff), "timestamp echo is big endian 16 bits"); o += 2; }
		if(pr < fm or pr >= fm + h) v_assert(b[pr] == pv, "header only");
		uint8_t before = b[fm];
		v_assert(a.getTimeCriticalFlag() == !!(before & 0x80), "time critical flag read");
		a.setTimeCriticalFlag();
		v_assert(b[fm] == (before | 0x80) and a.getTimeCriticalFlag(), "time critical flag set");
	} else { a.init(b, fm, ml); v_assert(a.m_cursor == b + fm and b[pr] == pv, "no header"); }
	v_assert(a.remaining() == ml - (size_t)(a.m_cursor - b) and a.m_currentChunkStart == nullptr and a.m_limit == b + ml, "initial state");
}
ENTRY h_P02_startChunk() {
	Pre p; pre(p, ndb("open")); uint8_t t = nd8("type"); v_cover("startChunk");
	auto oldStart = p.a.m_currentChunkStart;
	bool r = p.a.startChunk(t); inv(p);
	v_assert(r == (p.maxLen - p.cur >= 3), "a chunk starts iff its header fits");
	if(r) { v_assert(p.a.m_cursor == p.buf + p.cur + 3 and p.a.m_currentChunkStart == p.a.m_cursor, "header reserved"); v_assert(p.buf[p.cur] == t, "type byte"); onlyWrote(p, p.cur, p.cur + 3); }
	else { v_assert(p.a.m_cursor == p.buf + p.cur and p.a.m_currentChunkStart == oldStart, "failure changes nothing"); onlyWrote(p, 0, 0); }
}
ENTRY h_P02_push() {
	Pre p; pre(p, ndb("open")); auto cs = p.a.m_currentChunkStart; v_cover("push");
	if(ndb("byte")) { uint8_t x = nd8("x"); bool r = p.a.push(x); inv(p); v_assert(r == (p.maxLen > p.cur), "byte fits"); v_assert(p.a.m_cursor == p.buf + p.cur + r, "cursor"); if(r) v_assert(p.buf[p.cur] == x, "byte stored"); onlyWrote(p, p.cur, p.cur + r); }
	else {
		size_t n = nd64("n"); v_assume(n <= 1 << 20); uint8_t *d = (uint8_t *)v_bytes(n, "data");
		bool r = p.a.push((const void *)d, n); inv(p);
		v_assert(r == (p.maxLen - p.cur >= n), "bytes pushed iff they all fit");
		v_assert(p.a.m_cursor == p.buf + p.cur + (r ? n : 0), "cursor");
		if(r) { size_t i = nd64("i"); v_assume(i < n); v_assert(p.buf[p.cur + i] == d[i], "bytes copied in order"); }
		onlyWrote(p, p.cur, p.cur + (r ? n : 0));
	}
	v_assert(p.a.m_currentChunkStart == cs, "open chunk unaffected");
}
ENTRY h_P02_pushVLU() {
	Pre p; pre(p, ndb("open")); uint64_t x = nd64("x"); v_cover("vlu");
	uint8_t e[10]; size_t n = VLU::encode(x, e);
	bool r = p.a.pushVLU(x); inv(p);
	v_assert(r == (p.maxLen - p.cur >= n), "VLU pushed iff it fits"); v_assert(p.a.m_cursor == p.buf + p.cur + (r ? n : 0), "cursor");
	if(r) for(size_t i = 0; i < n; i++) v_assert(p.buf[p.cur + i] == e[i], "VLU bytes");
	onlyWrote(p, p.cur, p.cur + (r ? n : 0));
}
ENTRY h_P02_pushField() {
	Pre p; pre(p, ndb("open")); size_t n = nd64("n"); v_assume(n <= 1 << 20); uint8_t *d = (uint8_t *)v_bytes(n, "data"); v_cover("field");
	uint8_t e[10]; size_t h = VLU::encode(n, e);
	bool r = p.a.pushField(d, n); inv(p);
	v_assert(r == (p.maxLen - p.cur >= n + h), "field pushed iff prefix and payload fit");
	v_assert(p.a.m_cursor == p.buf + p.cur + (r ? n + h : 0), "cursor restored on failure");
	if(r) { size_t i = nd64("i"); v_assume(i < n); v_assert(p.buf[p.cur + h + i] == d[i], "payload"); for(size_t k = 0; k < h; k++) v_assert(p.buf[p.cur + k] == e[k], "length prefix"); onlyWrote(p, p.cur, p.cur + h + n); }
}
ENTRY h_P02_commit() {
	Pre p; pre(p, true); size_t cs = p.a.m_currentChunkStart - p.buf; v_assume(p.cur - cs <= 0xffff); v_cover("commit");
	p.a.commitChunk(); inv(p);
	v_assert(p.buf[cs - 2] * 256u + p.buf[cs - 1] == p.cur - cs, "chunk length field equals the payload length");
	v_assert(p.a.m_cursor == p.buf + p.cur and p.a.m_currentChunkStart == nullptr, "chunk closed");
	onlyWrote(p, cs - 2, cs);
}
ENTRY h_P02_rollback() {
	bool open = ndb("open"); Pre p; pre(p, open); size_t cs = open ? p.a.m_currentChunkStart - p.buf : 0; v_cover("rollback");
	p.a.rollbackChunk(); inv(p);
	v_assert(p.a.m_cursor == p.buf + (open ? cs - 3 : p.cur) and p.a.m_currentChunkStart == nullptr, "rollback returns to where the chunk began");
	onlyWrote(p, 0, 0);
}
ENTRY h_P02_toVector() {
	Pre p; pre(p, false); v_assume(p.cur <= 4096); v_cover("toVector");
	std::vector<uint8_t> v = p.a.toVector();
	v_assert(v.size() == p.cur, "packet length"); size_t i = nd64("i"); v_assume(i < p.cur); v_assert(v[i] == p.buf[i], "packet bytes");
}
