// contracts for the receiving flow
#include "core.hpp"
// ghost record of the fragments first received for each sequence number, and of what was delivered
struct Ghost { bool got[8], skip[8], dead[8]; uint8_t fra[8], data[8][2]; size_t len[8]; uintmax_t out[8]; size_t outN[8]; int n, complete; bool err; uintmax_t last; bool inOrder; };
static void deliver(Ghost &g, const uint8_t *b, size_t len, uintmax_t sn, size_t cnt) {
	v_assert(sn >= 1 and sn < 7 and g.n < 8, "delivered message carries its own sequence number"); v_assert(cnt >= 1 and sn + cnt <= 7, "fragment count");
	size_t pos = 0;
	for(size_t i = 0; i < cnt; i++) { size_t q = sn + i; v_assert(g.got[q], "every fragment of a delivered message was received"); v_assert(g.fra[q] == (cnt == 1 ? USERDATA_FRA_WHOLE : i == 0 ? USERDATA_FRA_BEGIN : i == cnt - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE), "exactly one begin..end run");
		for(size_t j = 0; j < g.len[q]; j++) { v_assert(pos < len and b[pos] == g.data[q][j], "content is the exact concatenation"); pos++; } }
	v_assert(pos == len, "message length");
	for(int i = 0; i < g.n; i++) v_assert(g.out[i] != sn, "a message is delivered at most once");
	if(g.inOrder and g.n) v_assert(g.out[g.n - 1] < sn, "delivered in sender order");
	g.out[g.n] = sn; g.outN[g.n++] = cnt;
}
static bool wasOut(const Ghost &g, size_t sn) { bool r = false; for(int i = 0; i < g.n; i++) r |= g.out[i] == sn; return r; }
static std::shared_ptr<RecvFlow> flow(World &w, Ghost &g, ReceiveOrder o) {
	auto f = share_ref(new RecvFlow(w.s, 5, nullptr, 0, nullptr), false); f->accept(); f->m_rxOrder = o; g.inOrder = o == RO_SEQUENCE; w.s->m_recvFlows[5] = f;
	f->onMessage = [&g](const uint8_t *b, size_t len, uintmax_t sn, size_t cnt) { deliver(g, b, len, sn, cnt); };
	f->onComplete = [&g](bool e) { g.complete++; g.err = e; };
	return f;
}
static uint8_t pick(const char *n) { return (uint8_t)v_choose(4, n) << 4; }
static void rx(RecvFlow &f, Ghost &g, size_t sn, uintmax_t fsn, uint8_t flags, const uint8_t *d, size_t n) {
	if(not g.got[sn] and not g.skip[sn]) { if(flags & USERDATA_FLAG_ABN) g.skip[sn] = true; else { g.got[sn] = true; g.fra[sn] = flags & USERDATA_FLAG_FRA_MASK; g.len[sn] = n; for(size_t i = 0; i < n; i++) g.data[sn][i] = d[i]; } }
	for(size_t q = 1; q <= fsn; q++) if(not g.got[q]) g.skip[q] = true;
	f.onData(flags, sn, fsn, d, n);
}
static const size_t MAXSN = 5;
static void check(RecvFlow &f, Ghost &g, ReceiveOrder o) {
	size_t csn = 0; while(csn < MAXSN and (g.got[csn + 1] or g.skip[csn + 1])) csn++;
	v_assert(f.getCumulativeAckSequenceNumber() == csn, "cumulative ack is the end of the contiguous run");
	for(size_t a = 1; a <= MAXSN; a++) { if(not g.got[a]) continue; bool whole = g.fra[a] == USERDATA_FRA_WHOLE, full = whole; size_t e = a;
		if(g.fra[a] == USERDATA_FRA_BEGIN) { e = a + 1; while(e <= MAXSN and g.got[e] and g.fra[e] == USERDATA_FRA_MIDDLE) e++; full = e <= MAXSN and g.got[e] and g.fra[e] == USERDATA_FRA_END; }
		v_assert(wasOut(g, a) == (full and (o == RO_NETWORK or e <= csn)), "a complete message is delivered exactly when the receive order lets it"); }
}
static size_t runs(const Ghost &g) { size_t r = 0; bool p = true; for(size_t i = 1; i <= MAXSN; i++) { bool h = g.got[i] or g.skip[i]; if(h and not p) r++; p = h; } return r; }
static size_t csnOf(const Ghost &g) { size_t c = 0; while(c < MAXSN and (g.got[c + 1] or g.skip[c + 1])) c++; return c; }
struct Opt { bool abnAny, fsnAny, fin; size_t k, span; };
static void history(ReceiveOrder o, Opt opt) {
	auto &w = *new World(); auto &g = *new Ghost(); memset(&g, 0, sizeof g); auto f = flow(w, g, o); v_cover("history"); int merges = 0, expect = 0; f->onCumulativeAckDidMerge = [&merges] { merges++; };
	size_t fin = opt.fin ? opt.span : 0; bool finSeen = false;
	for(size_t i = 0; i < opt.k; i++) { bool last = i == opt.k - 1; size_t sn = 1 + v_choose(opt.span, "sn"); uint8_t d[2] = { nd8("d0"), nd8("d1") };
		uint64_t kind = v_choose(opt.abnAny or last ? 5 : 4, "fra"); uint8_t flags = kind == 4 ? USERDATA_FLAG_ABN : (uint8_t)(kind << 4); if(sn == fin) { flags |= USERDATA_FLAG_FIN; finSeen = true; }
		uintmax_t fsn = opt.fsnAny or last ? v_choose(sn + 1, "fsn") : 0; size_t r0 = runs(g), c0 = csnOf(g); bool wasOpen = f->m_state == RecvFlow::RF_OPEN; rx(*f, g, sn, fsn, flags, d, 1 + (i & 1));
		if(o == RO_NETWORK and wasOpen and f->m_state == RecvFlow::RF_OPEN and runs(g) < r0 and csnOf(g) > c0) expect++; v_assert(merges == expect, "the gap-closed callback runs exactly when a gap is closed in network order");
		check(*f, g, o);
		size_t c = csnOf(g), a = c; while(a >= 1 and g.got[a] and g.fra[a] == USERDATA_FRA_MIDDLE) a--; bool pending = c >= 1 and a >= 1 and g.got[a] and g.fra[a] == USERDATA_FRA_BEGIN; bool above = false; for(size_t q = c + 1; q <= MAXSN; q++) above |= g.got[q];
		bool done = finSeen and c == fin and not pending and not above; v_assert(g.complete == (done ? 1 : 0), "completion is reported exactly when everything through the final mark has been dealt with, once"); v_assert(not g.err, "orderly completion"); v_assert((f->m_state == RecvFlow::RF_COMPLETE_LINGER) == (finSeen and c == fin and not above), "the flow concludes exactly when everything through the final mark was received");
		v_assert(f->isOpen() == not done, "a completed flow is closed");
		size_t held = 0; f->m_recv_buffer.valuesDo([&held](std::shared_ptr<RecvFlow::RecvFrag> &x) { held += x->m_data.size() + FRAGMENT_SIZE_BIAS; return true; }); v_assert(f->getBufferedSize() == held, "buffered size is what is held");
		if(done) v_assert(held == 0, "nothing is kept after completion");
	}
}
#ifdef V_THOROUGH
#define K4 5
#else
#define K4 4
#endif
ENTRY b_P07_sequence() { history(RO_SEQUENCE, Opt{ false, false, false, 4, 4 }); }
ENTRY b_P07_network() { history(RO_NETWORK, Opt{ false, false, false, 4, 4 }); }
ENTRY b_P07_skips() { history(v_choose(2, "order") ? RO_NETWORK : RO_SEQUENCE, Opt{ true, true, false, 3, 4 }); }
ENTRY b_P07_final() { history(v_choose(2, "order") ? RO_NETWORK : RO_SEQUENCE, Opt{ true, false, true, 3, 3 }); }
ENTRY bt_P07_long() { history(v_choose(2, "order") ? RO_NETWORK : RO_SEQUENCE, Opt{ false, false, true, 5, 4 }); }
// delivery suspended, then resumed
ENTRY b_P07_hold() {
	auto &w = *new World(); auto &g = *new Ghost(); memset(&g, 0, sizeof g); auto f = flow(w, g, RO_HOLD); v_cover("hold");
	for(size_t i = 0; i < 3; i++) { size_t sn = 1 + v_choose(3, "sn"); uint8_t d[2] = { nd8("d0"), nd8("d1") }; rx(*f, g, sn, 0, (uint8_t)(v_choose(4, "fra") << 4), d, 1 + (i & 1)); v_assert(g.n == 0, "nothing is delivered while suspended"); }
	g.inOrder = true; f->setReceiveOrder(RO_SEQUENCE); v_assert(g.n == 0, "delivery resumes from the run loop"); w.p.run(); check(*f, g, RO_SEQUENCE);
}
// the message callback closes the flow or the session, or suspends delivery
ENTRY b_P07_reentrant() {
	auto &w = *new World(); auto &g = *new Ghost(); memset(&g, 0, sizeof g); ReceiveOrder o = v_choose(2, "order") ? RO_NETWORK : RO_SEQUENCE; auto f = flow(w, g, o); v_cover("reentrant");
	static int act; act = (int)v_choose(4, "action"); auto *fp = f.get();
	f->onMessage = [&g, &w, fp](const uint8_t *b, size_t len, uintmax_t sn, size_t cnt) { deliver(g, b, len, sn, cnt); switch(act) { case 0: fp->close(); break; case 1: fp->closeSession(); break; case 2: fp->setReceiveOrder(RO_HOLD); break; default: fp->close(7); } };
	uint8_t d[2] = { nd8("d0"), nd8("d1") }; int n0 = 0;
	for(size_t i = 0; i < 3; i++) { if(w.s->m_recvFlows.empty()) break; auto hold = w.s->m_recvFlows[5]; rx(*hold, g, 1 + v_choose(3, "sn"), 0, (uint8_t)(v_choose(4, "fra") << 4), d, 2); v_assert(g.n <= 1, "nothing is delivered after the callback ended delivery");
		if(g.n and act == 1) { v_assert(w.s->m_recvFlows.empty() and g.complete == 1 and g.err, "closing the session ends the flow with an error report"); }
		if(g.n and (act == 0 or act == 3)) { v_assert(g.complete == 0, "no callback after the user closed the flow"); v_assert(hold->m_state == RecvFlow::RF_REJECTED and hold->m_exception_code == (act == 3 ? 7 : 0), "the sender is told of the rejection"); v_assert(hold->getBufferedSize() == 0, "buffer released"); } }
}
// sequence numbers anywhere in the 64-bit range
ENTRY b_P07_anywhere() {
	auto &w = *new World(); auto f = share_ref(new RecvFlow(w.s, 5, nullptr, 0, nullptr), false); f->accept(); f->m_rxOrder = RO_NETWORK; uintmax_t base = nd64("base"); v_assume(base >= 1 and base < UINTMAX_MAX - 4); static int n; static uint8_t d[3]; static uintmax_t got; v_cover("anywhere");
	f->onMessage = [](const uint8_t *b, size_t len, uintmax_t sn, size_t cnt) { n++; got = sn; v_assert(len == 3 and cnt == 3, "whole message"); for(int i = 0; i < 3; i++) v_assert(b[i] == d[i], "in sender order"); };
	static const uint8_t F[3] = { USERDATA_FRA_BEGIN, USERDATA_FRA_MIDDLE, USERDATA_FRA_END }; static const uint8_t PERM[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; for(int i = 0; i < 3; i++) d[i] = nd8("d");
	size_t p = v_choose(6, "perm"); for(int i = 0; i < 3; i++) { int q = PERM[p][i]; v_assert(n == 0, "not before it is complete"); f->onData(F[q], base + q, 0, d + q, 1); if(v_choose(2, "dup")) f->onData(F[q], base + q, 0, d, 1); }
	v_assert(n == 1 and got == base, "delivered once with its sequence number");
}
// ---- P08
static std::shared_ptr<RecvFlow> ackFlow(World &w, size_t ranges, uintmax_t lim, uintmax_t *lo, uintmax_t *hi) {
	auto f = share_ref(new RecvFlow(w.s, 5, nullptr, 0, nullptr), false); f->accept(); f->m_should_ack = true; uintmax_t p = 0;
	for(size_t i = 0; i < ranges; i++) { lo[i] = i ? nd64("lo") : 0; hi[i] = nd64("hi"); v_assume((i == 0 or (lo[i] > p and lo[i] - p >= 2)) and hi[i] >= lo[i] and hi[i] < lim and hi[i] - lo[i] < lim); p = hi[i]; f->m_sequence_set.m_ranges.push_back(Range(lo[i], hi[i])); }
	return f;
}
static size_t vlu(const uint8_t *b, size_t n, size_t at, uintmax_t &v) { v = 0; for(size_t i = at; i < n; i++) { v = v << 7 | (b[i] & 0x7f); if(not (b[i] & 0x80)) return i + 1; } return 0; }
// the advertised window, for every capacity, limit, buffered amount and receive order
ENTRY h_P08_window() {
	auto &w = *new World(); uintmax_t lo[3], hi[3]; auto f = ackFlow(w, 1, 128, lo, hi); f->m_flow_id = nd64("flow"); v_assume(f->m_flow_id < 128); size_t cap = nd64("capacity"), lim = nd64("limit"), held = nd64("held"); f->m_buffer_capacity = cap; f->m_window_limit = lim; f->m_recv_buffer.m_sum = held; f->m_rxOrder = (ReceiveOrder)v_choose(3, "order"); v_cover("window");
	uint8_t buf[64]; PacketAssembler p; p.init(buf, 0, sizeof buf); v_assert(f->assembleAck(&p, v_choose(2, "truncate"), false), "an ack fits an empty packet");
	size_t n = p.m_cursor - buf; uintmax_t id, blocks, csn; v_assert(n >= 6 and buf[0] == CHUNK_ACK_RANGES and (size_t)(buf[1] << 8 | buf[2]) == n - 3, "one complete ack chunk"); size_t at = vlu(buf, n, 3, id); v_assert(at and id == f->m_flow_id, "flow ID"); at = vlu(buf, n, at, blocks); v_assert(at, "window"); at = vlu(buf, n, at, csn); v_assert(at == n and csn == hi[0], "cumulative ack");
	size_t bytes = held >= cap ? 0 : cap - held < lim ? cap - held : lim; bool nudge = bytes == 0 and cap > 0 and lim > 0 and f->m_rxOrder != RO_HOLD;
	if(bytes) { v_assert(blocks > 0 and (blocks - 1) < (bytes + 0) / 1024 + (bytes % 1024 ? 1 : 0) and blocks >= bytes / 1024 and (bytes % 1024 == 0 or blocks > bytes / 1024), "window is the free space rounded up to whole blocks"); v_cover("some"); } else { v_assert(blocks == (nudge ? 1 : 0), "nothing free: one block to keep the sender going, none when suspended or unlimited to zero"); v_cover("none"); }
	v_assert(f->m_prev_rwnd == blocks and not f->m_should_ack, "remembers what was advertised");
}
// the acknowledged ranges, for every room left in the packet
ENTRY b_P08_ranges() {
	auto &w = *new World(); uintmax_t lo[3], hi[3]; size_t nr = 1 + v_choose(3, "ranges"); auto f = ackFlow(w, nr, 128, lo, hi); if(v_choose(2, "rejected")) { f->m_state = RecvFlow::RF_REJECTED; f->m_exception_code = 3; } bool rej = f->m_state == RecvFlow::RF_REJECTED, ecn = v_choose(2, "ecn"), tr = v_choose(2, "truncate"); w.s->m_ecn_ce_count = nd64("ce"); v_cover("ranges");
	size_t room = v_choose(32, "room"); uint8_t buf[40]; memset(buf, 0xa5, sizeof buf); PacketAssembler p; p.init(buf, 2, 2 + room); bool ok = f->assembleAck(&p, tr, ecn); size_t n = p.m_cursor - buf; v_assert(n <= 2 + room and p.m_limit == buf + 2 + room, "never exceeds the room");
	for(size_t i = n > 2 + room ? n : 2 + room; i < sizeof buf; i++) v_assert(buf[i] == 0xa5, "nothing written past the limit");
	if(not ok) { v_assert(n == 2 and f->m_should_ack, "a refused ack leaves the packet as it was and stays pending"); v_cover("refused"); size_t need = 3 + 1 + 1 + 1 + (ecn ? 4 : 0) + (rej ? 5 : 0); v_assert(room < need + 2 + (tr ? 0 : 8), "refused only for want of room"); return; }
	size_t at = 2; if(ecn) { v_assert(buf[2] == CHUNK_ECN_REPORT and buf[3] == 0 and buf[4] == 1 and buf[5] == (uint8_t)w.s->m_ecn_ce_count, "congestion report"); at = 6; }
	if(rej) { v_assert(buf[at] == CHUNK_EXCEPTION and buf[at + 1] == 0 and buf[at + 2] == 2 and buf[at + 3] == 5 and buf[at + 4] == 3, "exception report"); at += 5; }
	v_assert(buf[at] == CHUNK_ACK_RANGES and (size_t)(buf[at + 1] << 8 | buf[at + 2]) == n - at - 3, "ack chunk length"); uintmax_t v, c; at = vlu(buf, n, at + 3, v); v_assert(at and v == 5, "flow"); at = vlu(buf, n, at, v); v_assert(at, "window"); at = vlu(buf, n, at, c); v_assert(at and c == hi[0], "cumulative ack");
	size_t k = 1; while(at < n) { uintmax_t h, r; size_t a2 = vlu(buf, n, at, h); if(not a2) break; size_t a3 = vlu(buf, n, a2, r); if(not a3) break; v_assert(k < nr, "no more ranges than received"); uintmax_t from = c + h + 2, to = from + r; v_assert(from == lo[k] and to == hi[k], "exactly the received range"); c = to; k++; at = a3; }
	if(k < nr) { v_assert(tr, "cut short only where that is allowed"); v_cover("cut"); v_assert(2 + room - at < 4, "as much as fits"); }
	v_assert(not f->m_should_ack, "done");
}
// contract of pushVLU (proved under P02): appends the number, or refuses and changes nothing
static uintmax_t g_v[16]; static size_t g_nv, g_refuseAt;
STUB_FOR("b_P08_far", "com::zenomt::rtmfp::PacketAssembler::pushVLU")
static bool pushVLUContract(PacketAssembler *p, uintmax_t v) { if(g_nv == g_refuseAt) return false; g_v[g_nv++] = v; return true; }
// ranges of any size and position, with the packet filling up at any point
ENTRY b_P08_far() {
	auto &w = *new World(); uintmax_t lo[4], hi[4]; size_t nr = 1 + v_choose(4, "ranges"); auto f = ackFlow(w, nr, UINTMAX_MAX, lo, hi); uint8_t buf[16]; PacketAssembler p; p.init(buf, 0, sizeof buf); g_refuseAt = v_choose(12, "full at"); bool tr = v_choose(2, "truncate"); v_cover("far");
	bool ok = f->assembleAck(&p, tr, false); bool full = g_refuseAt < 1 + 2 * nr; v_assert(ok == (not full or (tr and g_refuseAt >= 3)), "an ack is produced when it fits, or its head fits and it may be cut short"); if(not ok) { v_assert(p.m_cursor == buf, "refused: packet unchanged"); return; }
	v_assert(g_v[0] == 5 and g_v[2] == hi[0], "flow and cumulative ack"); uintmax_t c = hi[0]; size_t k = 1; for(size_t i = 3; i + 1 < g_nv; i += 2, k++) { v_assert(k < nr, "no more ranges than received"); v_assert(c + g_v[i] + 2 == lo[k], "exactly the received range"); v_assert(lo[k] + g_v[i + 1] == hi[k], "exactly the received range"); c = hi[k]; } v_assert(full or k == nr, "complete when it fits");
}
// what is recorded as received: any sequence numbers over any set of up to two (thorough: three) ranges
ENTRY b_P08_record() {
	auto &w = *new World(); uintmax_t lo[3], hi[3]; size_t nr = v_choose(
#ifdef V_THOROUGH
	4
#else
	3
#endif
	, "ranges"); auto f = ackFlow(w, nr, UINTMAX_MAX, lo, hi); f->m_should_ack = false; w.s->m_delack_alarm.reset(); v_cover("record");
	uintmax_t sn = nd64("sn"), fsn = nd64("fsn"), q = nd64("q"); v_assume(fsn <= sn and sn > 0); uint8_t fl = v_choose(2, "abn") ? USERDATA_FLAG_ABN : 0; bool before = f->m_sequence_set.contains(q), fresh = not f->m_sequence_set.contains(sn); uintmax_t f0 = f->m_forward_sn = nd64("forward"); size_t buffered = f->getBufferedSize();
	if(v_choose(2, "closed")) f->m_state = RecvFlow::RF_REJECTED; f->m_prev_rwnd = 64; f->onMessage = nullptr; f->m_rxOrder = RO_HOLD; uint8_t d = 1;
	f->onData(fl, sn, fsn, &d, 1);
	v_assert(f->m_sequence_set.contains(q) == (before or q == sn or q <= fsn), "recorded: what was received before, this one, and what the sender says to skip"); v_assert(f->m_forward_sn == (fsn > f0 ? fsn : f0), "forward sequence number only advances");
	v_assert(f->getBufferedSize() == buffered + (fresh and not fl and f->m_state == RecvFlow::RF_OPEN ? FRAGMENT_SIZE_BIAS + 1 : 0), "held exactly when new, not abandoned and not rejected");
	v_assert(f->m_should_ack and w.s->m_ackFlows.size() == 1, "an ack is due"); bool now = w.s->m_ack_now; if(fl or not fresh or nr != 1 or f->m_state != RecvFlow::RF_OPEN) v_assert(now, "acknowledged at once when something is out of order"); else { uintmax_t m = fsn > hi[0] ? fsn : hi[0]; v_assert(now == (sn > m and sn - m > 1), "in-order data may be acknowledged later"); }
	v_assert(now != (w.s->m_delack_alarm != nullptr), "otherwise within the delayed-ack period");
}
