// contracts for the sending flow
#include "core.hpp"
typedef SendFlow::SendFrag Frag; typedef std::shared_ptr<Frag> FP; typedef std::shared_ptr<IssuerWriteReceipt> RP;
struct Send { World w; std::shared_ptr<SendFlow> f; Frag *fr[4]; RP rc[4]; uintmax_t sn[4], tsn[4]; bool fly[4], ab[4], sent[4], sab[4]; size_t ts[4], naks[4]; uint8_t dat[4][2]; long name[4]; size_t k; int fin[4]; bool finAb[4]; };
static Send &mk(Priority pri = PRI_ROUTINE) { auto &s = *new Send(); s.k = 0; s.f = share_ref(new SendFlow(s.w.r, Bytes(), Bytes(), nullptr, pri), false); s.w.s->bindFlow(s.f); s.f->m_session = s.w.s; s.f->m_startup_options.clear(); return s; }
static void receipt(Send &s, size_t i) { s.rc[i] = share_ref(new IssuerWriteReceipt(0, INFINITY, INFINITY), false); s.fin[i] = 0; s.rc[i]->onFinished = [&s, i](bool a) { s.fin[i]++; s.finAb[i] = a; }; }
// one queued fragment: r names its receipt (fragments of one message share it)
static void add(Send &s, uintmax_t sn, uint8_t fra, size_t len, size_t r, bool fly, bool sent) {
	size_t i = s.k++; if(r == i) receipt(s, i); else s.rc[i] = s.rc[r]; uint8_t *d = s.dat[i]; for(int j = 0; j < 2; j++) d[j] = nd8("d");
	auto f = share_ref(new Frag(s.f.get(), d, len, sn, fra, s.rc[i]), false); s.fr[i] = f.get(); s.sn[i] = sn; s.fly[i] = fly; s.sent[i] = sent | fly; s.ab[i] = s.sab[i] = false; s.ts[i] = 0; s.naks[i] = 0; s.tsn[i] = 0; s.rc[i]->useCountUp(); if(fly or sent) s.rc[i]->start();
	f->m_in_flight = fly; f->m_ever_sent = s.sent[i]; if(s.sent[i]) f->m_transmit_size = 100 + i; s.name[i] = s.f->m_send_queue.append(f);
}
// put the in-flight fragments on the session's list in transmission order
static void launch(Send &s, const size_t *order) {
	uintmax_t t = 0; for(size_t j = 0; j < s.k; j++) { size_t i = order[j]; if(not s.fly[i]) continue; Frag *f = s.fr[i]; f->m_tsn = s.tsn[i] = nd64("tsn"); v_assume(f->m_tsn > t and f->m_tsn < (uintmax_t)1 << 62); t = f->m_tsn; s.ts[i] = f->m_transmit_size = nd64("size"); v_assume(s.ts[i] >= 4 and s.ts[i] <= 1200); f->m_session_outstanding_name = s.w.s->m_outstandingFrags.append(share_ref(f)); s.f->m_outstanding_bytes += s.ts[i]; }
	s.w.s->m_next_tsn = nd64("next"); v_assume(s.w.s->m_next_tsn > t and s.w.s->m_next_tsn < (uintmax_t)1 << 62);
}
static const size_t PERM[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
static void perm(Send &s, size_t *o) { size_t fly = 0; for(size_t i = 0; i < s.k; i++) fly += s.fly[i]; const size_t *p = fly < 2 ? PERM[0] : PERM[s.k == 2 ? v_choose(2, "order") * 2 : v_choose(2, "order") * 5]; for(size_t i = 0; i < 3; i++) o[i] = p[i]; }
// bytes in flight, per flow and per session, are those of the fragments in flight
static void account(Send &s) {
	size_t sum = 0, n = 0; auto &q = s.f->m_send_queue; auto &o = s.w.s->m_outstandingFrags;
	for(long x = q.first(); x > 0; x = q.next(x)) { auto &f = q.at(x); if(not f->m_in_flight) continue; sum += f->m_transmit_size; n++; v_assert(o.has(f->m_session_outstanding_name) and o.at(f->m_session_outstanding_name).get() == f.get(), "a fragment in flight is on the session's list"); }
	v_assert(s.f->getOutstandingBytes() == sum, "flow's outstanding bytes are those in flight"); v_assert(o.sum() == sum and o.size() == n, "session's outstanding bytes are those in flight");
}
static bool queued(Send &s, size_t i) { auto &q = s.f->m_send_queue; return q.has(s.name[i]) and q.at(s.name[i]).get() == s.fr[i]; }
static size_t queue(Send &s, size_t max, bool multi) { size_t k = v_choose(max + 1, "fragments"); uintmax_t p = 0; for(size_t i = 0; i < k; i++) { uintmax_t sn = nd64("sn"); v_assume(sn > p and sn < (uintmax_t)1 << 62); p = sn; bool fly = v_choose(2, "in flight"); add(s, sn, multi ? (i == 0 ? USERDATA_FRA_BEGIN : i == k - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE) : USERDATA_FRA_WHOLE, 2, multi ? 0 : i, fly, not fly and v_choose(2, "sent")); } s.f->m_next_sn = p + 1; return k; }
// contract of VLU::parse (proved under P01) over the acknowledgement's range list: a number per step, or the end
static uintmax_t g_num[8]; static size_t g_n, g_lim;
STUB_FOR("b_P10_ack", "com::zenomt::rtmfp::VLU::parse")
static size_t parseContract(const uint8_t *cursor, const uint8_t *limit, uintmax_t *dst, bool) { if(cursor >= limit or g_n >= g_lim) return 0; *dst = g_num[g_n++]; return 1; }
ENTRY b_P10_ack() {
	auto &s = mk(); bool multi = v_choose(2, "message"); size_t k = queue(s, 3, multi), o[3]; perm(s, o); launch(s, o); uintmax_t m0 = s.w.s->m_max_tsn_ack = nd64("max tsn"); v_cover("ack");
	uintmax_t cum = nd64("cumulative"); v_assume(cum < (uintmax_t)1 << 62); g_lim = k == 3 ? v_choose(2, "numbers") * 2 : v_choose(5, "numbers"); uintmax_t lo[2] = { 1, 1 }, hi[2] = { 0, 0 }, c = cum; for(size_t i = 0; i < g_lim; i++) { g_num[i] = nd64("n"); v_assume(g_num[i] < (uintmax_t)1 << 60); if(i & 1) { lo[i / 2] = c + 2 + g_num[i - 1]; hi[i / 2] = lo[i / 2] + g_num[i]; c = hi[i / 2]; } }
	uint8_t dummy[8] = { 0 }; size_t window = k < 2 and v_choose(2, "window") ? 0 : 65536; uint8_t type = k == 3 or v_choose(2, "type") ? CHUNK_ACK_RANGES : CHUNK_ACK_BITMAP; s.f->onAck(type, window, cum, dummy, dummy + g_lim); if(type != CHUNK_ACK_RANGES) lo[0] = lo[1] = 1, hi[0] = hi[1] = 0;
	uintmax_t m = m0; size_t left = 0; for(size_t i = 0; i < k; i++) { uintmax_t q = s.sn[i]; bool a = (q <= cum) | ((q >= lo[0]) & (q <= hi[0])) | ((q >= lo[1]) & (q <= hi[1])); left += not a;
		v_assert(queued(s, i) == not a, "an acknowledged fragment leaves the queue, any other stays"); if(a & s.fly[i]) m = s.tsn[i] > m ? s.tsn[i] : m; if(not a) v_assert(s.fr[i]->m_in_flight == s.fly[i] and s.fr[i]->m_sequence_number == q and s.fr[i]->m_data.size() == 2 and s.fr[i]->m_data[0] == s.dat[i][0], "and is unchanged");
		if(not multi) { v_assert(s.fin[i] == (a ? 1 : 0) and s.rc[i]->isDelivered() == a, "its message is delivered exactly when acknowledged, reported once"); if(a) v_assert(not s.finAb[i], "as delivered"); } }
	if(multi and k) v_assert(s.fin[0] == (left ? 0 : 1) and s.rc[0]->isDelivered() == (left == 0), "a message is delivered exactly when its last fragment is acknowledged");
	v_assert(s.f->m_send_queue.size() == left, "queue"); v_assert(s.w.s->m_max_tsn_ack == m, "highest acknowledged transmission"); account(s); v_assert(s.f->getRecvBufferBytesAvailable() == window and (s.f->m_persistTimer != nullptr) == (window == 0), "a closed window starts the probe timer");
	size_t total = 0; for(size_t i = 0; i < k; i++) if(queued(s, i)) total += 2 + FRAGMENT_SIZE_BIAS; v_assert(s.f->getBufferedSize() == total, "buffered size");
	if(left and window) v_assert(s.w.s->m_readyFlows[PRI_ROUTINE].size() == (window > s.f->getOutstandingBytes() ? 1 : 0), "scheduled to transmit what is left");
}
// a finished callback that writes, closes the flow or closes the session, from within every operation that finishes messages
ENTRY b_P11_reentrant() {
	auto &s = mk(); size_t k = 1 + v_choose(3, "fragments"), ev = v_choose(5, "event"), act = v_choose(5, "action"), who = v_choose(k, "who"); bool multi = k > 1 and v_choose(2, "message"); s.w.p.m_now = 5;
	for(size_t i = 0; i < k; i++) { bool fly = ev == 0 or (ev > 1 and i and v_choose(2, "in flight")); add(s, i + 1, multi ? (i == 0 ? USERDATA_FRA_BEGIN : i == k - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE) : USERDATA_FRA_WHOLE, 2, multi ? 0 : i, fly, false); if(ev and ev < 4) s.rc[i]->finishBy = 1; } s.f->m_next_sn = k + 1; launch(s, PERM[0]);
	int *fin = new int(0); size_t r = multi ? 0 : who; s.rc[r]->onFinished = [&s, act, fin](bool) { ++*fin; if(act == 1) for(int j = 0; j < 16; j++) s.f->write("ab", 2); if(act == 2) s.f->close(); if(act == 3) s.f->closeSession(); if(act == 4) s.w.s->abort(); }; v_cover("reentrant");
	uint8_t buf[256]; PacketAssembler pk; pk.init(buf, 0, sizeof buf); auto w = s.f; bool did = false;
	if(ev == 0) s.f->onAck(CHUNK_ACK_RANGES, 65536, k, nullptr, nullptr); else if(ev == 1) s.f->trimSendQueue(5); else if(ev == 2) did = s.f->assembleData(&pk, PRI_ROUTINE); else if(ev == 3) { pk.startChunk(CHUNK_USERDATA); s.w.s->onInterfaceWritable(1, PRI_ROUTINE); } else s.f->onExceptionReport(7);
	v_assert(*fin <= 1, "reported at most once"); if(ev == 0 or ev == 4) v_assert(*fin == 1, "reported"); if(ev != 4 and act < 3) account(s); if(did) v_assert(s.w.s->m_outstandingFrags.size() > 0, "a transmission opportunity is used only when something is in flight");
	if(act >= 3 and *fin) v_assert(s.f->m_send_queue.empty() and s.f->getBufferedSize() == 0, "nothing stays queued on a closed session");
}
// --- fragmentation
static void writeCase(size_t maxFrags) {
	auto &s = mk(); size_t opts = v_choose(2, "options") ? 7 : 0; for(size_t i = 0; i < opts; i++) s.f->m_startup_options.push_back(1); size_t max = MAX_DATA_FRAG_LENGTH - opts; uintmax_t sn0 = nd64("sn"); v_assume(sn0 > 0 and sn0 < (uintmax_t)1 << 62); s.f->m_next_sn = sn0; bool had = v_choose(2, "earlier"); if(had) add(s, sn0 - 1, USERDATA_FRA_WHOLE, 2, 0, false, false);
	size_t n = nd64("n"); v_assume(n <= maxFrags * max); uint8_t *d = (uint8_t *)v_bytes(n, "message"); s.w.p.m_now = nd64("now") % 1000; double a = v_choose(2, "start") ? 3 : INFINITY, b = v_choose(2, "finish") ? 5 : INFINITY; v_cover("write");
	auto r = s.f->write(d, n, a, b); v_assert(r != nullptr and not r->isFinished() and not r->isStarted() and not r->isAbandoned() and r->createdAt() == s.w.p.m_now and r->startBy == s.w.p.m_now + a and r->finishBy == s.w.p.m_now + b, "a receipt with the deadlines asked for");
	auto &q = s.f->m_send_queue; size_t cnt = q.size() - had, at = 0, j = 0; v_assert(cnt == (n <= max ? 1 : (n + max - 1) / max) and s.f->m_next_sn == sn0 + cnt, "as many fragments as needed, one sequence number each"); size_t i = nd64("i"); bool seen = false; long name = q.first(); if(had) name = q.next(name);
	for(; name > 0; name = q.next(name), j++) { auto &f = q.at(name); size_t l = f->m_data.size(); v_assert(f->m_sequence_number == sn0 + j, "consecutive sequence numbers in order"); v_assert(l <= max and (l > 0 or n == 0), "no fragment larger than the path allows, none needlessly empty"); v_assert(f->m_fra == (cnt == 1 ? USERDATA_FRA_WHOLE : j == 0 ? USERDATA_FRA_BEGIN : j == cnt - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE), "marks match the position"); v_assert(f->m_receipt.get() == r.get() and not f->m_in_flight and not f->m_ever_sent and f->m_owner == s.f.get(), "waits to be sent under the receipt");
		if(i >= at and i < at + l) { seen = true; v_assert(f->m_data[i - at] == d[i], "the fragments concatenate to the message"); } at += l; }
	v_assert(at == n and (seen or i >= n), "nothing is missing"); v_assert(s.w.s->m_readyFlows[PRI_ROUTINE].size() == 1, "scheduled for transmission");
	for(size_t k = 0; k < cnt; k++) { v_assert(not r->isFinished(), "finished with its last fragment"); ((IssuerWriteReceipt *)r.get())->useCountDown(); } v_assert(r->isDelivered(), "finished with its last fragment");
}
ENTRY b_P09_write() { writeCase(3); }
ENTRY bt_P09_writeLong() { writeCase(6); }
// the largest fragment always fits in a packet of its own, whatever the numbers
ENTRY b_P09_fits() {
	auto &s = mk(); size_t opts = v_choose(2, "options") * 500; for(size_t i = 0; i < opts; i++) s.f->m_startup_options.push_back(1); s.f->m_next_sn = (uintmax_t)1 << 61; s.f->m_flow_id = v_choose(2, "flow") ? 0 : 0x7fffffff; size_t len = MAX_DATA_FRAG_LENGTH - opts + v_choose(2, "more"); uint8_t *d = (uint8_t *)v_bytes(len, "message"); s.f->write(d, len); v_cover("fits");
	uint8_t *buf = (uint8_t *)malloc(MAX_SESSION_PACKET_LENGTH); PacketAssembler pk; pk.init(buf, 0, MAX_SESSION_PACKET_LENGTH, HEADER_MODE_INITIATOR, 1, 2); v_assert(s.f->assembleData(&pk, PRI_ROUTINE), "a fragment always fits in an empty packet"); account(s); free(buf);
}
// --- placing fragments in packets: the packet is parsed back and compared with the queue
static uint8_t *g_pk; static size_t g_at, g_end;
static uintmax_t rd() { uintmax_t v = 0; uint8_t c; do { v_assert(g_at < g_end, "chunk complete"); c = g_pk[g_at++]; v = v << 7 | (c & 0x7f); } while(c & 0x80); return v; }
static void place(bool gaps, bool abandon, size_t max, size_t nrooms, const size_t *rooms) {
	bool timecrit = not abandon and v_choose(2, "time critical"); Priority pri = timecrit ? PRI_HIGHEST : PRI_ROUTINE; auto &s = mk(pri); size_t k = 1 + v_choose(max, "fragments"); uintmax_t sn = gaps and v_choose(2, "big") ? 126 : 0; bool opts = not abandon and v_choose(2, "options"); if(opts) s.f->m_startup_options.assign(3, 0x33); s.f->m_flow_id = 5; s.w.p.m_now = 5; bool multi = k > 1 and v_choose(2, "message"); uintmax_t first = sn + 1; bool expired[4] = {}, once[4] = {}, gone[4] = {};
	for(size_t i = 0; i < k; i++) { sn += gaps and i ? 1 + v_choose(2, "gap") : 1; size_t st = v_choose(3, "state"); add(s, sn, multi ? (i == 0 ? USERDATA_FRA_BEGIN : i == k - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE) : USERDATA_FRA_WHOLE, i == 1 and gaps ? 1 : 2, multi ? 0 : i, st == 1, st == 2);
		if(abandon and (i == 0 or not multi)) { size_t m = v_choose(4, "receipt"); if(m == 1) { expired[i] = true; s.rc[i]->finishBy = 4; } if(m == 2) { once[i] = true; s.rc[i]->retransmit = false; } if(m == 3) { expired[i] = true; s.rc[i]->abandon(); } }
		if(multi and i) { expired[i] = expired[0]; once[i] = once[0]; } if(abandon and s.fly[i]) s.fr[i]->m_sent_abandoned = s.sab[i] = v_choose(2, "sent abandoned") and s.rc[i]->isAbandoned(); }
	s.f->m_next_sn = sn + 1; bool fin = v_choose(2, "final"); if(fin) s.f->m_final_sn = sn; launch(s, PERM[0]); uintmax_t tsn = s.w.s->m_next_tsn; size_t win = v_choose(3, "window"), out0 = s.f->getOutstandingBytes(); for(size_t i = 0; i < k; i++) if(s.fly[i]) v_assume(s.ts[i] == 10); s.f->m_rx_buffer_size = win == 0 ? 65536 : win == 1 ? out0 + 1 : out0;
	size_t room = rooms[v_choose(nrooms, "room")]; uint8_t *buf = (uint8_t *)malloc(room + 1); PacketAssembler pk; pk.init(buf, 0, room + 1, HEADER_MODE_INITIATOR, -1, -1); v_cover("place");
	bool r = s.f->assembleData(&pk, pri); size_t used = room - pk.remaining(); g_pk = buf + 1; g_at = 0; g_end = used; v_assert(pk.remaining() <= room, "within the packet");
	// which fragments are given up
	for(size_t i = 0; i < k; i++) gone[i] = s.rc[i]->isAbandoned(); size_t sent = 0, out = out0; uintmax_t prev = 0, fsn = 0; size_t i = 0; auto &q = s.f->m_send_queue;
	bool dead[4]; for(size_t j = 0; j < k; j++) { dead[j] = expired[j]; for(size_t m = multi ? 0 : j; m <= j; m++) dead[j] |= once[m] & s.sent[m] & not s.fly[m]; }
	while(g_at < g_end) {
		size_t c0 = g_at; uint8_t type = buf[1 + g_at++]; v_assert(g_at + 3 <= g_end, "whole chunks"); size_t len = (size_t)buf[1 + g_at] << 8 | buf[2 + g_at]; g_at += 2; size_t ce = g_at + len; v_assert(ce <= g_end, "whole chunks"); uint8_t fl = buf[1 + g_at++]; uintmax_t n;
		while(i < k and (s.fly[i] or not queued(s, i))) i++; v_assert(i < k, "only queued fragments that are not in flight are sent"); n = s.sn[i];
		if(type == CHUNK_USERDATA) { v_assert(rd() == 5, "flow"); v_assert(rd() == n, "sequence number of the next fragment to send"); uintmax_t off = rd(); v_assert(sent == 0 or n - off == fsn, "forward sequence number"); fsn = n - off; v_assert(off > 0 or dead[i], "a fragment still to be delivered is not forgotten"); }
		else { v_assert(type == CHUNK_NEXT_USERDATA and sent and n == prev + 1, "continuation chunk only for the next sequence number"); }
		v_assert((fl & USERDATA_FLAG_OPT) == (opts and sent == 0 ? USERDATA_FLAG_OPT : 0), "options in the first chunk until acknowledged"); if(opts and sent == 0) for(int j = 0; j < 3; j++) v_assert(buf[1 + g_at++] == 0x33, "options");
		v_assert((fl & 0x30) == s.fr[i]->m_fra and (fl & USERDATA_FLAG_FIN) == (fin and n == sn ? USERDATA_FLAG_FIN : 0) and (fl & USERDATA_FLAG_ABN) == (dead[i] ? USERDATA_FLAG_ABN : 0), "marks");
		size_t dl = dead[i] ? 0 : s.fr[i]->m_data.size(); v_assert(ce - g_at == dl, "exactly the fragment's data, none if abandoned"); for(size_t j = 0; j < dl; j++) v_assert(buf[1 + g_at + j] == s.dat[i][j], "data"); g_at = ce;
		Frag *f = s.fr[i]; v_assert(f->m_in_flight and f->m_ever_sent and f->m_transmit_size == ce - c0 and f->m_tsn == tsn and f->m_nak_count == 0 and f->m_sent_abandoned == dead[i] and s.rc[i]->isStarted(), "recorded as in flight in this transmission"); v_assert(out < s.f->m_rx_buffer_size, "the far end has room"); out += ce - c0; prev = n; sent++; i++;
	}
	account(s); v_assert(s.f->getOutstandingBytes() == out, "outstanding bytes grow by what was placed"); v_assert(r == (sent > 0) and (pk.getTimeCriticalFlag() != 0) == (r and timecrit), "tells whether anything was placed, marks time critical data");
	while(i < k and (s.fly[i] or not queued(s, i))) i++; if(i < k and win == 0) { v_assert(not s.fr[i]->m_in_flight, "in order"); size_t dl = dead[i] ? 0 : s.fr[i]->m_data.size(), need = 4 + dl + (sent and s.sn[i] == prev + 1 ? 0 : 3 + (s.sn[i] > 127) + (s.sn[i] - (fsn ? fsn : first - 1) > 127)) + (opts and sent == 0 ? 3 : 0); v_assert(need > room - used, "stops only when the next fragment does not fit"); }
	for(size_t j = 0; j < k; j++) { if(win < 2 and not s.fly[j] and j < i and abandon and not multi) v_assert(gone[j] == dead[j], "given up exactly when past its deadline, or lost and not to be retransmitted"); if(not expired[j] and not once[j]) v_assert(not gone[j], "not given up otherwise");
		if(sent and not gone[j]) v_assert(fsn < s.sn[j], "forward sequence number stays before every fragment still to be delivered"); if(not queued(s, j)) v_assert(gone[j] and not s.fly[j] and (sent == 0 or fsn >= s.sn[j]), "only abandoned fragments are dropped, and the receiver is told"); if(queued(s, j)) for(size_t m = 0; m < j; m++) if(not queued(s, m)) v_assert(s.sn[m] < s.sn[j], "dropped from the front"); }
	free(buf);
}
static const size_t ROOMS[] = { 0, 2, 5, 8, 9, 12, 13, 15, 18, 20, 24, 30, 100 };
ENTRY b_P09_place() { place(true, false, 2, 13, ROOMS); }
ENTRY bt_P09_placeLong() { place(true, false, 3, 13, ROOMS); }
ENTRY b_P11_place() { place(false, true, 3, 1, ROOMS + 12); }
// --- losses
static size_t g_acked, g_lost; static bool g_loss, g_naks; static int g_upd;
STUB_FOR("b_P10_loss|b_P10_relaunch", "com::zenomt::rtmfp::Session::updateCWND")
static void cwndContract(Session *, size_t acked, size_t lost, bool loss, bool naks) { g_acked = acked; g_lost = lost; g_loss = loss; g_naks = naks; g_upd++; }
ENTRY b_P10_loss() {
	auto &s = mk(); size_t k = 1 + v_choose(3, "fragments"), o[3]; for(size_t i = 0; i < k; i++) { bool fly = v_choose(3, "in flight") > 0; add(s, i + 1, USERDATA_FRA_WHOLE, 2, i, fly, not fly); } perm(s, o); launch(s, o);
	auto *ss = s.w.s.get(); for(size_t i = 0; i < k; i++) if(s.fly[i]) { s.naks[i] = s.fr[i]->m_nak_count = nd64("naks"); v_assume(s.naks[i] < 1000); s.sab[i] = s.fr[i]->m_sent_abandoned = ndb("abandoned"); }
	uintmax_t m = ss->m_max_tsn_ack = nd64("max tsn"); v_assume(m < (uintmax_t)1 << 62); bool acks = ss->m_any_acks = v_choose(3, "acks") > 0; bool cn = ss->m_congestionNotifiedThisPacket = ndb("congestion"); size_t out = s.f->getOutstandingBytes(), extra = nd64("acked"); v_assume(extra < 100000); ss->m_pre_ack_outstanding = out + extra; ss->m_seenUserDataThisPacket = false; ss->m_send_ect = ndb("ect"); bool ect = ss->m_send_ect, rep = ss->m_seen_ecn_report = ndb("report"); ss->m_burst_alarm = v_choose(2, "burst") ? s.w.r->scheduleRel(1) : nullptr; long lim = ss->m_data_burst_limit = (long)nd64("limit"); v_cover("loss");
	ss->onPacketAfterChunks(HEADER_MODE_RESPONDER, -1, -1, 1, (sockaddr *)&s.w.sin);
	bool loss = cn, naks = false; size_t bytes = 0, first = 0; bool any = false; for(size_t i = 0; i < k; i++) { if(not s.fly[i]) { v_assert(not s.fr[i]->m_in_flight and queued(s, i), "not in flight: not touched"); continue; } bool over = acks & (s.tsn[i] <= m), lost = over & (s.naks[i] + 1 >= 3);
		v_assert(s.fr[i]->m_in_flight == not lost, "lost exactly when overtaken by three later acknowledged transmissions"); v_assert(lost or s.fr[i]->m_nak_count == s.naks[i] + over, "each later acknowledgement counts once"); v_assert(queued(s, i) and s.fin[i] == 0, "a lost fragment stays queued for retransmission"); naks |= over & not s.sab[i]; loss |= lost & not s.sab[i]; if(lost) { bytes += s.ts[i]; any = true; } }
	account(s); v_assert(s.f->getOutstandingBytes() == out - bytes, "outstanding bytes drop by what was lost"); v_assert((g_upd == 1) == acks, "congestion control runs once per acknowledging packet");
	if(acks) { v_assert(g_acked == extra and g_lost == bytes and g_loss == loss and g_naks == naks, "congestion control is told exactly what happened"); v_assert(ss->m_timeout_alarm != nullptr and ss->m_burst_alarm == nullptr and ss->m_data_burst_limit >= MAX_DATA_BYTES_BURST and ss->m_data_burst_limit >= lim, "timeout rescheduled, pacing restarts"); v_assert(ss->m_send_ect == (ect and rep), "ECN is abandoned when the far end does not report"); } else v_assert(ss->m_data_burst_limit == lim and ss->m_send_ect == ect, "otherwise nothing changes");
	if(any) { v_assert(ss->m_readyFlows[PRI_ROUTINE].size() == 1, "scheduled for retransmission"); v_assert(s.f->m_last_send_queue_name == 0, "transmission restarts at the oldest fragment"); }
}
// what was lost is sent again first, each fragment once
ENTRY b_P10_relaunch() {
	auto &s = mk(); size_t k = 1 + v_choose(4, "fragments"), last = 0; bool lost[4]; for(size_t i = 0; i < k; i++) add(s, i + 1, USERDATA_FRA_WHOLE, 2, i, true, false); launch(s, (const size_t[]){ 0, 1, 2, 3 }); s.f->m_next_sn = k + 1; auto *ss = s.w.s.get(); bool any = false; for(size_t i = 0; i < k; i++) { lost[i] = v_choose(2, "lost"); any |= lost[i]; s.fr[i]->m_nak_count = lost[i] ? 2 : 0; last = i; } s.f->m_last_send_queue_name = s.name[v_choose(k, "resume")]; v_cover("relaunch");
	ss->m_max_tsn_ack = s.tsn[last]; ss->m_any_acks = true; ss->m_pre_ack_outstanding = s.f->getOutstandingBytes(); ss->m_seenUserDataThisPacket = false; size_t more = v_choose(2, "more"); ss->onPacketAfterChunks(HEADER_MODE_RESPONDER, -1, -1, 1, (sockaddr *)&s.w.sin); if(more) s.f->write("zz", 2); s.f->m_rx_buffer_size = (size_t)1 << 40;
	uint8_t buf[256]; PacketAssembler pk; pk.init(buf, 0, sizeof buf, HEADER_MODE_INITIATOR, -1, -1); uintmax_t t = ss->m_next_tsn; bool r = s.f->assembleData(&pk, PRI_ROUTINE); v_assert(r == (any or more), "something to send"); account(s); size_t n = 0; uintmax_t prev = 0; long x = ss->m_outstandingFrags.first(); for(; x > 0; x = ss->m_outstandingFrags.next(x)) { auto &f = ss->m_outstandingFrags.at(x); if(f->m_tsn == t) { v_assert(f->m_sequence_number > prev and (f->m_sequence_number > k or lost[f->m_sequence_number - 1]), "exactly the lost fragments, oldest first"); prev = f->m_sequence_number; n++; v_assert(f->m_nak_count == 0, "counting starts over"); } }
	size_t want = more; for(size_t i = 0; i < k; i++) { want += lost[i]; v_assert(s.fr[i]->m_in_flight, "all in flight again"); } v_assert(n == want, "every lost fragment is retransmitted"); v_assert(s.f->m_send_queue.size() == k + more, "nothing is lost from the queue");
}
ENTRY b_P10_timeout() {
	auto &s = mk(); size_t k = v_choose(4, "fragments"), o[3]; for(size_t i = 0; i < k; i++) add(s, i + 1, USERDATA_FRA_WHOLE, 2, i, v_choose(3, "in flight") > 0, true); perm(s, o); launch(s, o); bool fly = s.w.s->m_outstandingFrags.size() > 0, ka = v_choose(2, "keepalive"); auto *ss = s.w.s.get(); ss->m_keepalive_outstanding = ka;
	s.w.p.m_now = 100; ss->rescheduleTimeoutAlarm(); Time dl = ss->m_timeout_deadline; bool early = v_choose(2, "early"); s.w.p.m_now = early ? 101 : 104; bool restarted = not early and v_choose(2, "restarted"); if(restarted) { ss->m_erto = 5; ss->rescheduleTimeoutAlarm(); v_assert(ss->m_timeout_deadline == 109, "deadline moves"); s.w.p.m_now = 105; } bool giveup = not restarted and v_choose(2, "give up"); if(giveup) ss->m_retransmit_deadline_epoch = 0, ss->m_retransmit_limit = 50; size_t out = s.f->getOutstandingBytes(); v_cover("timeout");
	s.w.r->doTimerWork(); if(early or restarted) { v_assert(s.f->getOutstandingBytes() == out and ss->m_timeout_alarm != nullptr and ss->m_timeout_alarm->getNextFireTime() == ss->m_timeout_deadline, "nothing is lost before the deadline"); account(s); return; }
	if((fly or ka) and giveup) { v_assert(ss->m_state == Session::S_NEARCLOSE and s.f->m_state == SendFlow::F_CLOSED, "gives up after the retransmission limit"); return; }
	for(size_t i = 0; i < k; i++) { v_assert(not s.fr[i]->m_in_flight and queued(s, i) and s.fin[i] == 0, "everything in flight is lost and stays queued"); v_assert(s.fr[i]->m_nak_count == 0, "not overtaken"); } v_assert(s.f->getOutstandingBytes() == 0 and ss->m_outstandingFrags.size() == 0 and ss->m_outstandingFrags.sum() == 0, "nothing outstanding");
	if(fly) v_assert(ss->m_readyFlows[PRI_ROUTINE].size() == 1 and s.f->m_last_send_queue_name == 0, "scheduled for retransmission from the oldest"); (void)dl;
}
// --- finishing
static void openWorldClose(Send &s) { (void)s; }
ENTRY b_P11_finish() {
	auto &s = mk(); size_t sess = v_choose(4, "session"), k = v_choose(3, "fragments"); auto *ss = s.w.s.get(); bool wrote = k or v_choose(2, "wrote"); size_t gone = 0; for(size_t i = 0; i < k; i++) { size_t st = v_choose(3, "state"); add(s, i + 1, USERDATA_FRA_WHOLE, 2, i, st == 1, st == 2); } launch(s, PERM[0]); s.f->m_next_sn = wrote ? k + 1 + (k == 0) : 1; uintmax_t next = s.f->m_next_sn; long id = s.f->m_flow_id; (void)gone;
	if(sess == 1) ss->m_state = Session::S_KEYING_SENT; if(sess == 2) ss->m_state = Session::S_NEARCLOSE; if(sess == 3) { ss->unbindFlow(id, s.f.get()); s.f->m_session.reset(); } int cb = 0; s.f->onWritable = [&] { cb++; return false; }; s.f->onException = [&](uintmax_t) { cb++; }; v_cover("finish");
	bool open = sess == 0, fresh = k and not s.sent[k - 1]; s.f->close(); v_assert(not s.f->isOpen() and s.f->write("a", 1) == nullptr and s.f->onWritable == nullptr and s.f->onException == nullptr, "closed for writing"); auto &q = s.f->m_send_queue;
	if(not open or not wrote) { v_assert(s.f->m_state == SendFlow::F_CLOSED and s.f->m_session == nullptr and not ss->m_sendFlows.has(id), "nothing to finish: closed at once"); s.f->close(); v_assert(s.f->m_state == SendFlow::F_CLOSED, "stays closed"); return; }
	uintmax_t fin = s.f->m_final_sn; v_assert(s.f->m_state == SendFlow::F_CLOSING and s.f->m_session.get() == ss and fin == q.lastValue()->m_sequence_number and fin == s.f->m_next_sn - 1 and not q.lastValue()->m_ever_sent, "the final mark goes on the last fragment, not sent before"); v_assert(s.f->m_next_sn == next + not fresh, "a fragment is added only when the last was already sent"); v_assert(ss->m_readyFlows[PRI_ROUTINE].size() == 1 or not fresh or k, "scheduled"); s.f->close(); v_assert(s.f->m_next_sn == next + not fresh and s.f->m_final_sn == fin, "closing again changes nothing");
	for(size_t i = 0; i < k; i++) if(s.fly[i]) v_assume(s.ts[i] == 10); uint8_t buf[256]; PacketAssembler pk; pk.init(buf, 0, sizeof buf, HEADER_MODE_INITIATOR, -1, -1); v_assert(s.f->assembleData(&pk, PRI_ROUTINE), "sends the rest"); size_t n = sizeof buf - pk.remaining(), fins = 0; for(size_t at = 1; at < n; ) { size_t len = (size_t)buf[at + 1] << 8 | buf[at + 2]; bool f = buf[at + 3] & USERDATA_FLAG_FIN; fins += f; at += 3 + len; v_assert(f == (at >= n), "the final mark is on the last fragment only"); } v_assert(fins == 1, "a final mark is transmitted");
	if(fin > 1 and v_choose(2, "partial")) { s.f->onAck(CHUNK_ACK_RANGES, 65536, fin - 1, nullptr, nullptr); v_assert(s.f->m_state == SendFlow::F_CLOSING and s.f->m_session.get() == ss, "not complete until the final mark is acknowledged"); } if(v_choose(2, "abort")) { ss->abort(); v_assert(s.f->m_state == SendFlow::F_CLOSED and s.f->m_session == nullptr, "or the session ends"); for(size_t i = 0; i < k; i++) v_assert(s.fin[i] == 1, "every message is reported"); return; }
	s.f->onAck(CHUNK_ACK_RANGES, 65536, fin, nullptr, nullptr); v_assert(s.f->m_state == SendFlow::F_COMPLETE_LINGER and q.empty() and ss->m_sendFlows.has(id), "complete when it is, lingers with its ID reserved"); for(size_t i = 0; i < k; i++) v_assert(s.fin[i] == 1 and not s.finAb[i], "every message delivered"); account(s);
	s.f->onAck(CHUNK_ACK_RANGES, 0, fin, nullptr, nullptr); v_assert(s.f->m_persistTimer == nullptr, "further acknowledgements change nothing"); s.w.p.m_now = 100; s.w.r->doTimerWork(); v_assert(s.f->m_state == SendFlow::F_COMPLETE_LINGER and ss->m_sendFlows.has(id), "lingers"); s.w.p.m_now = 131; s.w.r->doTimerWork(); v_assert(s.f->m_state == SendFlow::F_CLOSED and s.f->m_session == nullptr and not ss->m_sendFlows.has(id) and cb == 0, "then it is forgotten");
}
ENTRY b_P11_exception() {
	auto &s = mk(); size_t k = v_choose(4, "fragments"); bool multi = k > 1 and v_choose(2, "message"); for(size_t i = 0; i < k; i++) { size_t st = v_choose(3, "state"); add(s, i + 1, multi ? (i == 0 ? USERDATA_FRA_BEGIN : i == k - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE) : USERDATA_FRA_WHOLE, 2, multi ? 0 : i, st == 1, st == 2); } launch(s, PERM[0]); s.f->m_next_sn = k + 1; int cb = 0; uintmax_t code = nd64("code"), got = code + 1; s.f->onException = [&](uintmax_t c) { cb++; got = c; v_assert(not s.f->isOpen(), "closed first"); }; size_t way = v_choose(2, "way"); v_cover("exception");
	if(way) { s.w.s->abort(); code = 0; } else s.f->onExceptionReport(code); v_assert(cb == 1 and got == code and not s.f->isOpen(), "reported once with its code"); for(size_t i = 0; i < k; i++) v_assert(s.rc[i]->isAbandoned() and s.fin[multi ? 0 : i] == 1 and s.finAb[multi ? 0 : i], "every message is abandoned and reported once");
	if(way) { v_assert(s.f->m_state == SendFlow::F_CLOSED and s.f->m_send_queue.empty() and s.w.s->m_outstandingFrags.size() == 0 and s.w.s->m_sendFlows.empty(), "nothing left on a closed session"); return; } account(s); s.f->onExceptionReport(code); v_assert(cb == 1, "reported once");
	if(k) { for(size_t i = 0; i < k; i++) if(s.fly[i]) v_assume(s.ts[i] == 10); uint8_t buf[256]; PacketAssembler pk; pk.init(buf, 0, sizeof buf, HEADER_MODE_INITIATOR, -1, -1); s.f->assembleData(&pk, PRI_ROUTINE); size_t n = sizeof buf - pk.remaining(); for(size_t at = 1; at < n; ) { size_t len = (size_t)buf[at + 1] << 8 | buf[at + 2]; v_assert(len <= 4 and (buf[at + 3] & USERDATA_FLAG_ABN) or buf[at + 3] & USERDATA_FLAG_FIN, "no data after a rejection"); at += 3 + len; } }
}
