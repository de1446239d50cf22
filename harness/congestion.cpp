// contracts for congestion control and transmission gating (P15), round-trip estimation and timeouts (P16)
#include "core.hpp"
static Time R(const char *n, Time lo, Time hi) { Time t = v_real(n); v_assume(t >= lo and t <= hi); return t; }
static size_t Z(const char *n) { size_t z = nd64(n); v_assume(z <= (size_t)1 << 40); return z; }
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
static size_t mx(size_t a, size_t b) { return a < b ? b : a; }
struct St { size_t cwnd, ss, acc, rec, allow, pre, out; };
static St get(Session *s) { return St { s->m_cwnd, s->m_ssthresh, s->m_acked_bytes_accumulator, s->m_recovery_remaining, s->m_recovery_loss_allowance, s->m_pre_ack_outstanding, s->m_outstandingFrags.sum() }; }
// any congestion state the session can be in
static St any(World &w, int which) {
	Session *s = w.s.get(); w.p.m_now = R("now", 0, 1e6); static const size_t W[6] = { CWND_INIT, 5000, 70000, 76801, 160000, 1000000 }; s->m_cwnd = which == 2 ? W[v_choose(6, "window")] : Z("cwnd"); s->m_ssthresh = nd64("ssthresh"); s->m_acked_bytes_accumulator = Z("acc"); s->m_recovery_remaining = Z("recovery"); s->m_recovery_loss_allowance = Z("allowance"); s->m_pre_ack_outstanding = Z("pre"); s->m_outstandingFrags.m_sum = Z("outstanding");
	v_assume(s->m_cwnd >= CWND_TIMEDOUT); v_assume(s->m_ssthresh >= CWND_INIT); v_assume((s->m_recovery_remaining == 0) | ((s->m_cwnd == s->m_ssthresh) & (s->m_cwnd >= CWND_INIT)));
	size_t tc = which == 1 ? 0 : v_choose(3, "time critical"); s->m_tcr_recv_time = w.r->m_tc_sent_time = s->m_tc_sent_time = -INFINITY; if(tc == 1) s->m_tcr_recv_time = R("tcr", 0, 1e6); if(tc == 2) { s->m_tc_sent_time = R("tc", 0, 1e6); w.r->m_tc_sent_time = R("tc any", 0, 1e6); v_assume(w.r->m_tc_sent_time >= s->m_tc_sent_time); }
	return get(s);
}
static void cwnd(int which) {
	auto &w = *new World(); Session *s = w.s.get(); St a = any(w, which); size_t acked = Z("acked"), lost = Z("lost"); bool loss = v_choose(2, "loss"), naks = v_choose(2, "naks"); Time now = w.p.m_now; s->m_srtt = R("srtt", 0, 100); s->m_last_rtt_time = R("rtt time", 0, 1e6); s->m_rttMeasurements.push_front({ 1, 1 });
	size_t delay = which == 1 ? 1 + v_choose(2, "delay") : 0; s->m_base_rtt = delay ? R("base", 0, 100) : INFINITY; s->m_delaycc_congestion_delay = delay == 2 ? R("delay", 0, 200) : INFINITY; s->m_last_delaycc_action = delay ? R("acted", 0, 1e6) : -INFINITY; s->m_last_minrtt_probe = delay ? R("probed", 0, 1e6) : INFINITY; v_cover("cwnd");
	bool fast = (s->m_tcr_recv_time + TIMECRITICAL_TIMEOUT < now) & (w.r->m_tc_sent_time + TIMECRITICAL_TIMEOUT < now), tc = s->m_tc_sent_time + TIMECRITICAL_TIMEOUT >= now; bool fresh = (s->m_srtt >= DELAYCC_RTT_THRESH) & (s->m_last_delaycc_action < s->m_last_rtt_time), slow = delay == 2 ? fresh & (s->m_srtt > s->m_base_rtt + s->m_delaycc_congestion_delay) : false;
	bool recovering = a.rec > acked + lost; size_t cost = lost + (lost + 1) / 2; Time acted = s->m_last_delaycc_action, probed = s->m_last_minrtt_probe; bool mayProbe = delay == 2 ? fresh & (s->m_base_rtt > DELAYCC_RTT_THRESH) & (s->m_delaycc_congestion_delay < MAX_SEGMENT_LIFETIME) & (now - probed >= s->m_srtt * 60) & (not naks) & (not loss) & (a.cwnd > 4 * SENDER_MSS) & (a.cwnd > a.ss) & (a.pre > a.cwnd / 2) : false;
	size_t full = a.cwnd * 63 / 64, unit = mn(mx(a.cwnd / 16, 64), fast ? 9600 : 4800), room = a.acc + acked; if(which == 2) { v_assume(not recovering); v_assume(not loss and not naks and not slow and a.pre > full); v_assume(room < 13 * unit); } else if(not recovering and not loss and not naks) { v_cfg("inv", 1); }
	s->updateCWND(acked, lost, loss, naks); St b = get(s);
	v_assert(b.cwnd >= mn(a.cwnd, CWND_INIT), "the window never falls below its minimum"); v_assert((b.ss >= CWND_INIT) & (b.out == a.out) & (b.pre == a.pre), "threshold"); v_assert((b.rec == 0) | ((b.cwnd == b.ss) & (b.cwnd >= CWND_INIT)), "during recovery the window is the threshold");
	if(not (mayProbe and a.pre * 21 / 32 > a.cwnd)) { v_assert((b.cwnd <= a.cwnd) | (a.cwnd < CWND_INIT) | ((not loss) & (not naks) & (not recovering) & (a.pre > full)), "the window grows only without loss or gaps and while it is used"); v_assert(b.cwnd <= a.cwnd + SENDER_MSS, "and by at most one segment per packet"); }
	v_assert((s->m_rttMeasurements.empty()) == ((not recovering) & (b.cwnd <= CWND_INIT) & (s->m_last_minrtt_probe == probed)), "at the minimum window the base round-trip time is measured afresh");
	if(recovering) { v_assert(b.acc == a.acc, "no growth credit in recovery"); if((lost == 0) | (cost <= a.allow)) v_assert((b.cwnd == a.cwnd) & (b.ss == a.ss) & (b.rec == a.rec - acked - lost) & (b.allow == a.allow - (lost ? cost : 0)), "losses within the allowance of a recovery change nothing else"); else { size_t cut = mn(a.ss, cost - a.allow); v_assert(b.allow == 0 and b.cwnd == mx(a.ss - cut, CWND_INIT) and b.ss == b.cwnd and b.rec == a.rec - acked - lost + cut, "losses beyond the allowance reduce the window and extend the recovery"); } return; }
	if(loss or slow) { size_t cut = mn(a.cwnd, a.pre), al = mn(cut, mx(tc | ((a.pre > 67200) & fast) ? cut / 8 : cut / 2, lost ? cost : 0)); v_assert(b.cwnd == mx(cut - al, CWND_INIT) and b.ss == b.cwnd, "loss reduces the window by the specified fraction of what is in use"); v_assert(b.acc == 0 and b.rec == a.out and b.allow == al, "and starts a recovery"); v_assert(slow ? s->m_last_delaycc_action == now : s->m_last_delaycc_action == acted, "acted on delay once per measurement"); return; }
	v_assert(b.rec == 0, "recovery ends");
	if(mayProbe) { v_assert(b.ss == a.cwnd and b.cwnd == mx(a.pre * 21 / 32, CWND_INIT) and s->m_last_minrtt_probe == now and s->m_last_delaycc_action == now, "a probe drains and slow-starts back"); return; }
	v_assert(s->m_last_minrtt_probe == probed, "the base round-trip time is probed only when due, with a window in use"); v_assert(b.ss == a.ss, "threshold unchanged without loss");
	if(naks) { v_assert(b.cwnd == a.cwnd and b.acc == a.acc, "no change while packets are missing"); return; }
	if(a.pre <= full) { v_assert(b.cwnd == (a.cwnd > a.pre + CWND_DECAY_MARGIN ? a.cwnd - CWND_DECAY_SIZE : a.cwnd) and b.acc == a.acc, "an unused window decays slowly"); return; }
	if(a.cwnd < a.ss and (fast or tc)) { size_t inc = fast ? acked : (acked + 3) / 4; v_assert(b.cwnd == mx(a.cwnd + mn(inc, SENDER_MSS), CWND_INIT) and b.acc == 0, "slow start grows by what was acknowledged"); return; }
	v_assert(b.acc < unit and b.acc <= room, "growth credit is used up"); if(room < unit) v_assert(b.cwnd == mx(a.cwnd, CWND_INIT) and b.acc == room, "growth credit accumulates");
	if(which == 2) { size_t k = 0; for(size_t i = 1; i < 13; i++) k += room >= i * unit; v_assert(b.acc == room - k * unit and b.cwnd == mx(a.cwnd + mn(k * (fast ? 96 : tc ? 48 : 24), SENDER_MSS), CWND_INIT), "additive increase per window fraction acknowledged"); }
}
ENTRY h_P15_cwnd() { cwnd(0); }
ENTRY h_P15_delay() { cwnd(1); }
ENTRY b_P15_increase() { cwnd(2); }
// ---- timeouts: the window, the threshold and the back-off of the retransmission timeout
static void timeout(bool p16) {
	auto &w = *new World(); Session *s = w.s.get(); any(w, 1); St a = get(s); s->m_outstandingFrags.m_sum = 0; Time now = w.p.m_now; auto f = share_ref(new SendFlow(w.r, Bytes(), Bytes(), nullptr, PRI_ROUTINE), false); s->bindFlow(f); f->m_session = w.s; bool fly = v_choose(2, "in flight"), ka = v_choose(2, "keepalive"), open = v_choose(3, "state") < 2; size_t size = 0;
	if(fly) { auto r = share_ref(new IssuerWriteReceipt(0, INFINITY, INFINITY), false); r->useCountUp(); uint8_t d[2] = { 1, 2 }; auto g = share_ref(new SendFlow::SendFrag(f.get(), d, 2, 1, USERDATA_FRA_WHOLE, r), false); f->m_send_queue.append(g); g->m_in_flight = g->m_ever_sent = true; size = g->m_transmit_size = nd64("size"); v_assume(size > 0 and size <= 1200); g->m_session_outstanding_name = s->m_outstandingFrags.append(g); f->m_outstanding_bytes = size; }
	if(not open) s->m_state = Session::S_NEARCLOSE; s->m_keepalive_outstanding = ka; s->m_mrto = R("mrto", 0.2, 1000); s->m_erto = R("erto", 0.25, 1000); v_assume(s->m_erto >= s->m_mrto); Time mrto = s->m_mrto, erto = s->m_erto; s->m_data_burst_limit = (long)nd16("limit"); s->m_timeout_alarm = w.r->scheduleRel(0); s->m_timeout_deadline = R("deadline", 0, 1e6); Time dl = s->m_timeout_deadline; s->m_retransmit_limit = INFINITY; s->m_retransmit_deadline_epoch = R("epoch", 0, 1e6); s->m_srtt = R("srtt", 0, 100); Time srtt = s->m_srtt; s->m_rttvar = R("var", 0, 100); Time var = s->m_rttvar; s->m_rttMeasurements.push_front({ 1, 1 }); long lim = s->m_data_burst_limit; v_cover("timeout");
	s->onTimeoutAlarm(); St b = get(s); v_assert(s->m_srtt == srtt and s->m_rttvar == var, "a timeout is not a measurement");
	if(now < dl) { v_assert(b.cwnd == a.cwnd and b.ss == a.ss and b.acc == a.acc and b.rec == a.rec and s->m_erto == erto and s->m_data_burst_limit == lim, "nothing happens before the deadline"); v_assert(s->m_timeout_alarm != nullptr and s->m_timeout_alarm->getNextFireTime() == dl, "the alarm waits for the deadline"); return; }
	size_t cut = a.cwnd * 3 / 4; if(not p16) { v_assert(b.ss == mx(a.ss, cut) and b.acc == 0 and b.rec == 0 and s->m_data_burst_limit == MAX_DATA_BYTES_BURST, "a timeout keeps three quarters of the window as threshold and ends recovery"); if(open) v_assert(b.cwnd == (fly or ka ? CWND_TIMEDOUT : CWND_INIT) and s->m_outstandingFrags.sum() == 0, "a timeout restarts from the smallest window, an idle one from the initial window"); else v_assert(b.cwnd == a.cwnd, "only while open"); v_assert(b.cwnd >= CWND_TIMEDOUT, "window"); }
	else { Time e = erto * ERTO_BACKOFF_FACTOR; if(e > MAX_ERTO) e = MAX_ERTO; if(e < mrto) e = mrto; v_assert(s->m_erto == (open and (fly or ka) ? e : erto) and s->m_mrto == mrto, "the timeout backs off up to its maximum, never below the estimate"); v_assert(s->m_erto >= MINIMUM_ERTO, "nor below its minimum"); if(open) v_assert(s->m_rttMeasurements.empty(), "the base round-trip time is measured afresh"); }
}
ENTRY h_P15_timeout() { timeout(false); }
ENTRY h_P16_timeout() { timeout(true); }
// the timeout alarm always fires by the deadline, which is one timeout from the last restart
ENTRY h_P16_alarm() {
	auto &w = *new World(); Session *s = w.s.get(); w.p.m_now = R("now", 0, 1e6); s->m_erto = R("erto", 0.25, 1000); bool had = v_choose(2, "running"); if(had) { Time at = R("at", 0, 1e6); s->m_timeout_alarm = w.r->scheduleRel(at - w.p.m_now); s->m_timeout_deadline = R("deadline", 0, 1e6); v_assume(at <= s->m_timeout_deadline); } s->m_retransmit_deadline_epoch = v_choose(2, "epoch") ? R("e", 0, 1e6) : INFINITY; Time ep = s->m_retransmit_deadline_epoch; v_cover("alarm");
	s->rescheduleTimeoutAlarm(); v_assert(s->m_timeout_deadline == w.p.m_now + s->m_erto, "the deadline is one timeout away"); v_assert(s->m_timeout_alarm != nullptr and not s->m_timeout_alarm->isCanceled() and s->m_timeout_alarm->getNextFireTime() <= s->m_timeout_deadline, "the alarm fires by then"); v_assert(s->m_retransmit_deadline_epoch == (ep < w.p.m_now ? ep : w.p.m_now), "the time of the first unanswered transmission");
}
// ---- gating: assembleData and assembleAck by their contracts (P09, P11; P08)
static size_t g_sent[3], g_asks, g_size, g_ackLen; static bool g_ok[3], g_tc; static Session *g_s; static SendFlow *g_f[3]; static int g_acked, g_prio; static bool g_gate;
STUB_FOR("b_P15_gate", "com::zenomt::rtmfp::SendFlow::assembleData")
static bool assembleContract(SendFlow *f, PacketAssembler *pk, int pri) { v_assert(g_gate and pri == g_prio, "data is assembled only while the window, the burst allowance and the session's state permit"); size_t i = f == g_f[0] ? 0 : 1; v_assert(f == g_f[i] and g_asks == i, "flows take turns in order"); g_asks++; if(not g_ok[i]) return false; pk->startChunk(CHUNK_USERDATA); pk->push((uint8_t)i); pk->commitChunk(); if(g_tc) pk->setTimeCriticalFlag(); g_s->m_outstandingFrags.m_sum += g_size; return true; }
STUB_FOR("b_P15_gate", "com::zenomt::rtmfp::Session::sendAcks")
static bool ackContract(Session *s, PacketAssembler *pk, bool obligatory) { v_assert(s == g_s, "session"); if(obligatory and not s->m_ack_now) return false; if(not g_ackLen) return false; g_acked++; pk->startChunk(CHUNK_ACK_RANGES); pk->push((uint8_t)9); pk->commitChunk(); g_ackLen = 0; return true; }
STUB_FOR("b_P15_gate", "com::zenomt::rtmfp::ISession::encryptAndSendPacket")
static void sendContract(ISession *s, PacketAssembler *pk, uint32_t sid, int i, const Address &a, int tos, SessionCryptoKey *k);
static int g_pk, g_tos; static uint8_t g_flags; static const uint8_t *g_buf;
static void sendContract(ISession *s, PacketAssembler *pk, uint32_t sid, int i, const Address &, int tos, SessionCryptoKey *k) { g_pk++; g_tos = tos; g_flags = g_buf[0]; v_assert(s == g_s and sid == 0x11223344 and i == 1 and k == g_s->m_cryptoKey.get(), "sent to the far end under the session's key"); }
ENTRY b_P15_gate() {
	auto &w = *new World(); Session *s = g_s = w.s.get(); St a = any(w, 1); g_size = nd16("size"); v_assume(g_size > 0); g_prio = v_choose(2, "priority") ? PRI_ROUTINE : PRI_IMMEDIATE; size_t st = v_choose(3, "state"); if(st == 1) s->m_state = Session::S_NEARCLOSE; if(st == 2) s->m_state = Session::S_KEYING_SENT; int on = 1 + (v_choose(4, "interface") == 3); size_t k = v_choose(3, "flows"); g_buf = w.r->m_plaintextBuf;
	for(size_t i = 0; i < k; i++) { auto f = share_ref(new SendFlow(w.r, Bytes(), Bytes(), nullptr, PRI_ROUTINE), false); g_f[i] = f.get(); g_ok[i] = v_choose(2, "has data"); s->m_readyFlows[g_prio].append(f); } s->m_ack_now = v_choose(2, "ack now"); g_ackLen = v_choose(2, "acks") ? 4 : 0; bool hadAcks = g_ackLen; s->m_data_burst_limit = (long)nd16("limit") - 30000; long lim = s->m_data_burst_limit; s->m_srtt = R("srtt", -1, 100); bool alarm = v_choose(2, "pacing"); if(alarm) s->m_burst_alarm = w.r->scheduleRel(1); g_tc = v_choose(2, "time critical"); s->m_next_tsn = 7; s->m_send_ect = g_tc; w.r->m_sessionTC_time = w.r->m_previous_sessionTC_time = -INFINITY; bool tcr = g_tc; if(tcr) w.r->m_sessionTC_time = w.p.m_now; w.r->m_sessionReportingTC = 0; Time tct = s->m_tc_sent_time; s->m_last_keepalive_tx_time = -5; v_cover("gate");
	bool ob = s->m_ack_now and hadAcks, wnd = (a.cwnd > a.out), burst = (lim > 0) | (s->m_srtt < BURST_RTT_THRESH), here = st == 0 and on == 1; g_gate = here and not ob and wnd and burst; bool any = false; size_t who = 0; for(size_t i = k; i-- > 0;) if(g_ok[i]) { any = true; who = i; }
	bool r = s->onInterfaceWritable(on, g_prio); bool data = g_gate and any; auto &q = s->m_readyFlows[g_prio];
	v_assert(r == (here and (data or ob)), "the opportunity is used exactly when there is something to send"); v_assert(g_pk == r, "one packet"); v_assert(s->m_next_tsn == 7 + (uintmax_t)data and s->m_data_burst_limit == lim - (data ? (long)g_size : 0), "each data packet is numbered and charged to the burst allowance"); v_assert(g_acked == (here and hadAcks and (ob or data)), "waiting acknowledgements ride along");
	if(not g_gate) v_assert(q.size() == k and s->m_outstandingFrags.sum() == a.out, "otherwise every flow keeps its turn"); else if(data) { v_assert(q.size() == k - who and q.at(q.last()).get() == g_f[who], "flows with nothing to send leave, the served one goes to the back"); } else v_assert(q.empty(), "flows with nothing to send leave");
	if(here and not ob and wnd and not burst) v_assert(s->m_burst_alarm != nullptr, "a spent burst allowance is paced"); else v_assert((s->m_burst_alarm != nullptr) == alarm, "pacing");
	if(r) { v_assert((g_flags & 3) == s->m_role and ((g_flags & HEADER_FLAG_TCR) != 0) == tcr and ((g_flags & HEADER_FLAG_TC) != 0) == (data and g_tc), "time-critical marks"); v_assert(g_tos == (data and g_tc ? IPTOS_ECN_ECT0 : 0), "ECN marking on data only"); v_assert(s->m_last_keepalive_tx_time == w.p.m_now, "activity"); if(data and g_tc) v_assert(s->m_tc_sent_time == w.p.m_now and w.r->m_tc_sent_time == w.p.m_now, "time-critical transmission is noted"); else v_assert(s->m_tc_sent_time == tct, "and only then"); }
	if(on != 1) v_assert(w.r->m_interfaces.size() == 1 and not r, "work moves to the session's own interface");
}
// the pacing alarm: a segment per share of the round-trip time
ENTRY h_P15_pace() {
	auto &w = *new World(); Session *s = w.s.get(); any(w, 1); s->m_srtt = R("srtt", BURST_RTT_THRESH, 100); long lim = s->m_data_burst_limit = (long)nd16("limit") - 65535; Time now = w.p.m_now; v_cover("pace"); s->scheduleBurstAlarm(); v_assert(s->m_burst_alarm != nullptr, "scheduled"); Time at = s->m_burst_alarm->getNextFireTime(); long debt = (long)SENDER_MSS - lim;
	v_assert((at - now) * s->m_cwnd == s->m_srtt * debt, "the debt is spread over the round-trip time in proportion to the window"); v_assert(at >= now, "later");
}
ENTRY b_P15_paced() {
	auto &w = *new World(); Session *s = w.s.get(); s->m_srtt = 1; s->m_cwnd = CWND_INIT; s->m_data_burst_limit = -5; s->scheduleBurstAlarm(); auto t = s->m_burst_alarm; v_assert(t != nullptr, "scheduled"); Time r = s->m_srtt = R("srtt", BURST_RTT_THRESH, 100); static const size_t W[6] = { CWND_TIMEDOUT, CWND_INIT, 5000, 76801, 160000, 1000000 }; s->m_cwnd = W[v_choose(6, "cwnd")]; Time late = R("late", 0, 10); v_cover("paced"); t->action(t, t->getNextFireTime() + late); v_assert(s->m_burst_alarm == nullptr, "once"); long got = s->m_data_burst_limit - (long)SENDER_MSS; v_assert(got >= 0, "a segment may be sent"); v_assert((Time)got * r <= late * s->m_cwnd, "plus no more than what was missed");
}
// ECN: congestion reported by the far end counts as loss once per new mark
ENTRY h_P15_ecn() {
	auto &w = *new World(); Session *s = w.s.get(); uint8_t old = s->m_rx_ece_count = nd8("old"), c[2] = { nd8("count"), 0 }; bool was = s->m_congestionNotifiedThisPacket = ndb("was"); size_t n = v_choose(3, "length"); v_cover("ecn"); s->onChunk(HEADER_MODE_RESPONDER, CHUNK_ECN_REPORT, c, c + n, 1, (sockaddr *)&w.sin); uint8_t d = c[0] - old; bool fresh = n > 0 and d != 0 and d < 0xe0;
	v_assert(s->m_congestionNotifiedThisPacket == (was or fresh) and s->m_rx_ece_count == (fresh ? c[0] : old), "a newer count is congestion, an old or repeated one is not"); v_assert(s->m_seen_ecn_report == (n > 0), "the far end reports");
}
// ---- P16: headers
static bool g_base; static Duration g_rtt;
STUB_FOR("h_P16_header", "com::zenomt::rtmfp::Session::checkBaseRTT")
static void baseContract(Session *s, Duration rtt, Time now) { v_assert(not g_base and s == g_s and now == s->m_rtmfp->getCurrentTime(), "each measurement is recorded once"); g_base = true; g_rtt = rtt; }
ENTRY h_P16_header() {
	auto &w = *new World(); Session *s = g_s = w.s.get(); w.r->m_epoch = 0; w.p.m_now = R("now", 0, 1e6); Time now = w.p.m_now; size_t st = v_choose(4, "state"); if(st == 1) s->m_state = Session::S_KEYING_SENT; if(st == 2) s->m_state = Session::S_NEARCLOSE; if(st == 3) s->m_state = Session::S_FARCLOSE_LINGER;
	bool have = v_choose(2, "measured"); s->m_srtt = have ? R("srtt", 0, 200) : -1; s->m_rttvar = have ? R("var", 0, 200) : 0; s->m_mrto = have ? s->m_srtt + 4 * s->m_rttvar + DELACK_ALARM_PERIOD : INITIAL_MRTO; s->m_erto = R("erto", MINIMUM_ERTO, 1000); v_assume(s->m_erto >= s->m_mrto); Time srtt = s->m_srtt, var = s->m_rttvar, mrto = s->m_mrto, erto = s->m_erto;
	s->m_ts_rx = v_choose(2, "had timestamp") ? (long)nd16("ts rx") : -1; s->m_ts_rx_time = R("rx time", 0, 1e6); s->m_ts_echo_rx = v_choose(2, "had echo") ? (long)nd16("echo rx") : -1; long tsrx = s->m_ts_rx, erx = s->m_ts_echo_rx; Time rxt = s->m_ts_rx_time, lrt = s->m_last_rtt_time; size_t pre = s->m_outstandingFrags.m_sum = Z("outstanding"); s->m_any_acks = true; s->m_congestionNotifiedThisPacket = s->m_seenUserDataThisPacket = true; s->m_pre_ack_outstanding = 1;
	uint8_t flags = nd8("flags"); long ts = v_choose(2, "timestamp") ? (long)nd16("ts") : -1, te = v_choose(2, "echo") ? (long)nd16("te") : -1; int tos = nd8("tos"); v_cover("header"); bool ce0 = s->m_seen_new_ecn; uintmax_t ce = s->m_ecn_ce_count = nd64("ce") % 1000; uint16_t clock = w.r->getCurrentTimestamp(); s->m_tcr_recv_time = -3;
	bool r = s->onPacketHeader(flags, ts, te, tos); bool mine = (flags & 3) == 0 or (flags & 3) == s->m_role; v_assert(r == not mine, "a packet in the session's own mode is not from the far end"); bool open = st == 0 and r;
	if(r) v_assert(not s->m_any_acks and not s->m_congestionNotifiedThisPacket and not s->m_seenUserDataThisPacket and s->m_pre_ack_outstanding == pre and s->m_outstandingFrags.sum() == pre, "per-packet state starts over"); else v_assert(s->m_any_acks and s->m_pre_ack_outstanding == 1, "nothing changes");
	bool nts = r and (st == 0 or st == 1) and ts >= 0 and ts != tsrx; v_assert(s->m_ts_rx == (nts ? ts : tsrx) and s->m_ts_rx_time == (nts ? now : rxt), "a new timestamp is noted with its arrival time");
	bool nte = open and te >= 0 and te != erx; uint16_t ticks = clock - (uint16_t)te; bool meas = nte and ticks < 32768; v_assert(s->m_ts_echo_rx == (nte ? te : erx), "each echo counts once"); v_assert(g_base == meas, "measured");
	if(meas) { Time rtt = ticks * HEADER_TIMESTAMP_PERIOD; Time d = srtt - rtt; if(d < 0) d = -d; v_assert(s->m_last_rtt == rtt and g_rtt == rtt and s->m_last_rtt_time == now, "the measurement is the time since the echoed timestamp"); if(have) { v_assert(s->m_srtt * 8 == srtt * 7 + rtt, "smoothed round-trip time"); v_assert(s->m_rttvar * 4 == var * 3 + d, "smoothed variation"); } else v_assert(s->m_srtt == rtt and s->m_rttvar * 2 == rtt, "the first measurement is taken as it is"); v_assert(s->m_mrto == s->m_srtt + 4 * s->m_rttvar + DELACK_ALARM_PERIOD, "timeout from the estimates"); v_assert(s->m_erto == (s->m_mrto > MINIMUM_ERTO ? s->m_mrto : MINIMUM_ERTO), "never below the minimum"); }
	else v_assert(s->m_srtt == srtt and s->m_rttvar == var and s->m_mrto == mrto and s->m_erto == erto and s->m_last_rtt_time == lrt, "otherwise the estimates stay");
	v_assert((s->m_srtt >= 0 or s->m_srtt == -1) and s->m_rttvar >= 0 and s->m_erto >= MINIMUM_ERTO and s->m_erto >= s->m_mrto, "the estimates stay sane");
	v_assert(s->m_tcr_recv_time == (open and (flags & HEADER_FLAG_TCR) ? now : -3) and (w.r->m_sessionReportingTC == (uintptr_t)s) == (open and (flags & HEADER_FLAG_TC)), "time-critical reports"); v_assert(s->m_ecn_ce_count == ce + (open and (tos & 3) == 3) and s->m_seen_new_ecn == (ce0 or (open and (tos & 3))), "congestion marks are counted");
}
// echoes sent: the last timestamp received plus the time it was held, nothing when it is too old or unchanged
ENTRY b_P16_echo() {
	auto &w = *new World(); Session *s = w.s.get(); size_t have = v_choose(3, "have"); Time at = R("at", 0, 1e6), part; uint16_t K; static const uint16_t KS[8] = { 0, 1, 249, 250, 4095, 20000, 31999, 32000 }; { K = KS[v_choose(8, "ticks held")]; part = R("part", 0, 1); v_assume(part < 1); } Time held = (K + part) / HEADER_TIMESTAMP_SCALE; if(have == 2) held = R("held", 0, 1e6); w.p.m_now = at + held; s->m_ts_rx = have ? (long)nd16("ts") : -1; s->m_ts_rx_time = have ? at : -INFINITY; v_assume(have == 0 or (have == 2) == (held > MAX_TS_ECHO_ELAPSED)); bool sent = v_choose(2, "sent"); s->m_ts_echo_tx = sent ? (long)nd16("tx") : -1; long tx = s->m_ts_echo_tx, rx = s->m_ts_rx; v_cover("echo"); long e = s->getTimestampEcho();
	if(have != 1) { v_assert(e == -1 and s->m_ts_rx == -1 and s->m_ts_echo_tx == -1, "an old timestamp is not echoed"); return; } v_assert(s->m_ts_rx == rx and s->m_ts_echo_tx == tx, "state"); uint16_t want = (uint16_t)(rx + K);
	if(e >= 0) { v_assert(e == want and e != tx, "a new echo is the timestamp advanced by the time it was held"); } else v_assert(e == -1 and tx == want, "only a repetition is left out");
}
ENTRY h_P16_stamp() { auto &w = *new World(); Session *s = w.s.get(); w.r->m_epoch = R("epoch", 0, 1000); w.p.m_now = R("now", 0, 1e6); v_assume(w.p.m_now >= w.r->m_epoch); Time age = w.p.m_now - w.r->m_epoch; s->m_ts_tx = v_choose(2, "sent") ? (long)nd16("tx") : -1; long tx = s->m_ts_tx; v_cover("stamp"); uint16_t c = w.r->getCurrentTimestamp(); uint64_t full = (uint64_t)(age * HEADER_TIMESTAMP_SCALE); v_assert(c == (full & 0xffff) and (Time)full <= age * HEADER_TIMESTAMP_SCALE and age * HEADER_TIMESTAMP_SCALE < (Time)full + 1, "the clock counts four-millisecond ticks"); long t = s->getTimestampIfNew(); v_assert(t == (c == tx ? -1 : c) and s->m_ts_tx == tx, "a timestamp is sent once"); }
// base round-trip time: the minimum over the recent history
static void base(size_t max) {
	auto &w = *new World(); Session *s = w.s.get(); size_t k = v_choose(max + 1, "history"); Time now = R("now", 0, 1e6), rtt = R("rtt", 0, 200), at[6], mr[6], lo = INFINITY; for(size_t i = 0; i < k; i++) { at[i] = R("at", 0, 1e6); v_assume(at[i] <= now); if(i) v_assume(at[i] <= at[i - 1] - RTT_HISTORY_THRESH); mr[i] = R("min", 0, 200); s->m_rttMeasurements.push_back({ mr[i], at[i] }); lo = lo < mr[i] ? lo : mr[i]; } s->m_base_rtt = v_choose(2, "base") ? R("b", 0, 200) : INFINITY; if(s->m_base_rtt < INFINITY) for(size_t i = 0; i < k; i++) v_assume(s->m_base_rtt <= mr[i]); s->m_last_minrtt_probe = -7; Time b0 = s->m_base_rtt; v_cover("base");
	s->checkBaseRTT(rtt, now); auto &h = s->m_rttMeasurements; v_assert(s->m_base_rtt <= rtt, "never above a fresh measurement"); v_assert((s->m_last_minrtt_probe == now) == (s->m_base_rtt < b0) or now == -7, "a new minimum restarts the probe interval"); bool roll = k == 0 or now - at[0] > RTT_HISTORY_THRESH;
	if(not roll) { v_assert(h.size() == k and h.front().origin == at[0] and h.front().min_rtt == (mr[0] < rtt ? mr[0] : rtt), "the current period keeps its minimum"); v_assert(s->m_base_rtt == (b0 < rtt ? b0 : rtt), "minimum"); return; }
	size_t keep = 0; Time m = rtt; for(size_t i = 0; i < k; i++) if(now - at[i] <= RTT_HISTORY_THRESH * RTT_HISTORY_CAPACITY) { keep++; m = m < mr[i] ? m : mr[i]; } v_assert(h.size() == keep + 1 and h.front().origin == now and h.front().min_rtt == rtt, "a new period starts, old ones are dropped"); v_assert(s->m_base_rtt == m, "the base is the minimum of what is recent");
}
ENTRY b_P16_base() { base(3); }
ENTRY bt_P16_baseLong() { base(6); }
