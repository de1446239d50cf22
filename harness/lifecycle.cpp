// contracts for session states (P14)
#include "core.hpp"
static Time R(const char *n, Time lo, Time hi) { Time t = v_real(n); v_assume(t >= lo and t <= hi); return t; }
static const uint8_t ST[7] = { Session::S_UNKNOWN, Session::S_IHELLO_SENT, Session::S_KEYING_SENT, Session::S_OPEN, Session::S_NEARCLOSE, Session::S_FARCLOSE_LINGER, Session::S_CLOSED };
static size_t sentOf(World &w, uint8_t type) { size_t n = 0; auto q = w.r->m_startupSession->m_sendItems[1]; while(q.size()) { auto &b = q.front()->m_bytes; n += b.size() == 3 and b[0] == type and b[1] == 0 and b[2] == 0; q.pop(); } return n; }
struct Told { int exc = 0, done = 0, err = 0; uintmax_t code = 7; };
struct Life { World w; Session *s; Told t; std::shared_ptr<SendFlow> f; std::shared_ptr<RecvFlow> g; bool send, recv, acc; size_t react; };
// a session in any state, with up to one flow each way while open; the flow's callbacks may close things or drop the last handle
static Life &life(uint8_t st) {
	auto &l = *new Life(); l.s = l.w.s.get(); Session *s = l.s; l.send = l.recv = l.acc = false; l.react = 0; l.w.p.m_now = 100; if(st >= Session::S_OPEN) { s->m_state = Session::S_IHELLO_SENT; s->setOpen(l.w.s, 0x11223344); }
	if(st == Session::S_OPEN) { l.send = v_choose(2, "send flow"); l.recv = v_choose(2, "receive flow"); l.react = v_choose(4, "reaction"); Told *t = &l.t; Life *pl = &l;
		if(l.send) { l.f = l.w.r->openFlow(Bytes(1, 1), Bytes(), PRI_ROUTINE); l.f->onException = [t, pl](uintmax_t c) { t->exc++; t->code = c; if(pl->react == 1) pl->f.reset(); if(pl->react == 2) pl->s->close(true); if(pl->react == 3 and pl->f) pl->f->close(); }; if(v_choose(2, "queued")) { uint8_t d[1] = { 1 }; l.f->write(d, 1); } }
		if(l.recv) { l.acc = v_choose(2, "accepted"); l.w.r->onRecvFlow = [pl, t](std::shared_ptr<RecvFlow> g) { pl->g = g; if(pl->acc) g->accept(); g->onComplete = [t, pl](bool e) { t->done++; t->err += e; if(pl->react == 1) pl->g.reset(); if(pl->react == 2) pl->s->close(true); if(pl->react == 3 and pl->g) pl->g->close(); }; }; uint8_t m[1] = { 1 }; s->onUserData(USERDATA_FRA_WHOLE, 5, 1, 0, nullptr, m, 1, m, 1, false); l.w.p.run(); } }
	else if(st == Session::S_NEARCLOSE) s->setNearclose(); else if(st == Session::S_FARCLOSE_LINGER) s->setFarcloseLinger(); else if(st == Session::S_CLOSED) s->abort(); else s->m_state = (Session::State)st;
	return l;
}
enum { E_CLOSE, E_DROP, E_ABORT, E_CCLOSE, E_CACK, EVENTS };
// the state after an event, and whether a close acknowledgement is sent
static uint8_t after(uint8_t st, size_t ev, bool &ack) {
	ack = false; if(st == Session::S_CLOSED) return st; if(ev == E_ABORT) return Session::S_CLOSED; bool up = st >= Session::S_OPEN;
	if(not up) return ev == E_CLOSE or ev == E_DROP ? Session::S_CLOSED : st; if(ev == E_CLOSE) return st == Session::S_OPEN ? Session::S_NEARCLOSE : st; if(ev == E_DROP) { ack = true; return Session::S_CLOSED; }
	if(ev == E_CCLOSE) { ack = true; return st == Session::S_OPEN ? Session::S_FARCLOSE_LINGER : st; } ack = st == Session::S_OPEN; return Session::S_CLOSED;
}
static void apply(Life &l, size_t ev, uint8_t mode) { Session *s = l.s; if(ev == E_CLOSE) s->close(true); else if(ev == E_DROP) s->close(false); else if(ev == E_ABORT) s->abort(); else { uint8_t b[1] = { 0 }; s->onChunk(mode, ev == E_CCLOSE ? CHUNK_CLOSE : CHUNK_CLOSE_ACK, b, b, 1, (sockaddr *)&l.w.sin); } }
static void check(Life &l, uint8_t st) {
	Session *s = l.s; auto &w = l.w; v_assert(s->m_state == st, "the specified state, never an earlier one"); bool open = st == Session::S_OPEN, was = l.t.exc or l.t.done; (void)was;
	v_assert((w.r->findOpenSessionByAddress(s->m_destAddr) == w.s) == open and (w.r->findOpenSessionByEPD(Bytes(1, 1)) == w.s) == open, "found by address and identity exactly while open"); v_assert((w.r->m_sessions.has(s->m_rxSessionID) and w.r->m_sessions.at(s->m_rxSessionID) == w.s) == (st != Session::S_CLOSED), "found by session ID until closed");
	v_assert(l.t.exc == (l.send and not open) and l.t.done == (l.recv and l.acc and not open) and l.t.err == l.t.done, "every flow is told once, as an error"); if(l.t.exc) v_assert(l.t.code == 0, "with no exception code of the far end");
	if(open or st < Session::S_OPEN) return; v_assert(s->m_sendFlows.empty() and s->m_recvFlows.empty() and s->m_ackFlows.empty() and s->m_outstandingFrags.empty(), "no flow remains"); for(int i = 0; i < NUM_PRIORITIES; i++) v_assert(s->m_readyFlows[i].empty(), "nor is scheduled"); v_assert(not s->m_keepalive_timer and not s->m_idle_timer and not s->m_timeout_alarm and not s->m_delack_alarm and not s->m_burst_alarm and not s->m_iikeyingTimer, "no timer of an open session remains"); if(l.f) v_assert(not l.f->isOpen() and l.f->m_send_queue.empty(), "closed flow"); if(l.g) v_assert(not l.g->isOpen(), "closed flow");
}
ENTRY b_P14_events() {
	size_t i = v_choose(7, "state"), ev = v_choose(EVENTS, "event"); uint8_t st = ST[i], mode = v_choose(2, "startup packet") ? HEADER_MODE_STARTUP : HEADER_MODE_RESPONDER; auto &l = life(st); v_cover("events"); size_t acks = sentOf(l.w, CHUNK_CLOSE_ACK); bool ack; uint8_t to = ev >= E_CCLOSE and mode == HEADER_MODE_STARTUP ? (ack = false, st) : after(st, ev, ack);
	apply(l, ev, mode); check(l, to); v_assert(sentOf(l.w, CHUNK_CLOSE_ACK) == acks + ack, "a close is acknowledged exactly when one is due"); l.w.p.run(); l.w.r->doTimerWork(); check(l, to); v_assert(sentOf(l.w, CHUNK_CLOSE) == (to == Session::S_NEARCLOSE ? 1 : 0), "closing is announced");
}
// three events in a row, with the timers run in between
ENTRY b_P14_history() {
	auto &l = life(Session::S_OPEN); uint8_t st = Session::S_OPEN; v_cover("history"); for(int k = 0; k < 3; k++) { size_t ev = v_choose(EVENTS, "event"); bool ack; st = after(st, ev, ack); apply(l, ev, HEADER_MODE_RESPONDER); check(l, st); l.w.p.run(); l.w.r->doTimerWork(); check(l, st); }
}
// closing resends until answered or given up
ENTRY b_P14_nearclose() {
	auto &w = *new World(); Session *s = w.s.get(); w.p.m_now = 100; s->m_state = Session::S_IHELLO_SENT; s->setOpen(w.s, 1); s->close(true); v_cover("nearclose"); Time t = 100, last = -INFINITY; size_t sent = 0; for(int k = 0; k < 3; k++) { Time d = R("delay", 0, 100); t += d; w.p.m_now = t; w.r->doTimerWork(); if(s->m_state == Session::S_CLOSED) { v_assert(t - 100 >= NEARCLOSE_PERIOD, "closing is not given up early"); v_assert(not w.r->m_sessions.has(s->m_rxSessionID), "closed"); size_t c = sentOf(w, CHUNK_CLOSE); w.p.m_now = t + 1000; w.r->doTimerWork(); v_assert(sentOf(w, CHUNK_CLOSE) == c, "nothing more is sent"); return; }
		v_assert(t - 100 < NEARCLOSE_PERIOD + NEARCLOSE_RTX_PERIOD, "closing ends"); size_t n = sentOf(w, CHUNK_CLOSE); v_assert(n >= sent and n <= sent + 2, "sent again at most once per period"); if(t - last >= NEARCLOSE_RTX_PERIOD) v_assert(n > sent, "the close is sent again when a period passed"); if(n > sent) last = t; sent = n; }
}
ENTRY h_P14_linger() {
	auto &w = *new World(); Session *s = w.s.get(); Time t0 = w.p.m_now = R("now", 0, 1e6); s->setFarcloseLinger(); v_cover("linger"); Time d = w.p.m_now = R("later", 0, 2e6); v_assume(d >= t0); w.r->doTimerWork(); v_assert(s->m_state == (d - t0 >= FARCLOSE_LINGER_PERIOD ? Session::S_CLOSED : Session::S_FARCLOSE_LINGER), "a session closed by the far end lingers for its period, then closes");
}
// an opening that does not complete ends, telling the flows that wait for it
ENTRY h_P14_opening() {
	auto &w = *new World(false); size_t keying = v_choose(3, "state"); Time t0 = w.p.m_now = R("now", 0, 1e6); int exc = 0; auto f = w.r->openFlow(Bytes(3, 9), Bytes(), PRI_ROUTINE); auto s = f->m_openingSession; v_assert(s and s->m_state == Session::S_IHELLO_SENT and s->m_interestCount == 1, "opening"); f->onException = [&exc](uintmax_t) { exc++; }; v_cover("opening"); auto f2 = v_choose(2, "two") ? w.r->openFlow(Bytes(3, 9), Bytes(), PRI_ROUTINE) : nullptr; if(f2) v_assert(f2->m_openingSession == s, "one attempt per endpoint");
	if(keying == 1) s->m_state = Session::S_KEYING_SENT; if(keying == 2) { s->m_cryptoCert = w.c.m_cert; s->m_destAddr = Address((sockaddr *)&w.sin); s->m_destInterfaceID = 1; s->setOpen(s, 5); w.p.run(); }
	if(v_choose(2, "lose interest")) { f->close(); if(f2) { v_assert(s->m_state != Session::S_CLOSED, "still wanted"); f2->close(); } v_assert(s->m_state == (keying == 0 ? Session::S_CLOSED : keying == 1 ? Session::S_KEYING_SENT : Session::S_OPEN), "an attempt nobody waits for is given up before keying"); v_assert(exc == 0, "a closed flow is not told"); return; }
	Time t = w.p.m_now = R("later", 0, 2e6); v_assume(t >= t0); w.r->doTimerWork(); bool gone = keying < 2 and t - t0 >= ULTIMATE_SESSION_TIMEOUT; v_assert((s->m_state == Session::S_CLOSED) == gone, "an attempt ends after its ultimate timeout unless it opened"); v_assert(exc == gone and f->isOpen() == not gone, "the flow is told"); if(gone) v_assert(w.r->m_openingFlows.empty() and w.r->m_openingSessions.empty() and not w.r->m_sessions.has(s->m_rxSessionID), "nothing remains");
}
// keepalive and idle limits of an open session
ENTRY h_P14_keepalive() {
	auto &w = *new World(); Session *s = w.s.get(); bool open = v_choose(2, "open"); if(not open) s->m_state = Session::S_NEARCLOSE; s->m_role = v_choose(2, "role") ? HEADER_MODE_INITIATOR : HEADER_MODE_RESPONDER; Time now = w.p.m_now = R("now", 0, 1e6), last = s->m_last_keepalive_tx_time = R("last", 0, 1e6), ask = R("period", -10, 1e5); s->m_mrto = R("mrto", 0.25, 100); v_cover("keepalive"); s->setKeepalivePeriod(ask); Time p = ask < MIN_KEEPALIVE_PERIOD ? MIN_KEEPALIVE_PERIOD : ask; v_assert(s->getKeepalivePeriod() == p, "the period has a minimum"); w.r->doTimerWork(); if(not open) { v_assert(not s->m_keepalive_outstanding and sentOf(w, CHUNK_PING) == 0, "only while open"); return; }
	Time dl = last + p + (s->m_role == HEADER_MODE_RESPONDER ? s->m_mrto : 0); v_assert(s->m_keepalive_outstanding == (now >= dl) and sentOf(w, CHUNK_PING) == (now >= dl ? 1 : 0), "a ping is sent exactly when nothing was for the period"); if(now < dl) v_assert(s->m_keepalive_timer->getNextFireTime() == dl, "checked again then"); else v_assert(s->m_last_keepalive_tx_time == now and s->m_timeout_alarm != nullptr, "and awaited");
}
ENTRY h_P14_idle() {
	auto &w = *new World(); Session *s = w.s.get(); size_t fl = v_choose(3, "flows"); if(fl == 1) { auto f = share_ref(new SendFlow(w.r, Bytes(1, 1), Bytes(), nullptr, PRI_ROUTINE), false); f->m_session = w.s; s->bindFlow(f); } if(fl == 2) s->m_recvFlows[4] = share_ref(new RecvFlow(w.s, 4, nullptr, 0, nullptr), false); Time now = w.p.m_now = R("now", 0, 1e6), last = s->m_last_idle_time = R("last", 0, 1e6), ask = R("limit", -10, 1e5); v_cover("idle"); s->setIdleLimit(ask); Time p = ask < MIN_IDLE_PERIOD ? MIN_IDLE_PERIOD : ask; v_assert(s->getIdleLimit() == p, "the limit has a minimum"); auto t = s->m_idle_timer; w.r->doTimerWork();
	if(now < last + p) v_assert(s->m_state == Session::S_OPEN and t->getNextFireTime() == last + p, "not before the limit"); else if(fl) v_assert(s->m_state == Session::S_OPEN and t->getNextFireTime() == now + p, "not while there are flows"); else v_assert(s->m_state == Session::S_NEARCLOSE, "an idle session closes orderly");
}
