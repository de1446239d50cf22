// contracts for sessions: packet framing and chunk parsers (P13)
#include "core.hpp"
static const size_t CAP = DECRYPT_BUF_LENGTH;
struct AnyKey : TestKey { size_t n, margin; bool ok; const uint8_t *src; size_t len; bool decrypt(uint8_t *, size_t &dn, size_t &m, const uint8_t *s, size_t l) override { v_assert(dn == CAP and s == src and l == len, "the cipher gets the packet and the room there is"); if(not ok) return false; dn = n; m = margin; return true; } };
struct Probe : ISession { uint8_t *end, *pos; uint8_t flags; long ts, tse; int tos, headers = 0, after = 0; bool accept; const struct sockaddr *addr;
	Probe(RTMFP *r, std::shared_ptr<SessionCryptoKey> k) : ISession(r, k) {}
	bool onInterfaceWritable(int, int) override { return false; }
	bool onPacketHeader(uint8_t f, long t, long te, int o) override { v_assert(f == flags and t == ts and te == tse and o == tos, "the header's flags and timestamps"); headers++; return accept; }
	void onChunk(uint8_t mode, uint8_t type, const uint8_t *chunk, const uint8_t *limit, int i, const struct sockaddr *a) override {
		if(pos > end) { v_assert(false, "chunks lie inside the packet"); return; }
		v_assert(accept and headers == 1 and after == 0, "chunks follow an accepted header"); v_assert(chunk == pos + 3 and type == pos[0] and (size_t)(limit - chunk) == (size_t)(pos[1] * 256 + pos[2]), "each chunk is delimited by its header"); v_assert(chunk <= limit and limit <= end, "and lies completely inside the packet"); v_assert(mode == (flags & 3) and i == 9 and a == addr, "with the packet's mode and source"); pos = (uint8_t *)limit;
	}
	void onPacketAfterChunks(uint8_t f, long t, long te, int i, const struct sockaddr *a) override { v_assert(f == flags and t == ts and te == tse and i == 9 and a == addr, "end of packet"); after++; }
};
// any decrypted packet: header fields and chunk boundaries
ENTRY h_P13_frame() {
	auto &w = *new World(); auto *k = new AnyKey(); auto *p = new Probe(w.r, share_ref(k, false)); size_t n = nd64("n"), m = nd64("margin"); v_assume(n <= CAP); k->n = n; k->margin = m; k->ok = v_choose(2, "decrypts"); uint8_t in[4]; k->src = in; k->len = nd64("len"); uint8_t *b = (uint8_t *)v_bytes(CAP, "cleartext"); v_cover("frame"); v_cfg("inv", 1);
	size_t h = 1; bool have = k->ok and m < n; p->tos = nd8("tos"); p->addr = (sockaddr *)&w.sin; p->accept = v_choose(2, "accept"); p->end = b + n; if(have) { p->flags = b[m]; bool t = (p->flags & HEADER_FLAG_TS) != 0, e = (p->flags & HEADER_FLAG_TSE) != 0; h += t * 2 + e * 2; if(n - m < h) have = false; else { p->ts = t ? b[m + 1] * 256 + b[m + 2] : -1; p->tse = e ? b[m + h - 2] * 256 + b[m + h - 1] : -1; p->pos = b + m + h; } }
	bool r = p->ISession::onReceivePacket(in, k->len, 9, p->addr, p->tos, b);
	v_assert(p->headers == have, "a packet without a complete header is dropped"); v_assert(r == (have and p->accept) and p->after == r, "answer"); if(r) { size_t left = p->end - p->pos; v_assert(left < 3 or (size_t)(p->pos[1] * 256 + p->pos[2]) > left - 3, "every complete chunk was processed, a truncated one is not"); }
}
// ---- chunk parsers.  VLU::parse by its contract (proved for P01): an arbitrary number of arbitrary encoded length inside the chunk, or none
static uint8_t *g_c; static size_t g_n; static int g_calls; static struct sockaddr *g_from;
struct Num { size_t at, len, lim; uintmax_t val; }; static Num g_num[20]; static size_t g_nn, g_k;
STUB_FOR("._P13_c_.*", "com::zenomt::rtmfp::VLU::parse")
static size_t parseContract(const uint8_t *src, const uint8_t *limit, uintmax_t *dst, bool) {
	size_t off = src - g_c; if(g_k >= g_nn) { v_assert(false, "no more numbers than the format has"); return 0; } Num &x = g_num[g_k++]; v_assert(limit == g_c + x.lim, "numbers are parsed inside the chunk"); v_assert(off == x.at, "numbers are parsed where the format has them"); if(x.len and dst) *dst = x.val; return x.len;
}
// the format: a number, a length-prefixed field, the rest; numbers not encoded completely make the chunk malformed
struct Cur { size_t at = 0; bool ok = true; size_t lim = g_n;
	uintmax_t num(bool field = false) { if(not ok) return 0; size_t room = lim - at; Num &x = g_num[g_nn++]; x.at = at; x.lim = lim; x.len = 0; x.val = 0; size_t how = v_choose(field ? 3 : 2, "number");
		if(how == 1) { ok = false; return 0; } x.len = nd16("len"); v_assume(x.len >= 1 and x.len <= room); if(how == 0 and field) { x.val = nd16("val"); v_assume(x.val <= room - x.len); } else { x.val = nd64("val"); if(field) { v_assume(x.val > room - x.len); ok = false; } }
		at += x.len; return x.val; }
	size_t fat, flen; void field() { flen = num(true); fat = at; if(ok) at += flen; } };
static void mkChunk(size_t max = 65535) { g_n = nd16("n"); v_assume(g_n <= max); g_c = (uint8_t *)v_bytes(g_n, "chunk"); g_calls = 0; g_nn = g_k = 0; }
static bool is(const uint8_t *p, size_t n, size_t at, size_t len) { return (p == g_c + at) & (n == len); }
static Address *g_fi; static size_t x_a[4], x_n[4]; static uintmax_t x_v[4];
STUB_FOR("h_P13_c_.*", "com::zenomt::rtmfp::RTMFP::onIHello")
static void ihelloC(RTMFP *, const uint8_t *epd, size_t en, const uint8_t *tag, size_t tn, int i, const struct sockaddr *a, FIHelloResponseMode m) { g_calls++; v_assert(is(epd, en, x_a[0], x_n[0]) and is(tag, tn, x_a[1], x_n[1]), "endpoint and tag as encoded"); if(g_from) v_assert(i == 9 and a == g_from and m == FI_SEND_RHELLO, "answered to its source"); else v_assert(i == -1 and Address(a) == *g_fi and m == (FIHelloResponseMode)x_v[0], "a forwarded hello is answered as configured, to the address it names"); }
STUB_FOR("h_P13_c_.*", "com::zenomt::rtmfp::RTMFP::onRHello")
static void rhelloC(RTMFP *, const uint8_t *tag, size_t tn, const uint8_t *co, size_t cn, const uint8_t *ce, size_t en, int i, const struct sockaddr *a) { g_calls++; v_assert(is(tag, tn, x_a[0], x_n[0]) and is(co, cn, x_a[1], x_n[1]) and is(ce, en, x_a[2], x_n[2]) and i == 9 and a == g_from, "tag, cookie and certificate as encoded"); }
STUB_FOR("h_P13_c_.*", "com::zenomt::rtmfp::RTMFP::onIIKeying")
static void iikeyingC(RTMFP *, uint32_t sid, const uint8_t *co, size_t cn, const uint8_t *ce, size_t en, const uint8_t *sk, size_t sn, const uint8_t *sp, size_t pn, const uint8_t *sg, size_t gn, int i, const struct sockaddr *a) { g_calls++; uint32_t s; memcpy(&s, g_c, 4);
	v_assert(sid == s and is(co, cn, x_a[0], x_n[0]) and is(ce, en, x_a[1], x_n[1]) and is(sk, sn, x_a[2], x_n[2]), "session ID, cookie, certificate and keying component as encoded"); v_assert(is(sp, pn, 0, x_a[3]) and is(sg, gn, x_a[3], g_n - x_a[3]), "the signature is what follows and covers all of it"); v_assert(i == 9 and a == g_from, "source"); }
STUB_FOR("h_P13_c_.*", "com::zenomt::rtmfp::Session::onRIKeying")
static void rikeyingC(Session *, uint32_t sid, const uint8_t *sk, size_t sn, const uint8_t *sp, size_t pn, const uint8_t *sg, size_t gn, int i, const struct sockaddr *a) { g_calls++; uint32_t s; memcpy(&s, g_c, 4); v_assert(sid == s and is(sk, sn, x_a[0], x_n[0]) and is(sp, pn, 0, x_a[1]) and is(sg, gn, x_a[1], g_n - x_a[1]) and i == 9 and a == g_from, "session ID, keying component and signature as encoded"); }
STUB_FOR("h_P13_c_.*", "com::zenomt::rtmfp::Session::onCookieChange")
static void cookieC(Session *, const uint8_t *o, size_t on, const uint8_t *nw, size_t nn, int i, const struct sockaddr *a) { g_calls++; v_assert(is(o, on, x_a[0], x_n[0]) and is(nw, nn, x_a[1], x_n[1]) and i == 9 and a == g_from, "old and new cookie as encoded"); }
ENTRY h_P13_c_startup() {
	auto &w = *new World(); mkChunk(); g_from = (sockaddr *)&w.sin; auto *s = w.r->m_startupSession.get(); size_t what = v_choose(4, "what"); Cur c; bool ok = true; uint8_t type; v_cover("startup"); s->m_seenIHelloThisPacket = ndb("seen"); bool seen = s->m_seenIHelloThisPacket;
	if(what == 0) { type = CHUNK_IHELLO; c.field(); x_a[0] = c.fat; x_n[0] = c.flen; x_a[1] = c.at; x_n[1] = g_n - c.at; ok = c.ok & not seen; }
	else if(what == 1) { type = CHUNK_RHELLO; c.field(); x_a[0] = c.fat; x_n[0] = c.flen; c.field(); x_a[1] = c.fat; x_n[1] = c.flen; x_a[2] = c.at; x_n[2] = g_n - c.at; ok = c.ok; }
	else if(what == 2) { type = CHUNK_IIKEYING; if(g_n < 4) c.ok = false; c.at = 4; for(int i = 0; i < 3; i++) { c.field(); x_a[i] = c.fat; x_n[i] = c.flen; } x_a[3] = c.at; ok = c.ok; }
	else { type = nd8("type"); v_assume(type != CHUNK_IHELLO and type != CHUNK_RHELLO and type != CHUNK_REDIRECT and type != CHUNK_IIKEYING); ok = false; }
	s->onChunk(3, type, g_c, g_c + g_n, 9, g_from); v_assert(g_calls == ok, "acted on exactly when complete"); if(what == 0) v_assert(s->m_seenIHelloThisPacket, "one hello per packet");
}
ENTRY h_P13_c_keying() {
	auto &w = *new World(); mkChunk(); g_from = (sockaddr *)&w.sin; auto *s = w.s.get(); s->m_state = Session::S_KEYING_SENT; size_t what = v_choose(3, "what"); Cur c; bool ok = true; uint8_t type; uint8_t mode = 1 + v_choose(3, "mode"); v_cover("keying");
	if(what == 0) { type = CHUNK_RIKEYING; if(g_n < 4) c.ok = false; c.at = 4; c.field(); x_a[0] = c.fat; x_n[0] = c.flen; x_a[1] = c.at; ok = c.ok; }
	else if(what == 1) { type = CHUNK_RHELLO_COOKIE_CHANGE; c.field(); x_a[0] = c.fat; x_n[0] = c.flen; x_a[1] = c.at; x_n[1] = g_n - c.at; ok = c.ok; }
	else { type = nd8("type"); v_assume(type != CHUNK_RIKEYING and type != CHUNK_RHELLO_COOKIE_CHANGE); ok = false; }
	s->onChunk(mode, type, g_c, g_c + g_n, 9, g_from); v_assert(g_calls == (ok and mode == HEADER_MODE_STARTUP), "acted on exactly when complete and in a startup packet"); v_assert(s->m_state == Session::S_KEYING_SENT, "state");
}
// redirects: up to 2 addresses
static size_t g_alen[3]; static size_t g_na;
STUB_FOR("b_P13_c_redirect", "com::zenomt::rtmfp::RTMFP::onRedirect")
static void redirectC(RTMFP *, const uint8_t *tag, size_t tn, const std::vector<Address> &d) { g_calls++; v_assert(is(tag, tn, x_a[0], x_n[0]), "tag as encoded"); if(g_na == 0) { Address a(g_from, Address::ORIGIN_OBSERVED); v_assert(d.size() == 1 and d[0] == a and d[0].getOrigin() == Address::ORIGIN_OBSERVED, "an empty redirect names the sender"); return; }
	v_assert(d.size() == g_na, "every address"); size_t at = x_a[2]; for(size_t i = 0; i < g_na; i++) { Address a; size_t r = a.setFromEncoding(g_c + at, g_c + g_n); v_assert(r and d[i] == a and d[i].getOrigin() == a.getOrigin(), "as encoded"); at += r; } }
ENTRY b_P13_c_redirect() {
	auto &w = *new World(); size_t t = v_choose(3, "tag"), n = v_choose(41, "n"); g_n = 1 + t + n; g_c = (uint8_t *)v_bytes(g_n, "chunk"); g_from = (sockaddr *)&w.sin; v_assume(g_c[0] == t); x_a[0] = 1; x_n[0] = t; x_a[2] = 1 + t; size_t at = 1 + t; bool ok = true; g_na = 0; v_cover("redirect");
	g_num[0].at = 0; g_num[0].lim = g_n; g_num[0].len = 1; g_num[0].val = t; g_nn = 1; g_k = 0;
	while(at < g_n) { if(g_na == 2) return; uint8_t f = g_c[at] & 0x80; size_t l = 1 + (f ? 16 : 4) + 2; if(g_n - at < l) { ok = false; break; } v_concrete(f); at += l; g_na++; }
	w.r->m_startupSession->onChunk(3, CHUNK_REDIRECT, g_c, g_c + g_n, 9, g_from); v_assert(g_calls == ok, "acted on exactly when every address is complete");
}

static uint8_t noneType() { static const uint8_t K[] = { CHUNK_FIHELLO, CHUNK_PING, CHUNK_PING_REPLY, CHUNK_USERDATA, CHUNK_NEXT_USERDATA, CHUNK_BUFFERPROBE, CHUNK_ACK_BITMAP, CHUNK_ACK_RANGES, CHUNK_EXCEPTION, CHUNK_ECN_REPORT, CHUNK_CLOSE, CHUNK_CLOSE_ACK }; uint8_t t = nd8("type"); for(size_t i = 0; i < sizeof K; i++) v_assume(t != K[i]); return t; }
ENTRY h_P13_c_fihello() {
	auto &w = *new World(); mkChunk(); g_from = nullptr; auto *s = w.s.get(); Cur c; c.field(); x_a[0] = c.fat; x_n[0] = c.flen; x_v[0] = v_choose(3, "mode"); s->m_fihelloMode = (FIHelloResponseMode)x_v[0]; v_cover("fihello"); bool ok = c.ok; Address a; g_fi = &a; if(ok) { size_t r = 0, room = g_n - c.at; if(room > 0) r = a.setFromEncoding(g_c + c.at, g_c + g_n); ok = r > 0; x_a[1] = c.at + r; x_n[1] = g_n - c.at - r; }
	s->onChunk(HEADER_MODE_RESPONDER, CHUNK_FIHELLO, g_c, g_c + g_n, 9, (sockaddr *)&w.sin); v_assert(g_calls == ok, "acted on exactly when complete"); v_assert(s->m_state == Session::S_OPEN, "state");
}
// chunks for flows: the flow they name, and no other
static uintmax_t x_arg[2]; static SendFlow *x_sf; static RecvFlow *x_rf;
STUB_FOR("h_P13_c_flow", "com::zenomt::rtmfp::SendFlow::onAck")
static void onAckC(SendFlow *f, uint8_t t, size_t room, uintmax_t cum, const uint8_t *p, const uint8_t *l) { g_calls++; v_assert(f == x_sf and t == CHUNK_ACK_RANGES + x_n[3] and room == (x_v[1] > SIZE_MAX / 1024 ? SIZE_MAX : x_v[1] * 1024) and cum == x_v[2] and p == g_c + x_a[0] and l == g_c + g_n, "acknowledgement as encoded, to the flow it names"); }
STUB_FOR("h_P13_c_flow", "com::zenomt::rtmfp::SendFlow::onExceptionReport")
static void onExcC(SendFlow *f, uintmax_t code) { g_calls++; v_assert(f == x_sf and code == x_v[1], "exception as encoded, to the flow it names"); }
STUB_FOR("h_P13_c_flow", "com::zenomt::rtmfp::RecvFlow::scheduleAck")
static void schedC(RecvFlow *f, bool now) { g_calls++; v_assert(f == x_rf and now, "the probed flow acknowledges now"); }
ENTRY h_P13_c_flow() {
	auto &w = *new World(); mkChunk(); auto *s = w.s.get(); size_t what = v_choose(4, "what"); Cur c; bool ok; uint8_t type; auto f = share_ref(new SendFlow(w.r, Bytes(1, 1), Bytes(), nullptr, PRI_ROUTINE), false), f2 = share_ref(new SendFlow(w.r, Bytes(1, 1), Bytes(), nullptr, PRI_ROUTINE), false); f->m_session = f2->m_session = w.s; s->bindFlow(f2); s->bindFlow(f); x_sf = f.get(); uintmax_t id = f->m_flow_id, id2 = f2->m_flow_id; uintmax_t rid = v_choose(2, "id") ? 5 : (uintmax_t)~0ULL; auto g = share_ref(new RecvFlow(w.s, rid, nullptr, 0, nullptr), false), g2 = share_ref(new RecvFlow(w.s, 7, nullptr, 0, nullptr), false); x_rf = g.get(); s->m_recvFlows[rid] = g; s->m_recvFlows[7] = g2; s->m_keepalive_outstanding = true; v_cover("flow");
	x_v[0] = c.num(); bool match;
	if(what == 0) { type = CHUNK_BUFFERPROBE; ok = c.ok; if(ok) v_assume(x_v[0] != 7); match = x_v[0] == rid; } else { if(c.ok) v_assume(x_v[0] != id2); match = x_v[0] == id; if(c.ok and x_v[0] > LONG_MAX) match = false; bool reads = not c.ok or x_v[0] <= LONG_MAX; (void)reads; x_v[1] = c.num(); if(what == 1) type = CHUNK_EXCEPTION; else { x_n[3] = what == 3 ? CHUNK_ACK_BITMAP - CHUNK_ACK_RANGES : 0; type = what == 2 ? CHUNK_ACK_RANGES : CHUNK_ACK_BITMAP; x_v[2] = c.num(); x_a[0] = c.at; } ok = c.ok; }
	s->onChunk(HEADER_MODE_RESPONDER, type, g_c, g_c + g_n, 9, (sockaddr *)&w.sin); v_assert(g_calls == (ok and match), "acted on exactly when complete and its flow exists"); v_assert(s->m_keepalive_outstanding == not (what >= 2 and ok and match), "only an acknowledgement for a flow answers a keepalive"); v_assert(s->m_state == Session::S_OPEN and s->m_sendFlows.size() == 2 and s->m_recvFlows.size() == 2, "nothing else changes");
}
ENTRY h_P13_c_ping() {
	auto &w = *new World(); mkChunk(2000); auto *s = w.s.get(); auto &q = w.r->m_startupSession->m_sendItems[1]; s->m_rttMeasurements.push_front({ 1, 1 }); v_cover("ping"); bool fits = g_n <= MAX_PING_MESSAGE_LENGTH - 3;
	s->onChunk(HEADER_MODE_RESPONDER, CHUNK_PING, g_c, g_c + g_n, 9, (sockaddr *)&w.sin); v_assert(q.size() == fits, "a ping is answered exactly when the answer fits"); if(not fits) return; auto &b = q.front()->m_bytes; v_assert(q.front()->m_dest == s->m_destAddr and q.front()->m_session == w.s, "to the session's address"); v_assert(b.size() == g_n + 3 and b[0] == CHUNK_PING_REPLY and (size_t)(b[1] * 256 + b[2]) == g_n, "same length"); size_t k = nd16("k"); if(k < g_n) v_assert(b[3 + k] == g_c[k], "same content"); v_assert(s->m_rttMeasurements.empty() == (g_n > 0 and g_c[0] == 'M'), "a mobility check starts path measurements over");
}
ENTRY h_P13_c_others() {
	auto &w = *new World(); mkChunk(); auto *s = w.s.get(); size_t what = v_choose(2, "what"); uint8_t rx = s->m_rx_ece_count = nd8("ece"); v_cover("others"); s->m_keepalive_outstanding = true; uint8_t type = what ? noneType() : CHUNK_ECN_REPORT;
	s->onChunk(HEADER_MODE_RESPONDER, type, g_c, g_c + g_n, 9, (sockaddr *)&w.sin); bool e = not what and g_n > 0; uint8_t d = e ? g_c[0] - rx : 0; bool up = d > 0 and d < ECN_CE_DELTA_REORDER; v_assert(s->m_seen_ecn_report == e and s->m_congestionNotifiedThisPacket == up and s->m_rx_ece_count == (uint8_t)(rx + (up ? d : 0)), "the congestion count moves forward only"); v_assert(s->m_state == Session::S_OPEN and s->m_keepalive_outstanding and w.p.m_tasks.empty() and w.r->m_startupSession->m_sendItems[1].empty(), "an unknown chunk is ignored");
}
// ---- user data: header, then options
static uint8_t x_flags; static bool x_rej, x_hasAssoc, x_hasMeta; static uintmax_t x_id, x_sn, x_fsn, x_assoc;
STUB_FOR("._P13_c_(userdata|options).*", "com::zenomt::rtmfp::Session::onUserData")
static void onUserDataC(Session *, uint8_t flags, uintmax_t id, uintmax_t sn, uintmax_t fsn, uintmax_t *as, const uint8_t *m, size_t mn, const uint8_t *d, size_t n, bool rej) { g_calls++; v_assert(flags == x_flags and id == x_id and sn == x_sn and fsn == x_fsn and fsn <= sn, "flow, sequence number and forward sequence number as encoded"); v_assert(d == g_c + x_a[1] and n == g_n - x_a[1], "the data is the rest of the chunk"); v_assert((as != nullptr) == x_hasAssoc and (not x_hasAssoc or *as == x_assoc) and (m != nullptr) == x_hasMeta and (not x_hasMeta or is(m, mn, x_a[0], x_n[0])) and rej == x_rej, "options as encoded"); }
static void userdata(size_t opts) {
	auto &w = *new World(); mkChunk(); auto *s = w.s.get(); bool next = v_choose(2, "next"); Cur c; bool seen = s->m_seenUserDataThisPacket = ndb("seen"); uintmax_t pid = s->m_parsingFlowID = nd64("flow"), psn = s->m_parsingSequenceNumber = nd64("sn"), pf = s->m_parsingFSN = nd64("fsn"); v_assume(pf <= psn and psn < ~0ULL); v_cover("userdata"); x_rej = x_hasAssoc = x_hasMeta = false; x_assoc = 0;
	if(g_n == 0) c.ok = false; else { x_flags = g_c[0]; v_assume(((x_flags & USERDATA_FLAG_OPT) != 0) == (opts > 0)); c.at = 1; } bool ok;
	if(next) { if(not seen) c.ok = false; x_id = pid; x_sn = psn + 1; x_fsn = pf; } else { x_id = c.num(); x_sn = c.num(); uintmax_t o = c.num(); if(c.ok and o > x_sn) c.ok = false; x_fsn = x_sn - o; }
	for(size_t i = 0; opts and c.ok; i++) { if(i == opts) return; if(c.at >= g_n) { c.ok = false; break; } c.field(); if(not c.ok or c.flen == 0) break; Cur v; v.at = c.fat; v.lim = c.at; uintmax_t t = v.num(); if(not v.ok) { c.ok = false; break; } size_t k = v_choose(4, "option");
		if(k == 0) { v_assume(t == USERDATA_OPTION_METADATA); x_hasMeta = true; x_a[0] = v.at; x_n[0] = v.lim - v.at; } else if(k == 1) { v_assume(t == USERDATA_OPTION_RETURN_ASSOCIATION); x_hasAssoc = true; x_assoc = v.num(); if(not v.ok) c.ok = false; } else { v_assume(t != USERDATA_OPTION_METADATA); v_assume(t != USERDATA_OPTION_RETURN_ASSOCIATION); if(k == 2) { v_assume(t < USERDATA_OPTION_MANDATORY_CUTOFF); x_rej = true; } else v_assume(t >= USERDATA_OPTION_MANDATORY_CUTOFF); } }
	ok = c.ok; x_a[1] = c.at; s->onChunk(HEADER_MODE_RESPONDER, next ? CHUNK_NEXT_USERDATA : CHUNK_USERDATA, g_c, g_c + g_n, 9, (sockaddr *)&w.sin); v_assert(g_calls == ok, "acted on exactly when complete"); v_assert(s->m_seenUserDataThisPacket == (seen or ok) and s->m_parsingFlowID == (ok ? x_id : pid) and s->m_parsingSequenceNumber == (ok ? x_sn : psn) and s->m_parsingFSN == (ok ? x_fsn : pf), "the next chunk continues this one exactly when it was complete");
}
ENTRY h_P13_c_userdata() { userdata(0); }
ENTRY b_P13_c_options() { userdata(2); }
ENTRY bt_P13_c_options3() { userdata(3); }
// a flow is accepted only as its chunk's options and the user allow
ENTRY h_P13_accept() {
	auto &w = *new World(); auto *s = w.s.get(); uintmax_t id = v_choose(2, "id") ? 5 : (uintmax_t)~0ULL; bool exists = v_choose(2, "exists"); size_t as = v_choose(4, "association"), cb = v_choose(4, "callback"); bool meta = v_choose(2, "metadata"), rej = v_choose(2, "reject"); int calls[2] = { 0, 0 }; int *pc = calls; std::shared_ptr<RecvFlow> got; auto *pg = &got; v_cover("accept"); w.p.m_now = 5;
	auto f = share_ref(new SendFlow(w.r, Bytes(1, 1), Bytes(), nullptr, PRI_ROUTINE), false); f->m_session = w.s; s->bindFlow(f); if(as == 2) { f->m_base_isOpen = false; } uintmax_t aid = as == 3 ? nd64("associated") : (uintmax_t)f->m_flow_id; if(as == 3) v_assume(aid != (uintmax_t)f->m_flow_id); auto g = share_ref(new RecvFlow(w.s, id, nullptr, 0, nullptr), false); if(exists) { g->accept(); s->m_recvFlows[id] = g; }
	for(int i = 0; i < 2; i++) { auto F = [=](std::shared_ptr<RecvFlow> fl) { pc[i]++; *pg = fl; if(cb == 1) return; fl->accept(); if(cb == 2) fl->close(); if(cb == 3) s->close(false); }; if(i) f->onRecvFlow = F; else w.r->onRecvFlow = F; }
	uint8_t m[2] = { 8, 9 }, d[1] = { 1 }; int msgs = 0; int *pm = &msgs; if(exists) g->onMessage = [pm](const uint8_t *, size_t, uintmax_t, size_t) { (*pm)++; }; if(exists) g->setReceiveOrder(RO_NETWORK);
	s->onUserData(USERDATA_FRA_WHOLE, id, 1, 0, as ? &aid : nullptr, meta ? m : nullptr, meta ? 2 : 0, d, 1, rej);
	bool offer = not exists and not rej and meta and as != 2 and as != 3; v_assert(calls[0] == (offer and as == 0) and calls[1] == (offer and as == 1), "a new flow is offered once, to the flow it is associated with if any, exactly when it can be accepted"); if(offer) { v_assert(got->getMetadata() == Bytes(m, m + 2) and got->getAssociatedSendFlow() == (as ? f : nullptr) and got->m_flow_id == id, "with its metadata and association"); }
	if(offer and cb == 3) { v_assert(s->m_state == Session::S_CLOSED and s->m_recvFlows.empty() and not got->isOpen(), "closing the session from the callback"); return; }
	auto it = s->m_recvFlows.find(id); v_assert(it != s->m_recvFlows.end() and s->m_recvFlows.size() == 1, "the flow is kept"); auto fl = it->second; bool open = exists ? not rej : offer and cb == 0; v_assert(fl->isOpen() == open and fl->m_state == (open ? RecvFlow::RF_OPEN : RecvFlow::RF_REJECTED), "open exactly when accepted"); if(exists) { v_assert(fl == g, "same flow"); w.p.run(); v_assert(msgs == (open ? 1 : 0), "a rejected flow delivers nothing"); }
	v_assert(fl->getCumulativeAckSequenceNumber() == 1 and fl->m_should_ack, "rejected or not, the data is acknowledged");
}
