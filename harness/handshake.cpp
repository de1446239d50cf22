// contracts for mobility (P17) and the handshake (P18)
#include "core.hpp"
static Time R(const char *n, Time lo, Time hi) { Time t = v_real(n); v_assume(t >= lo and t <= hi); return t; }
static bool same(const Bytes &b, const uint8_t *p, size_t n) { if(b.size() != n) return false; bool r = true; for(size_t i = 0; i < n; i++) r &= b[i] == p[i]; return r; }
static bool eq(const uint8_t *a, const uint8_t *b, size_t n) { bool r = true; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
// a source address: the session's own, or another host or port
static struct sockaddr *src(World &w, struct sockaddr_in &a, bool &mine) { a = w.sin; size_t k = v_choose(3, "source"); if(k == 1) a.sin_port = nd16("port"); if(k == 2) a.sin_addr.s_addr = nd32("host"); mine = (a.sin_port == w.sin.sin_port) & (a.sin_addr.s_addr == w.sin.sin_addr.s_addr); return (sockaddr *)&a; }
struct Mob { World w; Session *s; struct sockaddr_in a; struct sockaddr *p; bool mine; int iface, changes[2]; std::shared_ptr<SendFlow> f; std::shared_ptr<RecvFlow> g; Address old; };
static Mob &mk() { auto &m = *new Mob(); m.s = m.w.s.get(); m.w.r->addInterface(2); m.p = src(m.w, m.a, m.mine); m.iface = 1 + (int)v_choose(2, "interface"); m.w.r->m_epoch = 0; m.w.p.m_now = R("now", 0, 1e6); m.old = m.s->m_destAddr; m.w.r->m_openSessionsByAddress[m.old] = m.w.s; m.s->m_mob_rx_ts = nd32("rx ts"); m.s->m_mob_tx_ts = nd32("tx ts"); for(int i = 0; i < 32; i++) m.w.r->m_secret[i] = (uint8_t)(i * 7 + 1); m.changes[0] = m.changes[1] = 0; return m; }
static bool at(Mob &m, bool moved) { return moved ? m.s->m_destAddr == Address(m.p) and m.s->m_destInterfaceID == m.iface : m.s->m_destAddr == m.old and m.s->m_destInterfaceID == 1; }
// the challenge for a time, interface and address: its clear part and what its hash covers (see h_P17_challenge)
static size_t covers(Mob &m, uintmax_t ts, uint8_t *enc) { Bytes c = m.s->makeMobilityCheck(ts, m.iface, m.p); v_assert(m.w.c.m_hashes == 2 and m.w.c.m_in[0] == m.w.c.m_in[1], "the challenge is for that time, interface and address"); size_t l = c.size() - 32; for(size_t i = 0; i < l; i++) enc[i] = c[i]; return l; }
ENTRY h_P17_challenge() {
	auto &w = *new World(); Session *s = w.s.get(); struct sockaddr_in a = w.sin, b = w.sin; a.sin_port = nd16("port"); b.sin_port = nd16("port"); a.sin_addr.s_addr = nd32("host"); b.sin_addr.s_addr = nd32("host"); int i = 1 + (int)v_choose(2, "interface"), j = 1 + (int)v_choose(2, "interface"); uintmax_t t = v_choose(2, "long") ? nd64("time") : nd8("time"), u = v_choose(2, "long") ? nd64("time") : nd8("time"); size_t k = v_choose(4, "k"); uint8_t x = k ? nd8("x") : 0; k = k * 10 + 1; v_cover("challenge");
	Bytes c = s->makeMobilityCheck(t, i, (sockaddr *)&a); w.r->m_secret[k] ^= x; Bytes d = s->makeMobilityCheck(u, j, (sockaddr *)&b); v_assert(w.c.m_hashes == 2 and c.size() > 33, "one hash each"); uintmax_t v = 0; size_t l = VLU::parse(c.data() + 1, c.data() + c.size(), &v); v_assert(c[0] == PING_MARKING_MOBILITY and v == t and c.size() == 1 + l + 32 and eq(c.data() + 1 + l, w.c.m_out[0], 32), "the challenge is its time and the hash");
	bool e = w.c.m_in[0] == w.c.m_in[1], f = (t == u) & (i == j) & (a.sin_port == b.sin_port) & (a.sin_addr.s_addr == b.sin_addr.s_addr) & (x == 0); v_assert(e == f, "the hash covers the time, the interface, the address and the secret");
}
static void reply(size_t tlen, size_t n) {
	v_cfg("unroll", 60); auto &m = mk(); uint8_t *c = (uint8_t *)v_bytes(n, "reply"); m.s->m_keepalive_outstanding = true; uintmax_t rx = m.s->m_mob_rx_ts, now = (uintmax_t)m.w.p.m_now; uintmax_t ts = 0; size_t l = n > 1 ? VLU::parse(c + 1, c + n, &ts) : 0; if(l) v_assume(l == tlen); else if(tlen) return; int *ch = m.changes; m.f = share_ref(new SendFlow(m.w.r, Bytes(), Bytes(), nullptr, PRI_ROUTINE), false); m.s->bindFlow(m.f); m.f->m_session = m.w.s; m.f->onFarAddressDidChange = [ch] { ch[0]++; }; m.g = share_ref(new RecvFlow(m.w.s, 5, nullptr, 0, nullptr), false); m.s->m_recvFlows[5] = m.g; m.g->onFarAddressDidChange = [ch] { ch[1]++; }; m.s->m_rttMeasurements.push_front({ 1, 1 }); v_cover("reply");
	m.s->onChunk(HEADER_MODE_RESPONDER, CHUNK_PING_REPLY, c, c + n, m.iface, m.p); bool want = l and c[0] == 'M' and ts > rx and not (ts + MAX_MOBILITY_LIFETIME < now); v_assert(m.w.c.m_hashes == (want ? 1 : 0), "only a new, unexpired reply is checked"); v_assert(not m.s->m_keepalive_outstanding, "any reply answers a keepalive");
	if(want) { uint8_t enc[16]; size_t k = covers(m, ts, enc); want = n == k + 32 and eq(c, enc, k) and eq(c + k, m.w.c.m_out[0], 32); }
	v_assert(at(m, want), "the session moves exactly when the far end returns the exact challenge from the new address"); v_assert(m.s->m_mob_rx_ts == (want ? ts : rx), "a reply is used once"); v_assert(ch[0] == want and ch[1] == want, "flows are told"); v_assert(m.w.r->findOpenSessionByAddress(m.s->m_destAddr) == m.w.s, "the session is found at its address"); if(want and not m.mine) v_assert(m.w.r->findOpenSessionByAddress(m.old) == nullptr, "and no longer at the old one"); v_assert(m.s->m_rttMeasurements.empty() == want, "path measurements start over"); v_assert(m.s->m_state == Session::S_OPEN, "state");
}
ENTRY b_P17_reply() { static const size_t L[5] = { 1, 2, 5, 0, 3 }; size_t t = L[v_choose(5, "time length")]; reply(t, t ? 1 + t + 31 + v_choose(3, "length") : v_choose(3, "length")); }
// packets and chunks from elsewhere do not move the session; they trigger a challenge to where they came from, at most one per second
ENTRY h_P17_source() {
	auto &m = mk(); size_t st = v_choose(4, "state"); m.s->m_state = st == 0 ? Session::S_OPEN : st == 1 ? Session::S_KEYING_SENT : st == 2 ? Session::S_NEARCLOSE : Session::S_FARCLOSE_LINGER; bool acks = m.s->m_any_acks = ndb("acks"); m.s->m_srtt = 1; uintmax_t tx = m.s->m_mob_tx_ts, now = (uintmax_t)m.w.p.m_now; v_assume(now < 128); v_cover("source"); (void)acks;
	m.s->onPacketAfterChunks(HEADER_MODE_RESPONDER, -1, -1, m.iface, m.p); v_assert(at(m, false), "a packet by itself does not move the session"); bool elsewhere = not m.mine or m.iface != 1, ask = st == 0 and elsewhere and now > tx; v_assert(m.w.c.m_hashes == (ask ? 1 : 0) and m.s->m_mob_tx_ts == (ask ? now : tx), "a challenge is sent at most once a second, only while open"); auto &q = m.w.r->m_startupSession->m_sendItems[m.iface]; v_assert(q.size() == (ask ? 1 : 0), "to the source");
	if(ask) { auto &it = q.front(); v_assert(it->m_dest == Address(m.p) and it->m_sessionID == 0x11223344 and it->m_session == m.w.s, "at its address and in the session"); uint8_t enc[16]; size_t k = covers(m, now, enc); v_assert(it->m_bytes.size() == 3 + k + 32 and it->m_bytes[0] == CHUNK_PING and it->m_bytes[2] == k + 32 and eq(it->m_bytes.data() + 3, enc, k) and eq(it->m_bytes.data() + 3 + k, m.w.c.m_out[0], 32), "a ping with the challenge"); }
}
// no other chunk changes the address
static int g_upcalls;
STUB_FOR("h_P17_chunks", "com::zenomt::rtmfp::Session::onUserData")
static void userDataC(Session *, uint8_t, uintmax_t, uintmax_t, uintmax_t, uintmax_t *, const uint8_t *, size_t, const uint8_t *, size_t, bool) { g_upcalls++; }
STUB_FOR("h_P17_chunks", "com::zenomt::rtmfp::RTMFP::onIHello")
static void helloC(RTMFP *, const uint8_t *, size_t, const uint8_t *, size_t, int, const struct sockaddr *, FIHelloResponseMode) { g_upcalls++; }
ENTRY h_P17_chunks() { auto &m = mk(); size_t n = v_choose(5, "n"); uint8_t *c = (uint8_t *)v_bytes(n, "chunk"); static const uint8_t T[] = { CHUNK_PING, CHUNK_USERDATA, CHUNK_NEXT_USERDATA, CHUNK_BUFFERPROBE, CHUNK_ACK_RANGES, CHUNK_ACK_BITMAP, CHUNK_EXCEPTION, CHUNK_ECN_REPORT, CHUNK_FIHELLO, CHUNK_CLOSE, CHUNK_RIKEYING, CHUNK_RHELLO_COOKIE_CHANGE, CHUNK_RHELLO, CHUNK_REDIRECT }; m.s->m_seenUserDataThisPacket = ndb("seen"); v_cover("chunks"); m.s->onChunk(HEADER_MODE_RESPONDER, T[v_choose(sizeof T, "type")], c, c + n, m.iface, m.p); v_assert(at(m, false), "no other chunk moves the session"); }
// ---- P18: cookies
static void secret(World &w) { for(int i = 0; i < 32; i++) w.r->m_secret[i] = (uint8_t)(i * 5 + 3); }
// a cookie issued to one address at one time, presented from the same or another address later
ENTRY h_P18_cookie() {
	auto &w = *new World(); secret(w); struct sockaddr_in a = w.sin, b = w.sin; b.sin_port = nd16("port"); b.sin_addr.s_addr = nd32("host"); bool mine = (a.sin_port == b.sin_port) & (a.sin_addr.s_addr == b.sin_addr.s_addr); w.r->m_epoch = 0; w.p.m_now = R("issued", 0, 1e6); uintmax_t t0 = (uintmax_t)w.p.m_now; v_cover("cookie");
	Bytes c = w.r->makeCookie((sockaddr *)&a); uintmax_t s = 0; size_t l = VLU::parse(c.data(), c.data() + c.size(), &s); v_assert(s == t0 and c.size() == l + 64 and w.c.m_hashes == 2 and eq(c.data() + l, w.c.m_out[0], 32) and eq(c.data() + l + 32, w.c.m_out[1], 32), "a cookie is its time, a hash and a hash for the address");
	w.p.m_now = R("presented", 0, 1e6); uintmax_t t1 = (uintmax_t)w.p.m_now; v_assume(t1 >= t0); size_t k = v_choose(5, "secret"); if(k) w.r->m_secret[(k - 1) * 10] ^= 0x40; auto r = w.r->checkCookie(c.data(), c.size(), (sockaddr *)&b); bool fresh = t1 - t0 <= MAX_COOKIE_LIFETIME;
	if(not fresh) { v_assert(r == RTMFP::COOKIE_BAD and w.c.m_hashes == 2, "an expired cookie is refused"); return; } v_assert(w.c.m_hashes >= 3 and (w.c.m_in[2] == w.c.m_in[0]) == (k == 0), "the cookie is checked against the secret"); bool g = eq(w.c.m_out[2], w.c.m_out[0], 32); if(not g) { v_assert(r == RTMFP::COOKIE_BAD and w.c.m_hashes == 3, "a forged cookie is refused"); return; }
	v_assert(w.c.m_hashes == 4 and (w.c.m_in[3] == w.c.m_in[1]) == (mine and k == 0), "the cookie is checked against the address it is presented from"); v_assert(r == (eq(w.c.m_out[3], w.c.m_out[1], 32) ? RTMFP::COOKIE_OK : RTMFP::COOKIE_MISMATCH), "another address's cookie is recognized as such");
}
// any bytes as a cookie
ENTRY b_P18_forged() {
	auto &w = *new World(); secret(w); w.r->m_epoch = 0; w.p.m_now = R("now", 0, 1e6); uintmax_t now = (uintmax_t)w.p.m_now; static const size_t N[6] = { 0, 1, 64, 65, 66, 67 }; size_t n = N[v_choose(6, "length")]; uint8_t *c = (uint8_t *)v_bytes(n, "cookie"); v_cfg("unroll", 80); v_cover("forged"); uintmax_t s = 0; size_t l = n ? VLU::parse(c, c + n, &s) : 0; auto r = w.r->checkCookie(c, n, (sockaddr *)&w.sin);
	bool form = l and n == l + 64 and s <= now and now - s <= MAX_COOKIE_LIFETIME; v_assert((w.c.m_hashes > 0) == form, "only well-formed, current cookies are considered"); if(not form) v_assert(r == RTMFP::COOKIE_BAD, "malformed, expired and future cookies are refused"); else if(not eq(c + l, w.c.m_out[0], 32)) v_assert(r == RTMFP::COOKIE_BAD, "forged"); else v_assert(r == (eq(c + l + 32, w.c.m_out[1], 32) ? RTMFP::COOKIE_OK : RTMFP::COOKIE_MISMATCH), "address");
}
static size_t queued(World &w, int i) { return w.r->m_startupSession->m_sendItems[i].size(); }
static StartupSession::SendItem &item(World &w, int i) { return *w.r->m_startupSession->m_sendItems[i].front(); }
// ---- the responder
static int g_disp; static const uint8_t *g_ck; static uint8_t g_cookie[3] = { 7, 8, 9 }, g_skic[2] = { 4, 5 }, g_sp[3] = { 1, 2, 3 }, g_sig[2] = { 6, 6 };
STUB_FOR("h_P18_responder|b_P18_overlapResponder", "com::zenomt::rtmfp::RTMFP::checkCookie")
static RTMFP::CookieCheck cookieC(const RTMFP *, const uint8_t *c, size_t n, const struct sockaddr *) { v_assert(c == g_cookie and n == 3, "the initiator's cookie is checked"); return (RTMFP::CookieCheck)g_disp; }
enum { OK, BADCOOKIE, MISMATCH, NOCERT, BUSY, UNAUTH, BADSIG, NOKEY, NORESP, SHUT, SHUT2, FAILS };
ENTRY h_P18_responder() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); size_t fail = v_choose(FAILS, "fails"), ex = v_choose(4, "existing"), gl = v_choose(3, "glare"); bool over = v_choose(2, "overrides"), near = v_choose(2, "near wins"); Address peer((sockaddr *)&w.sin); auto &cert = *w.c.m_cert; uint32_t sid = nd32("sid"); v_cover("responder"); w.p.m_now = 10;
	std::shared_ptr<Session> old, opening; if(ex) { old = w.r->makeSession(w.c.getKeyForNewSession(), ex == 2 ? HEADER_MODE_INITIATOR : HEADER_MODE_RESPONDER); old->m_destAddr = peer; old->m_destInterfaceID = 1; old->m_cryptoCert = share_ref(new TestCert(), false); old->setOpen(old, ex == 3 ? sid : sid ^ 1); old->m_skic = Bytes(g_skic, g_skic + 2); old->m_rikeying = Bytes(2, 0x77); }
	if(gl) { opening = w.r->makeSession(w.c.getKeyForNewSession(), HEADER_MODE_INITIATOR); w.r->m_openingSessions.append(opening); opening->m_state = gl == 1 ? Session::S_IHELLO_SENT : Session::S_KEYING_SENT; if(gl == 1) opening->m_openingAddresses.insert(peer); else { opening->m_destAddr = peer; opening->m_cryptoCert = share_ref(new TestCert(), false); } }
	g_disp = fail == BADCOOKIE ? RTMFP::COOKIE_BAD : fail == MISMATCH ? RTMFP::COOKIE_MISMATCH : RTMFP::COOKIE_OK; w.c.m_decode = fail != NOCERT; if(fail == BUSY) w.r->m_waitingPerformCount = MAX_WAITING_PERFORM_COUNT; cert.m_auth = fail != UNAUTH; cert.m_sig = fail != BADSIG; w.c.m_key = fail != NOKEY; w.c.m_resp = fail != NORESP; w.r->m_shutdown = fail == SHUT; cert.m_over = over; w.c.m_glare = near; size_t had = w.r->m_sessions.size(); int keys = w.c.m_keys;
	uint8_t in[3] = { 0xc, 0xe, 0x7 }; w.r->onIIKeying(sid, g_cookie, 3, in, 3, g_skic, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); bool again = ex == 3 and fail != BADCOOKIE and fail != MISMATCH and fail != NOCERT and fail != SHUT; if(fail == SHUT2) w.r->m_shutdown = true; w.p.run(); w.r->doTimerWork();
	bool stale = fail == OK and (ex == 1 or ex == 2) and over, commit = fail == OK and ex != 3 and (ex == 0 or over) and not (gl and near); v_assert(w.r->m_sessions.size() == had + commit - stale - (commit and gl == 2 and over), "a session is committed exactly when every check passes"); v_assert(w.r->m_waitingPerformCount == (fail == BUSY ? MAX_WAITING_PERFORM_COUNT : 0), "work in progress is accounted");
	if(w.c.m_keys > keys) v_assert(cert.m_checks == 1 and cert.m_signed == Bytes(g_sp, g_sp + 3) and cert.m_sigBytes == Bytes(g_sig, g_sig + 2), "no key is made before the signature over the parameters verifies"); if(ex) v_assert(old->m_state == (stale ? Session::S_CLOSED : Session::S_OPEN), "a stale session is replaced only by one its certificate lets override"); if(gl) v_assert(opening->m_state == (commit and gl == 2 and over ? Session::S_CLOSED : gl == 1 ? Session::S_IHELLO_SENT : Session::S_KEYING_SENT), "the losing side of a simultaneous opening gives way");
	size_t q = queued(w, 1); if(fail == MISMATCH) { v_assert(q == 1, "a cookie change is sent"); auto &b = item(w, 1).m_bytes; v_assert(item(w, 1).m_sessionID == sid and b.size() > 7 and b[0] == CHUNK_RHELLO_COOKIE_CHANGE and b[3] == 3 and eq(b.data() + 4, g_cookie, 3), "naming the old cookie"); w.c.m_hashes = 0; Bytes c = w.r->makeCookie((sockaddr *)&w.sin); v_assert(b.size() == 7 + c.size(), "and carrying a new one for the address"); return; }
	v_assert(q == (commit or again), "an answer exactly when committed or already committed"); if(again) { v_assert(item(w, 1).m_bytes == old->m_rikeying and item(w, 1).m_sessionID == sid, "a repeated request gets the same answer"); return; } if(not commit) return;
	auto s = w.r->findOpenSessionByAddress(peer); v_assert(s != nullptr and s != old and s->m_state == Session::S_OPEN and s->m_role == HEADER_MODE_RESPONDER and s->m_txSessionID == sid and s->m_destAddr == peer and s->m_destInterfaceID == 1 and s->m_cryptoCert == w.c.m_cert and s->m_skic == Bytes(g_skic, g_skic + 2), "open to the initiator"); v_assert(w.r->findOpenSessionByEPD(s->m_epd) == s and w.r->m_sessions.at(s->m_rxSessionID) == s, "and found by address and identity");
	auto &b = item(w, 1).m_bytes; uint32_t rs; memcpy(&rs, b.data() + 3, 4); v_assert(b[0] == CHUNK_RIKEYING and b[1] * 256 + b[2] == (int)b.size() - 3 and rs == s->m_rxSessionID and b[7] == 1 and b[8] == 0x52 and b[9] == 0x5a and b.size() == 10 and item(w, 1).m_sessionID == sid, "the answer carries the session ID, keying component and signature");
}
// hellos: no state, an answer with the tag, a fresh cookie for the source and the certificate
ENTRY h_P18_hello() {
	auto &w = *new World(false); w.r->m_sessions.clear(); secret(w); uint8_t epd[2] = { 1, 2 }, tag[2] = { nd8("t"), nd8("t") }; size_t mode = v_choose(3, "mode"); bool sel = w.c.m_sel = v_choose(2, "selected"); int un = 0; w.r->onUnmatchedIHello = [&un](const void *, size_t, const void *, size_t, int, const struct sockaddr *) { un++; }; v_cover("hello"); FIHelloResponseMode M[3] = { FI_IGNORE, FI_SEND_RHELLO, FI_SEND_REDIRECT };
	w.r->onIHello(epd, 2, tag, 2, 1, (sockaddr *)&w.sin, M[mode]); v_assert(w.r->m_sessions.empty() and w.r->m_openingSessions.empty() and w.p.m_tasks.empty(), "a hello commits no state"); v_assert(queued(w, 1) == (sel and mode > 0 ? 1 : 0) and un == (not sel and mode > 0), "answered exactly when it asks for this instance"); if(not queued(w, 1)) return; auto &i = item(w, 1); auto &b = i.m_bytes; v_assert(i.m_dest == Address((sockaddr *)&w.sin) and i.m_sessionID == 0 and b[3] == 2 and b[4] == tag[0] and b[5] == tag[1] and b[1] * 256 + b[2] == (int)b.size() - 3, "to its source with its tag");
	if(mode == 1) { v_assert(b[0] == CHUNK_RHELLO and b[6] == 65 and b.size() == 7 + 65 + 2 and eq(b.data() + 8, w.c.m_out[0], 32) and eq(b.data() + 40, w.c.m_out[1], 32), "with a cookie"); v_assert(b[72] == 0xce and b[73] == 0xce, "and the certificate"); } else v_assert(b[0] == CHUNK_REDIRECT and b.size() == 6, "or a redirect to where it was received");
}
// ---- the initiator
static std::shared_ptr<Session> starting(World &w, bool keying) { auto s = w.r->makeSession(w.c.getKeyForNewSession(), HEADER_MODE_INITIATOR); w.r->m_openingSessions.append(s); Session::initiateToEPD(s, Bytes(3, 0xe)); s->m_openingAddresses.insert(Address((sockaddr *)&w.sin)); if(keying) { s->m_state = Session::S_KEYING_SENT; s->m_destAddr = Address((sockaddr *)&w.sin); s->m_destInterfaceID = 1; s->m_resp_cookie = Bytes(g_cookie, g_cookie + 3); s->m_skic = Bytes(g_skic, g_skic + 2); s->m_cryptoCert = w.c.m_cert; } return s; }
static void isIIKeying(World &w, Session *s, const Bytes &cookie, uint8_t skic, size_t skn) { w.r->doTimerWork(); v_assert(queued(w, 1) == 1, "the keying request is sent"); auto &i = item(w, 1); auto &b = i.m_bytes; uint32_t id; memcpy(&id, b.data() + 3, 4); size_t k = cookie.size(); v_assert(i.m_dest == s->m_destAddr and i.m_sessionID == 0 and b[0] == CHUNK_IIKEYING and b[1] * 256 + b[2] == (int)b.size() - 3 and id == s->m_rxSessionID and b[7] == k and eq(b.data() + 8, cookie.data(), k) and b[8 + k] == 2 and b[9 + k] == 0xce and b[11 + k] == skn and b[12 + k] == skic and b[12 + k + skn] == 0x5a and b.size() == 13 + k + skn, "with its session ID, the responder's cookie, certificate, keying component and signature"); }
enum { I_OK, I_TAG, I_STATE, I_CERT, I_SEL, I_AUTH, I_LATE, I_GEN, I_FAILS };
ENTRY h_P18_initiator() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); size_t fail = v_choose(I_FAILS, "fails"), other = v_choose(3, "other"); w.c.m_init = fail != I_GEN; auto s = starting(w, false); w.c.m_init = true; auto &cert = *w.c.m_cert; std::shared_ptr<Session> o; w.p.m_now = 10; v_cover("initiator"); auto fl = share_ref(new SendFlow(w.r, s->m_epd, Bytes(), nullptr, PRI_ROUTINE), false); w.r->m_openingFlows.append(fl); fl->m_openingSession = s; 
	if(other == 1) { o = w.r->makeSession(w.c.getKeyForNewSession(), HEADER_MODE_RESPONDER); o->m_destAddr = Address((sockaddr *)&w.sin); o->m_destAddr.setPort(99); o->m_destInterfaceID = 1; o->m_cryptoCert = share_ref(new TestCert(), false); o->m_state = Session::S_OPEN; o->m_epd = Bytes(1, 1); w.r->m_openSessionsByCanonicalEPD[o->m_epd] = o; } if(other == 2) { o = starting(w, true); o->m_epd = Bytes(1, 1); o->m_cryptoCert = share_ref(new TestCert(), false); }
	if(fail == I_STATE) s->m_state = Session::S_KEYING_SENT; w.c.m_decode = fail != I_CERT; cert.m_sel = fail != I_SEL; cert.m_auth = fail != I_AUTH; uint8_t ce[2] = { 1, 1 }; Bytes tag = s->m_tag; if(fail == I_TAG) tag[v_choose(IHELLO_TAG_LENGTH, "tag byte")] ^= 1 << v_choose(8, "bit"); struct sockaddr_in from = w.sin; from.sin_port = nd16("port"); size_t before = w.r->m_sessions.size();
	w.r->onRHello(tag.data(), tag.size(), g_cookie, 3, ce, 2, 1, (sockaddr *)&from); if(fail == I_LATE) s->m_state = Session::S_CLOSED; w.p.run(12); bool go = fail == I_OK or fail == I_GEN; 
	if(not go) { v_assert(s->m_state == (fail == I_STATE ? Session::S_KEYING_SENT : fail == I_LATE ? Session::S_CLOSED : Session::S_IHELLO_SENT) and w.r->m_sessions.size() == before, "a responder that does not match or is not authentic is ignored"); w.r->doTimerWork(); v_assert(queued(w, 1) == 0, "and not answered"); return; }
	if(other == 1) { v_assert(s->m_state == Session::S_CLOSED and o->m_state == Session::S_OPEN and fl->m_session == o, "an open session to the same peer is used instead"); return; }
	if(other == 2) { v_assert(s->m_state == Session::S_CLOSED and o->m_state == Session::S_KEYING_SENT and fl->m_openingSession == o, "as is one about to open"); return; }
	if(fail == I_GEN) { v_assert(s->m_state == Session::S_CLOSED and w.r->m_sessions.size() == before - 1, "failing to make a keying component ends the attempt"); return; }
	v_assert(s->m_state == Session::S_KEYING_SENT and s->m_destAddr == Address((sockaddr *)&from) and s->m_destInterfaceID == 1 and s->m_cryptoCert == w.c.m_cert and s->m_resp_cookie == Bytes(g_cookie, g_cookie + 3), "keying with the responder that answered"); isIIKeying(w, s.get(), s->m_resp_cookie, 0x51, 1);
}
ENTRY h_P18_cookieChange() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); auto s = starting(w, true); size_t k = v_choose(5, "case"); uint8_t old[3] = { 7, 8, 9 }, nw[2] = { 0x21, 0x22 }; if(k == 1) old[v_choose(3, "byte")] ^= 1 + nd8("x") % 255; if(k == 2) s->m_resp_cookieChanged = true; if(k == 3) s->m_state = Session::S_OPEN; size_t on = k == 4 ? 2 : 3; w.p.m_now = 10; v_cover("cookieChange");
	s->onCookieChange(old, on, nw, 2, 1, (sockaddr *)&w.sin); w.p.run(); bool ok = k == 0; v_assert((s->m_resp_cookie == Bytes(nw, nw + 2)) == ok and s->m_resp_cookieChanged == (ok or k == 2), "the cookie changes once, naming the current one, while keying"); if(ok) isIIKeying(w, s.get(), Bytes(nw, nw + 2), 4, 2); else { w.r->doTimerWork(); v_assert(queued(w, 1) == 0, "otherwise nothing is sent"); }
}
ENTRY h_P18_open() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); size_t k = v_choose(6, "case"); w.c.m_combine = k != 2; auto s = starting(w, true); auto &cert = *w.c.m_cert; cert.m_sig = k != 1; if(k == 3) s->m_state = Session::S_IHELLO_SENT; uint32_t sid = nd32("sid"); uint8_t skrc[2] = { 2, 3 }; w.p.m_now = 10; int opened = 0; (void)opened; auto fl = share_ref(new SendFlow(w.r, s->m_epd, Bytes(), nullptr, PRI_ROUTINE), false); w.r->m_openingFlows.append(fl); fl->m_openingSession = s; v_cover("open"); uint8_t st = s->m_state;
	s->onRIKeying(sid, skrc, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); if(k == 4) { s->m_state = Session::S_CLOSED; st = s->m_state; } w.p.run(); if(k == 5) { s->onRIKeying(sid + 1, skrc, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); w.p.run(); } bool ok = k == 0 or k == 5; v_assert((s->m_state == Session::S_OPEN) == ok, "open exactly when the responder's signature and keying component are right"); if(not ok) { v_assert(s->m_state == st and w.r->m_openSessionsByAddress.empty(), "otherwise nothing changes"); return; }
	v_assert(s->m_txSessionID == sid and w.r->findOpenSessionByAddress(s->m_destAddr) == s and w.r->findOpenSessionByEPD(Bytes(1, 1)) == s and w.r->m_openingSessions.empty(), "open once, with the responder's session ID"); Bytes want(g_sp, g_sp + 3); want.insert(want.end(), g_skic, g_skic + 2); v_assert(cert.m_checks == 1 and cert.m_signed == want and cert.m_sigBytes == Bytes(g_sig, g_sig + 2), "the signature covers the answer and what was asked"); v_assert(fl->m_session == s, "waiting flows start");
}
// overlapping answers: the first responder to pass its checks is chosen; later ones, and later cookie changes, do not replace it
static bool stepTask(World &w) { if(w.p.m_tasks.empty()) return false; Task t = w.p.m_tasks[0]; w.p.m_tasks.erase(w.p.m_tasks.begin()); t(); return true; }
ENTRY b_P18_overlap() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); auto s = starting(w, false); size_t k = v_choose(5, "steps between"); uint8_t ce[2] = { 1, 1 }, c2[2] = { 3, 4 }; struct sockaddr_in a = w.sin, b = w.sin; a.sin_port = nd16("port"); b.sin_port = nd16("port"); w.p.m_now = 10; Bytes tag = s->m_tag; v_cover("overlap");
	w.r->onRHello(tag.data(), tag.size(), g_cookie, 3, ce, 2, 1, (sockaddr *)&a); for(size_t i = 0; i < k; i++) stepTask(w); w.r->onRHello(tag.data(), tag.size(), c2, 2, ce, 2, 1, (sockaddr *)&b); int n = 0; while(stepTask(w)) v_assert(n++ < 16, "drains");
	v_assert(s->m_state == Session::S_KEYING_SENT and s->m_destAddr == Address((sockaddr *)&a) and s->m_resp_cookie == Bytes(g_cookie, g_cookie + 3), "the chosen responder is kept"); isIIKeying(w, s.get(), s->m_resp_cookie, 0x51, 1);
}
ENTRY b_P18_overlapOpen() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); auto s = starting(w, true); size_t k = v_choose(4, "steps between"); uint32_t sid = nd32("sid"), sid2 = nd32("sid"); uint8_t skrc[2] = { 2, 3 }; int opens = 0; auto fl = share_ref(new SendFlow(w.r, s->m_epd, Bytes(), nullptr, PRI_ROUTINE), false); w.r->m_openingFlows.append(fl); fl->m_openingSession = s; fl->onWritable = [&opens] { opens++; return false; }; w.p.m_now = 10; v_cover("overlapOpen");
	s->onRIKeying(sid, skrc, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); for(size_t i = 0; i < k; i++) stepTask(w); s->onRIKeying(sid2, skrc, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); int n = 0; while(stepTask(w)) v_assert(n++ < 16, "drains"); v_assert(s->m_state == Session::S_OPEN and s->m_txSessionID == sid and fl->m_session == s and w.r->m_openingSessions.empty(), "open once, with the first valid answer");
}
// the same request twice while the first is still being checked commits one session
ENTRY b_P18_overlapResponder() {
	auto &w = *new World(false); w.r->m_sessions.clear(); w.s.reset(); size_t k = v_choose(8, "steps between"); g_disp = RTMFP::COOKIE_OK; w.c.m_cert->m_over = v_choose(2, "overrides"); uint32_t sid = nd32("sid"); w.p.m_now = 10; uint8_t in[3] = { 0xc, 0xe, 0x7 }; v_cover("overlapResponder");
	w.r->onIIKeying(sid, g_cookie, 3, in, 3, g_skic, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); for(size_t i = 0; i < k; i++) stepTask(w); w.r->onIIKeying(sid, g_cookie, 3, in, 3, g_skic, 2, g_sp, 3, g_sig, 2, 1, (sockaddr *)&w.sin); int n = 0; while(stepTask(w)) v_assert(n++ < 24, "drains"); v_assert(w.r->m_sessions.size() == 1 and w.r->m_waitingPerformCount == 0, "a repeated request commits nothing new"); auto s = w.r->findOpenSessionByAddress(Address((sockaddr *)&w.sin)); v_assert(s != nullptr and s->m_state == Session::S_OPEN and s->m_txSessionID == sid, "one session");
	auto &q = w.r->m_startupSession->m_sendItems[1]; v_assert(q.size() >= 1 and q.size() <= 2 and item(w, 1).m_bytes == s->m_rikeying, "the same answer"); 
}
// the index of sessions by address follows every move, whoever else is or was at either address
ENTRY h_P17_index() {
	auto &w = *new World(); auto s = w.s, o = w.r->makeSession(w.c.getKeyForNewSession(), HEADER_MODE_RESPONDER); o->m_cryptoCert = w.c.m_cert; struct sockaddr_in b = w.sin; b.sin_port = nd16("port"); v_assume(b.sin_port != w.sin.sin_port); Address A((sockaddr *)&w.sin), B((sockaddr *)&b); size_t k = v_choose(4, "other"); v_cover("index");
	w.r->m_openSessionsByAddress[A] = s; if(k == 1) { o->m_destAddr = A; w.r->m_openSessionsByAddress[A] = o; } if(k == 2) { o->m_destAddr = B; w.r->m_openSessionsByAddress[B] = o; } bool back = k == 3; s->m_destAddr = B; w.r->onSessionAddressDidChange(s, A); if(back) { s->m_destAddr = A; w.r->onSessionAddressDidChange(s, B); }
	v_assert(w.r->findOpenSessionByAddress(back ? A : B) == s, "the session is found at its new address"); v_assert(w.r->findOpenSessionByAddress(back ? B : A) == (k == 1 ? o : std::shared_ptr<Session>()), "the old address is left to whoever is there"); if(k == 2) { o->m_state = Session::S_CLOSED; w.r->onSessionDidClose(o, true); v_assert(w.r->findOpenSessionByAddress(B) == s, "closing the session that was there before does not remove the one that moved there"); }
}
