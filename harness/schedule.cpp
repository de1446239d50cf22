// contracts for the transmission scheduler (P30)
#include "core.hpp"
static const int P3[3] = { PRI_IMMEDIATE, PRI_ROUTINE, PRI_BACKGROUND };
struct Probe; struct Net { World w; std::shared_ptr<Interface> f; Probe *p[3]; std::shared_ptr<ISession> h[3]; int order[8]; int at[8]; size_t n; };
struct Probe : ISession { Net *g = nullptr; int id = 0; bool work[3] = { false, false, false }; int reId = -1, rePri = 0, rePriAt = 0;
	Probe(RTMFP *r, std::shared_ptr<SessionCryptoKey> k) : ISession(r, k) {}
	bool onInterfaceWritable(int i, int pri) override;
	bool onPacketHeader(uint8_t, long, long, int) override { return false; }
	void onChunk(uint8_t, uint8_t, const uint8_t *, const uint8_t *, int, const struct sockaddr *) override {}
};
static int slot(int pri) { for(int i = 0; i < 3; i++) if(P3[i] == pri) return i; v_assert(false, "a priority asked for"); return 0; }
// while asked to transmit, a session may (through user callbacks) make other work waiting
bool Probe::onInterfaceWritable(int i, int pri) { v_assert(i == 7, "interface"); if(g->n < 8) { g->order[g->n] = id; g->at[g->n] = pri; } g->n++; if(reId >= 0 and slot(pri) == rePriAt) { int r = reId; reId = -1; g->f->scheduleWrite(g->h[r], P3[rePri]); } return work[slot(pri)]; }
static Net &mk() { auto &g = *new Net(); g.w.r->addInterface(7); g.f = g.w.r->m_interfaces[7]; g.n = 0; for(int i = 0; i < 3; i++) { g.p[i] = new Probe(g.w.r, g.w.c.getKeyForNewSession()); g.h[i] = share_ref(g.p[i], false); g.p[i]->g = &g; g.p[i]->id = i; } return g; }
static bool waiting(Net &g) { for(int i = 0; i < NUM_PRIORITIES; i++) if(not g.f->m_sessions[i].empty()) return true; return false; }
// requests: any order, duplicates; one notification while anything is waiting
static void fill(Net &g, size_t max, int (&q)[3][4], size_t (&c)[3]) {
	for(int i = 0; i < 3; i++) c[i] = 0; size_t k = v_choose(max + 1, "requests"); for(size_t j = 0; j < k; j++) { int s = (int)v_choose(j < 2 ? j + 1 : 3, "session"), p = (int)v_choose(3, "priority"); bool dup = false; for(size_t x = 0; x < c[p]; x++) dup |= q[p][x] == s; if(not dup) q[p][c[p]++] = s; g.f->scheduleWrite(g.h[s], P3[p]); }
	v_assert(g.w.p.m_notify == (k ? 1 : 0), "the platform is asked once while work is waiting"); for(int p = 0; p < 3; p++) { auto &l = g.f->m_sessions[P3[p]]; v_assert(l.size() == c[p], "a request waits once"); size_t x = 0; for(long m = l.first(); m > 0; m = l.next(m), x++) v_assert(l.at(m).get() == g.p[q[p][x]], "first come first served"); }
}
ENTRY b_P30_writable() {
	auto &g = mk(); int q[3][4]; size_t c[3]; fill(g, 3, q, c); for(int i = 0; i < 3; i++) for(int p = 0; p < 3; p++) for(size_t x = 0; x < c[p]; x++) if(q[p][x] == i) g.p[i]->work[p] = v_choose(2, "has work"); v_cover("writable");
	bool r = g.f->onWritable(); size_t n = 0; bool served = false; for(int p = 0; p < 3 and not served; p++) for(size_t x = 0; x < c[p] and not served; x++) { v_assert(n < g.n and g.order[n] == q[p][x] and g.at[n] == P3[p], "asked in priority order, first come first served"); n++; served = g.p[q[p][x]]->work[p]; if(served) { auto &l = g.f->m_sessions[P3[p]]; v_assert(l.size() == c[p] - x and l.at(l.last()).get() == g.p[q[p][x]], "the served session goes behind the others of its priority"); } }
	v_assert(g.n == n and r == served, "one packet per opportunity"); if(not r) v_assert(not waiting(g) and not g.f->m_writeScheduled, "idle exactly when nothing is waiting"); else v_assert(g.f->m_writeScheduled, "still waiting"); v_assert(g.w.p.m_notify <= 1, "asked once");
	int before = g.w.p.m_notify; bool was = g.f->m_writeScheduled; g.f->scheduleWrite(g.h[0], PRI_FLASH); v_assert(g.w.p.m_notify == before + not was, "new work wakes an idle interface");
}
// work that becomes waiting during the opportunity is not lost
ENTRY b_P30_reentrant() {
	auto &g = mk(); int q[3][4]; size_t c[3]; fill(g, 2, q, c); if(not waiting(g)) return; int s = 0, pr = -1; for(int p = 0; p < 3; p++) if(c[p] and pr < 0) { pr = p; s = q[p][v_choose(c[p], "who")]; } g.p[s]->rePriAt = pr; g.p[s]->rePri = (int)v_choose(3, "then"); g.p[s]->reId = (int)v_choose(3, "other"); int o = g.p[s]->reId, op = g.p[s]->rePri; if(o == s and op == pr) return; g.p[o]->work[op] = v_choose(2, "has work"); bool had = false; for(size_t x = 0; x < c[op]; x++) had |= q[op][x] == o; v_cover("reentrant");
	size_t calls = 0; bool more; do { more = g.f->onWritable(); calls++; if(more) g.p[o]->work[op] = false; v_assert(calls < 4, "terminates"); } while(more); v_assert(not waiting(g) and not g.f->m_writeScheduled, "idle exactly when nothing is waiting"); bool asked = false; for(size_t i = 0; i < g.n and i < 8; i++) asked |= g.order[i] == o and g.at[i] == P3[op]; v_assert(asked or had, "work that became waiting meanwhile is served");
}
// startup packets leave one per opportunity in the order they were queued, on the interface they were queued for
ENTRY b_P30_startup() {
	auto &w = *new World(); auto *s = w.r->m_startupSession.get(); w.r->addInterface(2); size_t k = v_choose(4, "packets"); int to[3]; size_t c[3] = { 0, 0, 0 }; uint8_t tag[3]; for(size_t i = 0; i < k; i++) { to[i] = (int)v_choose(4, "interface") - 1; if(to[i] == 0) to[i] = 9; tag[i] = nd8("tag"); s->sendPacket(Bytes(1, tag[i]), 5, to[i], (sockaddr *)&w.sin); } v_cover("startup");
	for(int f = 1; f <= 2; f++) { auto &fc = w.r->m_interfaces[f]; int sent0 = w.p.m_sent; size_t want = 0; for(size_t i = 0; i < k; i++) if(to[i] == f or to[i] == -1) { v_assert(fc->onWritable(), "a packet"); v_assert(w.p.m_sent == sent0 + (int)++want and w.p.m_iface == f and w.p.m_len >= 1, "one per opportunity"); v_assert(w.p.m_pkt[w.p.m_len - 1] == tag[i] or w.p.m_pkt[7] == tag[i], "in order"); } v_assert(not fc->onWritable() and w.p.m_sent == sent0 + (int)want, "and no more"); } (void)c; v_assert(s->empty(), "nothing is left");
}
