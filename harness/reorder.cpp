// contracts for ReorderBuffer and FlowSyncManager
#include "common.hpp"
#include "src/Object.cpp"
#include "src/Timer.cpp"
#include "src/VLU.cpp"
#include "src/IndexSet.cpp"
#define _lastSN rb_lastSN
#include "src/ReorderBuffer.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
#ifdef V_THOROUGH
static const size_t NOPS = 4, NMSG = 3;
#else
static const size_t NOPS = 4, NMSG = 3;
#endif
struct TRB : public ReorderBuffer {
	TRB(Duration w) : ReorderBuffer(w), now(0) {}
	Time getCurrentTime() const override { return now; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return l.schedule(when); }
	Time now; TimerList l;
};
static const size_t MM = 8;
struct G { uintmax_t sn[MM]; size_t fc[MM], len[MM]; uint8_t b1[MM]; int got[MM]; size_t n; uintmax_t high; bool any; };
static Time g_rx[MM];
static uintmax_t last(uintmax_t s, size_t f) { return f ? s + f - 1 : s; }
static void hook(TRB &r, G &g) {
	G *p = &g;
	r.onMessage = [p](const uint8_t *b, size_t len, uintmax_t sn, size_t fc, bool late) {
		v_assert(len >= 1 and b[0] < p->n, "only inserted messages are delivered"); size_t k = b[0];
		p->got[k]++; v_assert(p->got[k] == 1, "delivered at most once");
		v_assert((len == p->len[k]) & (fc == p->fc[k]) & (sn == p->sn[k]) and (len == 1 or b[1] == p->b1[k]), "delivered unchanged");
		uintmax_t e = last(sn, fc);
		v_assert(late == (p->any & (e < p->high)), "flagged late exactly when something newer was delivered");
		p->high = (not p->any) | (e > p->high) ? e : p->high;
		p->any = true;
	};
}
static void ins(TRB &r, G &g) {
	size_t k = g.n; uintmax_t s = nd64("sn"); 
#ifdef V_THOROUGH
	size_t fc = v_choose(2, "fc") ? 3 : g.n & 1;
#else
	size_t fc = k == 1 ? 3 : k == 0;
#endif
	 v_assume(s >= 1 and s < 1ULL << 62); for(size_t i = 0; i < k; i++) v_assume(g.sn[i] != s);
	uint8_t *b = (uint8_t *)v_bytes(2, "payload"); size_t len = k & 1 ? 2 : 1; b[0] = (uint8_t)k; g.sn[k] = s; g.fc[k] = fc; g.len[k] = len; g.b1[k] = b[1]; g_rx[k] = r.now; g.n++;
	r.insert(b, len, s, fc); b[0] = 0x55; b[1]++; // the caller's buffer may be reused
}
static void inv(TRB &r, G &g, const char *lbl) {
	size_t q = 0;
	for(size_t i = 0; i < g.n; i++) {
		bool in = false; for(auto &e : r.m_messagesBySequence) in |= (e.first == g.sn[i]) & (e.second->m_sequenceNumber == g.sn[i]); q += g.got[i] == 0;
		v_assert((g.got[i] == 1) != in, "every inserted message is either delivered or still queued");
		v_assert((not in) | (not g.any) | (g.sn[i] > g.high + 1), "a message that continues what was delivered is not held back");
	}
	v_assert(r.m_messagesBySequence.size() == q and (q == 0) == r.m_messagesByTime.empty(), lbl);
	if(q and r.m_reorderPeriod < 1e30L) { v_assert(not r.l.m_timers.empty(), "a delivery timer is pending while messages wait"); }
}
ENTRY b_P23_ops() {
	Duration w = v_real("window"); v_assume(w >= 0 and w <= 100);
	auto rp = share_ref(new TRB(w), false); TRB &r = *rp; G g = {}; hook(r, g); r.now = 10;
	for(size_t i = 0; i < NOPS; i++) {
		size_t op = g.n < NMSG and i < NMSG ? v_choose(i == 0 ? 1 : 4, "op") : 1 + v_choose(3, "op"); v_cover("op");
		switch(op) {
		case 0: ins(r, g); break;
		case 1: { uintmax_t s = nd64("through"); v_assume(s < 1ULL << 62); r.deliverThrough(s); for(size_t k = 0; k < g.n; k++) v_assert((g.got[k] == 1) | (g.sn[k] > s + 1), "everything through the given number is delivered"); break; }
		case 2: { r.flush(); for(size_t k = 0; k < g.n; k++) v_assert(g.got[k] == 1, "flush delivers everything"); v_assert(r.m_messagesBySequence.empty(), "flushed"); break; }
		case 3: { Duration d = v_real("elapse"); v_assume(d > 0 and d < 1000); r.now += d; r.l.fireDueTimers(r.now); r.l.fireDueTimers(r.now); for(size_t k = 0; k < g.n; k++) v_assert((g.got[k] == 1) | (g_rx[k] + r.m_reorderPeriod > r.now), "nothing waits longer than the reorder window"); break; }
		}
		inv(r, g, "both queues agree");
	}
	if(v_choose(2, "end")) { r.close(); v_assert(r.m_messagesBySequence.empty() and r.m_messagesByTime.empty() and r.l.m_timers.empty() and not r.onMessage, "close drops everything"); }
}
ENTRY b_P23_window() {
	// changing the window takes effect for messages already waiting
	Duration w = v_real("window"), w2 = v_real("window2"); v_assume(w >= 0 and w <= 100 and w2 <= 100);
	auto rp = share_ref(new TRB(w), false); TRB &r = *rp; G g = {}; hook(r, g); r.now = 10; v_assert(r.getReorderWindowPeriod() == w, "window");
	if(ndb("inf")) { r.setReorderWindowPeriod(INFINITY); v_assert(r.l.m_timers.empty(), "an infinite window never expires"); ins(r, g); v_assert(g.got[0] == (g.sn[0] <= 1), "held"); v_assert(r.l.m_timers.empty(), "an infinite window never expires"); v_cover("inf"); }
	else ins(r, g);
	Duration d = v_real("d"); v_assume(d >= 0 and d <= 1000); r.now += d; r.setReorderWindowPeriod(w2); Duration W = w2 < 0 ? 0 : w2; v_assert(r.getReorderWindowPeriod() == W, "negative windows mean none"); v_cover("window");
	r.l.fireDueTimers(r.now); v_assert(g.got[0] == (g.sn[0] <= 1 or g_rx[0] + W <= r.now), "the new window decides"); inv(r, g, "both queues agree");
	Duration e = v_real("e"); v_assume(e >= 0 and e <= 1000); r.now += e; r.l.fireDueTimers(r.now); v_assert(g.got[0] == (g.sn[0] <= 1 or g_rx[0] + W <= r.now), "the new window decides");
}
// the delivery callback may use the buffer
ENTRY b_P23_callback() {
	Duration w = v_real("window"); v_assume(w > 0 and w <= 100); auto rp = share_ref(new TRB(w), false); TRB *r = rp.get(); r->now = 10; size_t what = v_choose(5, "what"); v_cover("callback");
	struct S { int n; uintmax_t a, b, c; int ga, gb, gc; bool closed; } s = {}; s.a = nd64("a"); s.b = nd64("b"); s.c = nd64("c"); v_assume(s.a >= 1 and s.b >= 1 and s.c >= 1 and s.a < 1000 and s.b < 1000 and s.c < 1000 and s.a != s.b and s.a != s.c and s.b != s.c); S *p = &s;
	static const uint8_t pl[3] = { 1, 2, 3 };
	r->onMessage = [p, r, what](const uint8_t *b, size_t len, uintmax_t sn, size_t fc, bool late) {
		v_assert(not p->closed, "nothing is delivered after close");
		int &g = sn == p->a ? p->ga : sn == p->b ? p->gb : p->gc; g++; v_assert(g == 1, "delivered at most once"); uint8_t id = sn == p->a ? 1 : sn == p->b ? 2 : 3;
		bool first = p->n++ == 0; S *P = p; TRB *R = r; size_t W = what;
		if(first and W == 1) { P->closed = true; R->close(); }
		if(first and W == 2) R->insert(pl + 2, 1, P->c, 1);
		if(first and W == 3) R->flush();
		if(first and W == 4) R->setReorderWindowPeriod(0);
		v_assert(len == 1 and b[0] == id, "the payload stays valid during the callback");
	};
	r->insert(pl, 1, s.a, 1); if(not s.closed) r->insert(pl + 1, 1, s.b, 1);
	if(not s.closed) { r->flush(); if(not s.closed) { v_assert(s.ga == 1 and s.gb == 1 and (what != 2 or s.gc == 1 or not r->m_messagesBySequence.empty()), "all delivered"); r->flush(); r->flush(); v_assert((what == 2) == (s.gc == 1), "all delivered"); } }
	if(s.closed) v_assert(r->m_messagesBySequence.empty() and r->m_messagesByTime.empty() and r->l.m_timers.empty() and s.n == 1, "closed from the callback");
	else v_assert(r->m_messagesBySequence.empty() and r->m_messagesByTime.empty(), "nothing left");
}
ENTRY h_P23_deliver() {
	auto rp = share_ref(new TRB(1), false); TRB &r = *rp; uintmax_t c = nd64("csn"), d = nd64("delivered"), s = nd64("sn"); size_t fc = nd64("fc"); v_assume(s < 1ULL << 62 and fc < 1ULL << 62 and c < 1ULL << 63);
	r.m_csn = c; r.m_deliveredThrough = d; int n = 0; bool late = false; uintmax_t gs = 0; size_t gf = 0, gl = 0; const uint8_t *gb = nullptr; int *np = &n; bool *lp = &late;
	struct C { int n; bool late; uintmax_t s; size_t f, l; const uint8_t *b; } k = {}; C *kp = &k; v_cover("deliver");
	r.onMessage = [kp](const uint8_t *b, size_t len, uintmax_t sn, size_t f, bool lt) { kp->n++; kp->late = lt; kp->s = sn; kp->f = f; kp->l = len; kp->b = b; };
	size_t len = nd64("len"); uint8_t x; v_assert(r.shouldDeliverNow(s) == (s <= c + 1), "deliverable when it continues the sequence");
	r.deliverMessage(&x, len, s, fc); uintmax_t e = last(s, fc);
	v_assert(k.n == 1 and k.s == s and k.f == fc and k.l == len and k.b == &x, "delivered unchanged"); v_assert(k.late == (e < d), "late exactly when something newer was delivered");
	v_assert(r.m_csn == (e > c ? e : c) and r.m_deliveredThrough == (e > d ? e : d), "progress never goes back");
}
