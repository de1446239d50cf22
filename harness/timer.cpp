// contracts for Timer/TimerList, RateTracker and WriteReceipt
#include "common.hpp"
#include "src/Object.cpp"
#include "src/Timer.cpp"
#include "src/RateTracker.cpp"
#include "src/WriteReceipt.cpp"
using namespace com::zenomt;
typedef std::shared_ptr<Timer> TP;
static Time T(const char *n) { Time t = v_real(n); v_assume(t >= 0 and t <= 1e9L); return t; }
struct Log { int fired[4]; int order[8]; Time at[8]; int n; };
static TP mk(TimerList &l, Log &g, int id, Time when, Duration rec = 0, bool cu = true) { return l.schedule([&g, id](const TP &, Time now) { g.fired[id]++; if(g.n < 8) { g.order[g.n] = id; g.at[g.n] = now; } g.n++; }, when, rec, cu); }

ENTRY b_P22_oneshot() {
	TimerList l; Log g = {}; Time w[3]; TP t[3]; size_t k = v_choose(4, "timers"); v_cover("oneshot");
	for(size_t i = 0; i < k; i++) { w[i] = T("when"); t[i] = mk(l, g, (int)i, w[i]); }
	size_t c = v_choose(k + 1, "cancel"); if(c < k) { t[c]->cancel(); v_assert(t[c]->isCanceled(), "canceled"); }
	Time now = T("now"); Duration max = T("max"); Time lo = 0; bool any = false;
	for(size_t i = 0; i < k; i++) if(i != c and (not any or w[i] < lo)) { lo = w[i]; any = true; }
	v_assert(l.howLongToNextFire(now, max) == (any and lo - now < max ? lo - now : max), "time to the earliest pending timer, limited to the maximum");
	size_t n = l.fireDueTimers(now); size_t due = 0;
	for(size_t i = 0; i < k; i++) { bool d = i != c and w[i] <= now; due += d; v_assert(g.fired[i] == (d ? 1 : 0), "a timer fires exactly when it is due and not canceled, once"); if(i != c) v_assert(t[i]->isCanceled() == d, "a one-shot timer is spent after firing"); }
	v_assert(n == due and g.n == (int)due, "number of timers fired");
	for(int i = 1; i < g.n; i++) v_assert(w[g.order[i - 1]] <= w[g.order[i]], "timers fire in time order");
	v_assert(l.fireDueTimers(now) == 0, "nothing is left to fire at the same time");
	if(k and c < k) { t[c]->setNextFireTime(0); v_assert(l.fireDueTimers(now) == 0 and g.fired[c] == 0, "a canceled timer never fires again"); }
}
ENTRY b_P22_reschedule() {
	TimerList l; Log g = {}; v_cover("resched"); int woke = 0;
	Time w0 = T("w0"), w1 = T("w1"), now = T("now"), nw = T("new");
	TP a = mk(l, g, 0, w0), b = mk(l, g, 1, w1);
	l.onHowLongToSleepDidChange = [&woke] { woke++; };
	a->setNextFireTime(nw); v_assert(a->getNextFireTime() == nw, "new fire time");
	v_assert((woke > 0) == (nw < w1), "the sleeper is woken when the earliest time moves up");
	l.fireDueTimers(now);
	v_assert(g.fired[0] == (nw <= now) and g.fired[1] == (w1 <= now), "the new time decides");
	if(g.n == 2) v_assert((g.order[0] == 0) == (nw <= w1) or nw == w1, "order follows the new time");
}
// actions that cancel or reschedule themselves or another timer
ENTRY b_P22_inaction() {
	TimerList l; int fa = 0, fb = 0; TP b; Time wb = T("wb"), wa = T("wa"), now = T("now"), nw = T("new"); size_t what = v_choose(6, "what"); v_assume(wa <= now); v_cover("inaction");
	Time n2 = now + 1;
	b = l.schedule([&fb](const TP &, Time) { fb++; }, wb);
	TP a = l.schedule([&](const TP &me, Time t) {
		fa++; v_assert(t == now, "actions see the fire time");
		if(fa > 1) return;
		if(what == 1) me->cancel(); if(what == 2) me->setNextFireTime(n2); if(what == 3) b->cancel(); if(what == 4) b->setNextFireTime(n2); if(what == 5) { me->setNextFireTime(n2); me->cancel(); }
	}, wa, ndb("recurs") ? 0.5L : 0.0L);
	bool rec = a->doesRecur(), bFirst = wb < wa; v_assume(wb != wa); v_assume(not rec or now < wa + 0.4L);
	l.fireDueTimers(now);
	v_assert(fa == 1, "fired once");
	if(what == 3) v_assert(fb == (wb < wa), "a timer canceled by an earlier action does not fire");
	else if(what == 4) v_assert(fb == (wb < wa), "a timer postponed by an earlier action does not fire");
	else v_assert(fb == (wb <= now), "other timers fire when due");
	if(what == 1 or what == 5) { v_assert(a->isCanceled(), "canceled in its own action"); v_assert(l.fireDueTimers(n2 + 10) <= 1 and fa == 1, "does not fire again"); }
	else if(what == 2) { v_assert(not a->isCanceled() and a->getNextFireTime() == n2, "rescheduled in its own action"); now = n2; l.fireDueTimers(n2); v_assert(fa == 2, "fires at the new time"); }
	else v_assert(a->isCanceled() == not rec, "a recurring timer stays, a one-shot timer is spent");
}
ENTRY h_P22_recur() {
	// one firing of a recurring timer from arbitrary times
	TimerList l; int f = 0; Time w = T("when"), now = T("now"); Duration r = v_real("recur"); v_assume(r <= 1000); bool cu = ndb("catchup"); v_assume(w <= now);
	TP t = l.schedule([&f](const TP &, Time) { f++; }, w, r, cu); v_cover("recur");
	v_assert(t->getRecurInterval() == (r > 0 and r < 0.000001 ? (Duration)0.000001 : r), "tiny intervals are raised to the minimum");
	l.m_timers.erase(l.m_timers.begin()); Timer::fire(t, now);
	v_assert(f == 1, "fired");
	Duration R = t->getRecurInterval();
	if(R > 0) {
		v_assert(not t->isCanceled() and l.m_timers.size() == 1, "scheduled again");
		Time n = t->getNextFireTime(); v_assert(n > w, "the next time is later");
		if(cu and now > w) { v_assert(n >= now and n < now + R, "missed periods are skipped: next time is the first one not in the past"); }
		else v_assert(n == w + R, "exactly one interval later");
	} else v_assert(t->isCanceled() and l.m_timers.empty(), "one shot");
}
ENTRY b_P22_lifetime() {
	Log g = {}; TP t; bool act = ndb("clear"); v_cover("lifetime");
	{ TimerList l; t = mk(l, g, 0, T("w")); { TP u = mk(l, g, 1, T("w2")); } if(act) { l.clear(); } }
	if(not act) v_assert(t->isCanceled() and not t->action, "destroying the list cancels its timers and drops their actions");
	v_assert(g.n == 0, "nothing fired");
	TP c = t; t.reset(); v_assert(c.use_count() == 1, "no hidden references");
}
// ---- RateTracker
ENTRY h_P29_rate() {
	RateTracker r; Duration w = v_real("window"); v_assume(w >= 0.000001L and w <= 1e6L); r.m_windowPeriod = w;
	bool fresh = ndb("fresh"); size_t cnt = nd64("count"); v_assume(cnt < 1ULL << 40); double prev = v_real("prev"); v_assume(prev >= 0 and prev < 1e12);
	Time b = T("begin"); if(not fresh) { r.m_windowBegin = b; r.m_count = cnt; r.m_previousRate = prev; }
	v_cover("rate"); Time now = T("now");
	double q = r.getRate(now);
	v_assert(q >= 0, "a rate is never negative");
	if(fresh) v_assert(q == 0, "no data, no rate");
	else if(now >= b + 2 * w) v_assert(q == 0, "the rate decays to zero after two idle windows");
	else if(now >= b + w) v_assert(q == cnt * ((2 * w - (now - b)) / w) / w, "the last window decays linearly");
	else if(now >= b) v_assert(q == cnt / w + (prev > 0 ? prev * (1 - (now - b) / w) : 0), "current window plus the undecayed part of the previous rate");
	else v_assert(q == cnt / w + (prev > 0 ? prev : 0), "a clock before the window is treated as its beginning");
	size_t n = nd64("n"); v_assume(n < 1ULL << 40); r.update(n, now);
	if(fresh or now >= b + w) v_assert(r.m_windowBegin == now and r.m_count == n and r.m_previousRate == q, "a new window starts with the decayed rate"); 
	else if(now < b) v_assert(r.m_count == cnt and r.m_windowBegin == b, "updates from before the window are ignored");
	else v_assert(r.m_count == cnt + n and r.m_windowBegin == b and r.m_previousRate == prev, "counted in the current window");
	Duration p = v_real("period"); r.setWindowPeriod(p); v_assert(r.getWindowPeriod() == (p < (Duration)0.000001 ? (Duration)0.000001 : p), "window period has a positive minimum");
	r.reset(); v_assert(r.getRate(now) == 0, "reset");
}
// ---- WriteReceipt
struct Cb { int n; bool ab; };
static std::shared_ptr<IssuerWriteReceipt> wr(Cb &c, const char *nm, bool cb) {
	auto r = share_ref(new IssuerWriteReceipt(T(nm), 0, 0), false);
	r->startBy = v_real("startBy"); r->finishBy = v_real("finishBy"); r->m_started = ndb("started"); r->m_useCount = nd64("use"); v_assume(r->m_useCount < 1ULL << 40); r->m_abandoned = ndb("abandoned"); v_assume(not r->m_abandoned or true);
	if(cb) r->onFinished = [&c](bool a) { c.n++; c.ab = a; };
	return r;
}
ENTRY h_P12_receipt() {
	Cb c = {}, pc = {}; bool cb = ndb("cb"); auto r = wr(c, "origin", cb); std::shared_ptr<IssuerWriteReceipt> p; if(ndb("parent")) { p = wr(pc, "porigin", false); r->parent = p; }
	bool ab = r->m_abandoned; size_t use = r->m_useCount; bool st = r->m_started; Time sb = r->startBy, fb = r->finishBy; Time now = T("now"); size_t op = v_choose(6, "op"); v_cover("receipt");
	if(ab) { r->onFinished = nullptr; cb = false; }
	v_assert(r->isFinished() == (use == 0 or ab) and r->isDelivered() == (use == 0 and not ab) and r->isAbandoned() == ab and r->isStarted() == st, "status predicates");
	bool pab = p and p->m_abandoned;
	switch(op) {
	case 0: r->abandon(); v_assert(r->isAbandoned() == (ab or use > 0), "abandoning a delivered message has no effect"); break;
	case 1: { r->abandonIfNeeded(now); bool must = now > fb or (not st and now > sb) or pab; v_assert(r->isAbandoned() == (ab or (must and use > 0)), "abandoned exactly when past a deadline or the parent is abandoned"); break; }
	case 2: r->useCountUp(); v_assert(r->m_useCount == use + 1 and not c.n, "use count"); break;
	case 3: v_assume(use > 0); r->useCountDown(); v_assert(r->m_useCount == use - 1, "use count"); if(use == 1) v_assert(cb ? c.n == 1 and not c.ab : c.n == 0, "finished callback on the last fragment, not abandoned"); else v_assert(c.n == 0, "not finished yet"); if(use == 1) v_assert(not r->parent and not r->onFinished, "dependency and callback released"); break;
	case 4: r->start(); v_assert(r->isStarted() and not c.n, "started"); break;
	case 5: { Duration d = v_real("age"); Time o = r->createdAt(); r->setStartWithin(d); v_assert(r->startBy == o + d, "start deadline is relative to creation"); r->setFinishWithin(d); v_assert(r->finishBy == o + d, "finish deadline is relative to creation"); break; }
	}
	if(not ab and r->isAbandoned()) { v_assert(cb ? c.n == 1 and c.ab : c.n == 0, "abandonment is reported once"); v_assert(not r->parent and not r->onFinished, "dependency and callback released"); int n = c.n; r->abandon(); r->abandonIfNeeded(now); if(r->m_useCount) { while(r->m_useCount > 1) { r->m_useCount = 1; } r->useCountDown(); } v_assert(c.n == n and r->isAbandoned(), "reported exactly once, and abandonment is final"); }
	else if(op != 3) v_assert(c.n == 0, "no spurious callback");
}
ENTRY b_P12_chain() {
	WriteReceiptChain ch; Cb c[3] = {}; std::shared_ptr<IssuerWriteReceipt> r[3]; size_t k = v_choose(4, "k"); v_cover("chain"); Time sb[3], fb[3];
	for(size_t i = 0; i < k; i++) { r[i] = wr(c[i], "o", false); v_assume(r[i]->m_useCount > 0 and not r[i]->m_abandoned); sb[i] = r[i]->startBy; fb[i] = r[i]->finishBy; }
	for(size_t i = 0; i < k; i++) { ch.append(r[i]); v_assert(r[i]->parent == (i ? r[i - 1] : nullptr), "each message depends on the previous one"); }
	ch.append(nullptr);
	if(ndb("abandon first") and k > 1) { r[0]->abandon(); Time now = 0; for(size_t i = 1; i < k; i++) { r[i]->abandonIfNeeded(now); v_assert(r[i]->isAbandoned(), "abandonment propagates down the chain"); } return; }
	Time a = T("a"), b = T("b"); ch.expire(a, b);
	for(size_t i = 0; i < k; i++) v_assert(r[i]->startBy == (a < sb[i] ? a : sb[i]) and r[i]->finishBy == (b < fb[i] ? b : fb[i]), "expire only moves deadlines earlier");
	v_assert(ch.m_receipts.empty(), "chain cleared");
}
