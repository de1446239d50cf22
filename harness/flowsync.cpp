// contracts for FlowSyncManager (P26)
#include "common.hpp"
#include "src/Object.cpp"
#include "src/VLU.cpp"
#include "src/AMF.cpp"
#include "src/TCMessage.cpp"
#include "src/FlowSyncManager.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace com::zenomt::rtmp;
// RecvFlow here is only storage for the receive order: get/set are the contracts of the real accessors (checked in recvflow.cpp)
namespace com { namespace zenomt { namespace rtmfp {
ReceiveOrder RecvFlow::getReceiveOrder() const { return m_rxOrder; }
static int g_sets; 
void RecvFlow::setReceiveOrder(ReceiveOrder order) { m_rxOrder = order; g_sets++; }
} } }
static std::shared_ptr<RecvFlow> mkflow(ReceiveOrder o) { RecvFlow *f = (RecvFlow *)v_bytes(sizeof(RecvFlow), "flow"); f->m_rxOrder = o; return std::shared_ptr<RecvFlow>(f, [](RecvFlow *) {}); }
#ifdef V_THOROUGH
static const size_t NF = 4;
#else
static const size_t NF = 3;
#endif
ENTRY b_P26_sync() {
	FlowSyncManager m; std::shared_ptr<RecvFlow> f[NF]; int held[NF]; uint32_t id[NF]; bool nul[NF]; ReceiveOrder orig[NF]; v_cover("sync");
	uint32_t A = nd32("idA"), B = nd32("idB"); v_assume(A != B); size_t waiting[2] = { 0, 0 };
	for(size_t i = 0; i < NF; i++) {
		size_t what = v_choose(4, "kind"); nul[i] = what == 3; orig[i] = what == 0 ? RO_SEQUENCE : what == 1 ? RO_NETWORK : RO_HOLD; if(not nul[i]) f[i] = mkflow(orig[i]); held[i] = -1;
	}
	for(size_t i = 0; i < NF; i++) {
		int w = (int)v_choose(2, "which"); size_t count = nd64("count"); if(v_choose(2, "reset") and i == NF - 1) { m.reset(w ? B : A); for(size_t k = 0; k < i; k++) if(held[k] == w) { held[k] = -1; if(f[k]) v_assert(f[k]->m_rxOrder == (orig[k] == RO_NETWORK ? RO_NETWORK : RO_SEQUENCE), "reset releases the members"); } waiting[w] = 0; }
		bool r = m.sync(w ? B : A, count, f[i]);
		v_assert(r == (count <= waiting[w] + 1), "the point completes when the announced number of flows has reached it");
		if(r) {
			waiting[w] = 0; v_assert(not f[i] or f[i]->m_rxOrder == orig[i], "the completing flow is not held"); v_cover("complete");
			for(size_t k = 0; k < i; k++) if(held[k] == w) { held[k] = -1; if(f[k]) { v_assert(f[k]->m_rxOrder == (orig[k] == RO_NETWORK ? RO_NETWORK : RO_SEQUENCE), "every waiting flow is released"); } }
			v_assert(m.m_barriers.count(w ? B : A) == 0, "the point is forgotten");
		} else { waiting[w]++; held[i] = w; }
		for(size_t k = 0; k <= i; k++) if(held[k] >= 0 and f[k]) v_assert(f[k]->m_rxOrder == (orig[k] == RO_NETWORK ? RO_NETWORK : RO_HOLD), "a waiting flow in original order is held, a flow in network order never is");
	}
}
ENTRY h_P26_message() {
	size_t count = nd64("count"); uint32_t id = nd32("id"); v_assume(count <= 0xffffffffULL); v_cover("message");
	Bytes b = FlowSyncManager::makeSyncMessage(id, count); v_assert(b.size() == 15, "size");
	uint32_t id2; size_t c2; v_assert(FlowSyncManager::parse(b.data(), b.size(), id2, c2) == 15, "parses"); v_assert(id2 == id and c2 == count, "identity and count survive, whatever their high bits");
	v_assert(FlowSyncManager::parse(b.data(), 14, id2, c2) == 0, "truncated messages are rejected");
	FlowSyncManager m; uint32_t n0 = nd32("next"); m.m_nextSyncID = n0; Bytes x = m.makeSyncMessage(count), y = m.makeSyncMessage(count); v_assert(FlowSyncManager::parse(x.data(), 15, id2, c2) == 15 and id2 == n0, "fresh identities"); v_assert(FlowSyncManager::parse(y.data(), 15, id2, c2) == 15 and id2 == n0 + 1, "fresh identities");
}
ENTRY h_P26_parse() {
	size_t len = nd64("len"); v_assume(len < 1ULL << 32); uint8_t *p = (uint8_t *)v_bytes(len, "msg"); uint32_t id = 0; size_t c = 0; v_cover("parse");
	size_t r = FlowSyncManager::parse(p, len, id, c); v_assert(r == 0 or r == 15, "size");
	bool is = len >= 15 and p[0] == 4 and p[5] == 0 and p[6] == 34; v_assert((r == 15) == is, "accepts exactly flow synchronization events");
	if(r) { v_assert(id == (((uint32_t)p[7] << 24) | ((uint32_t)p[8] << 16) | ((uint32_t)p[9] << 8) | p[10]), "big-endian identity"); v_assert(c == (((uint64_t)p[11] << 24) | ((uint64_t)p[12] << 16) | ((uint64_t)p[13] << 8) | p[14]), "big-endian unsigned count"); }
}
