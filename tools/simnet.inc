#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <queue>
#include <memory>
#include <functional>
#include <algorithm>
#include <netinet/in.h>
#include <arpa/inet.h>
#define private public
#define protected public
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include "rtmfp/PacketAssembler.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/params.hpp"
#include "Session.hpp"
#include "SendFrag.hpp"
#undef private
#undef protected
#define CHECK(c) do { if(!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); exit(1); } } while(0)
using namespace com::zenomt; using namespace com::zenomt::rtmfp;
// two or more endpoints on an in-memory network with a virtual clock
struct Net; struct Pkt { std::vector<uint8_t> b; int to; int from; };
struct Host : IPlatformAdapter {
	Net *net; int id; std::deque<Task> tasks; std::map<int, std::function<bool(void)>> wr; PlainCryptoAdapter crypto; std::shared_ptr<RTMFP> r; int down = 0;
	Host(Net *n, int i, const char *name) : net(n), id(i), crypto(name) { r = share_ref(new RTMFP(this, &crypto), false); r->addInterface(1); }
	Time getCurrentTime() override;
	bool notifyWhenInterfaceWritable(int i, const std::function<bool(void)> &f) override { wr[i] = f; return true; }
	bool writePacket(const void *b, size_t n, int, const struct sockaddr *a, socklen_t, int) override;
	bool perform(unsigned long, const Task &t) override { tasks.push_back(t); return true; }
	void onShutdownComplete() override { down++; }
};
static struct sockaddr_in addrOf(int id) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(2000 + id); s.sin_addr.s_addr = htonl(0x7f000001); return s; }
struct Net {
	double now = 1; std::vector<std::unique_ptr<Host>> h; std::deque<Pkt> q; std::function<bool(Pkt &)> filter; long sent = 0; std::map<int, int> as; // as: appear from another address
	Host &add(const char *name) { h.emplace_back(new Host(this, (int)h.size(), name)); return *h.back(); }
	bool step() {
		bool any = false; for(auto &x : h) { while(not x->tasks.empty()) { Task t = x->tasks.front(); x->tasks.pop_front(); t(); any = true; } }
		for(auto &x : h) { auto w = x->wr; for(auto &i : w) { int n = 0; while(n++ < 50 and i.second()) any = true; x->wr.erase(i.first); if(n > 1) any = true; } }
		size_t n = q.size(); while(n--) { Pkt p = q.front(); q.pop_front(); any = true; if(filter and not filter(p)) continue; if(p.to < 0 or p.to >= (int)h.size()) continue; auto a = addrOf(as.count(p.from) ? as[p.from] : p.from); h[p.to]->r->onReceivePacket(p.b.data(), p.b.size(), 1, (sockaddr *)&a, 0); }
		return any;
	}
	void run(double secs, double tick = 0.02) { double end = now + secs; while(now < end) { for(int i = 0; i < 40 and step(); i++); now += tick; for(auto &x : h) x->r->doTimerWork(); } }
};
inline Time Host::getCurrentTime() { return net->now; }
inline bool Host::writePacket(const void *b, size_t n, int, const struct sockaddr *a, socklen_t, int) { net->sent++; Pkt p; p.b.assign((const uint8_t *)b, (const uint8_t *)b + n); p.from = id; p.to = ntohs(((const sockaddr_in *)a)->sin_port) - 2000; net->q.push_back(p); return true; }
static std::shared_ptr<SendFlow> openTo(Host &a, const char *name, int to, Priority pri = PRI_ROUTINE) { auto f = a.r->openFlow(name, strlen(name), "m", 1, pri); auto s = addrOf(to); if(f) f->addCandidateAddress((sockaddr *)&s); return f; }
