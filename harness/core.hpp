// The protocol core in one translation unit, with a platform and crypto adapter that record and answer arbitrarily.
#pragma once
#include "common.hpp"
#include <bits/stl_deque.h>
#include "src/Object.cpp"
#include "src/Timer.cpp"
#include "src/VLU.cpp"
#include "src/IndexSet.cpp"
#include "src/Address.cpp"
#include "src/PacketAssembler.cpp"
#include "src/WriteReceipt.cpp"
#include "src/Session.hpp"
#include "src/Flow.cpp"
#include "src/SendFlow.cpp"
#include "src/RecvFlow.cpp"
#include "src/Session.cpp"
#include "src/Interface.cpp"
#include "src/RTMFP.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
struct TestPlatform : IPlatformAdapter {
	Time m_now = 0; std::vector<Task> m_tasks; std::function<bool(void)> m_writable; int m_notify = 0, m_sent = 0, m_shutdown = 0, m_iface = -1, m_tos = 0; size_t m_len = 0; uint8_t m_pkt[1600]; socklen_t m_addrLen = 0;
	Time getCurrentTime() override { return m_now; }
	bool notifyWhenInterfaceWritable(int, const std::function<bool(void)> &f) override { m_notify++; m_writable = f; return true; }
	bool writePacket(const void *b, size_t n, int i, const struct sockaddr *, socklen_t al, int tos) override { m_sent++; m_len = n; m_iface = i; m_tos = tos; m_addrLen = al; for(size_t k = 0; k < n; k++) if(k < sizeof(m_pkt)) m_pkt[k] = ((const uint8_t *)b)[k]; return true; }
	bool perform(unsigned long, const Task &t) override { m_tasks.push_back(t); return true; }
	void onShutdownComplete() override { m_shutdown++; }
	size_t run(size_t max = 8) { size_t k = 0; for(; k < m_tasks.size(); k++) { v_assert(k < max, "task queue drains"); Task t = m_tasks[k]; t(); } m_tasks.clear(); return k; }
};
// identity cipher: the packet on the wire is the plaintext behind the scrambled session ID
struct TestKey : SessionCryptoKey {
	bool m_encOk = true, m_decOk = true; bool m_init = true, m_combine = true, m_resp = true;
	size_t getEncryptSrcFrontMargin() override { return 0; }
	bool encrypt(uint8_t *dst, size_t &n, uint8_t *src, size_t len, size_t) override { if(not m_encOk) return false; memmove(dst, src, len); n = len; return true; }
	bool decrypt(uint8_t *dst, size_t &n, size_t &margin, const uint8_t *src, size_t len) override { if(not m_decOk or len > n) return false; memmove(dst, src, len); n = len; margin = 0; return true; }
	Bytes getNearNonce() override { return Bytes(); }
	Bytes getFarNonce() override { return Bytes(); }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) override { out->push_back(0x51); return m_init; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *, size_t) override { return m_combine; }
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *, size_t, Bytes *out) override { out->push_back(0x52); return m_resp; }
};
struct TestCert : CryptoCert {
	bool m_auth = true, m_sel = true, m_sig = true, m_over = true; uint8_t m_id = 1; int m_checks = 0; Bytes m_signed, m_sigBytes;
	void isAuthentic(const Task &f) override { if(m_auth) f(); }
	bool isSelectedByEPD(const uint8_t *, size_t) override { return m_sel; }
	Bytes getCanonicalEPD() override { return Bytes(1, m_id); }
	void checkSignature(const uint8_t *p, size_t n, const uint8_t *s, size_t l, const Task &f) override { m_checks++; m_signed = Bytes(p, p + n); m_sigBytes = Bytes(s, s + l); if(m_sig) f(); }
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert>) override { return m_over; }
	Bytes encode() override { return Bytes(1, m_id); }
};
struct TestCrypto : ICryptoAdapter {
	std::shared_ptr<TestCert> m_cert; bool m_sel = true, m_glare = false; int m_keys = 0; bool m_key = true, m_init = true, m_combine = true, m_resp = true, m_decode = true;
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override { m_keys++; if(not m_key) return nullptr; auto *k = new TestKey(); k->m_init = m_init; k->m_combine = m_combine; k->m_resp = m_resp; return share_ref(k, false); }
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return Bytes(2, 0xce); }
	bool isSelectedByEPD(const uint8_t *, size_t) override { return m_sel; }
	Bytes sign(const uint8_t *, size_t, std::shared_ptr<CryptoCert>) override { return Bytes(1, 0x5a); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert>) override { return m_glare; }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *, size_t) override { if(not m_decode) return nullptr; return m_cert; }
	void pseudoRandomBytes(uint8_t *d, size_t n) override { for(size_t i = 0; i < n; i++) d[i] = (uint8_t)(0x30 + i); }
	Bytes m_in[4]; uint8_t m_out[4][32]; size_t m_hashes = 0; // what was hashed, and the arbitrary answers
	void cryptoHash256(uint8_t *d, const uint8_t *p, size_t n) override { size_t h = m_hashes++ & 3; m_in[h] = Bytes(p, p + n); for(int i = 0; i < 32; i++) d[i] = m_out[h][i] = nd8("hash"); }
};
struct World {
	TestPlatform p; TestCrypto c; RTMFP *r; std::shared_ptr<RTMFP> hold; std::shared_ptr<Session> s; struct sockaddr_in sin;
	World(bool open = true) { r = new RTMFP(&p, &c); hold = share_ref(r, false); r->addInterface(1); memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = 0x3412; sin.sin_addr.s_addr = 0x0100007f;
		s = r->makeSession(c.getKeyForNewSession(), HEADER_MODE_INITIATOR); c.m_cert = share_ref(new TestCert(), false);
		if(open) { s->m_state = Session::S_OPEN; s->m_destInterfaceID = 1; s->m_destAddr.setSockaddr((sockaddr *)&sin); s->m_cryptoCert = c.m_cert; s->m_txSessionID = 0x11223344; } }
};
