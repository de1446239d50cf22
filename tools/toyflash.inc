// toy primitives for exercising FlashCryptoAdapter: deterministic, not secure
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include "rtmfp/FlashCryptoAdapter.hpp"
#include "rtmfp/VLU.hpp"
using namespace com::zenomt; using namespace com::zenomt::rtmfp;
static void need(bool ok, const char *what) { if(not ok) { printf("FAIL: %s\n", what); exit(1); } }
static void mix(uint8_t *o, const void *k, size_t kl, const void *m, size_t ml) { uint64_t h[4] = {1, 2, 3, 4}; for(int r = 0; r < 2; r++) { for(size_t i = 0; i < kl; i++) for(int j = 0; j < 4; j++) h[j] = (h[j] ^ (((const uint8_t *)k)[i] + j)) * 0x100000001b3ull; for(size_t i = 0; i < ml; i++) for(int j = 0; j < 4; j++) h[j] = ((h[j] + j) ^ ((const uint8_t *)m)[i]) * 0x100000001b3ull; } memcpy(o, h, 32); }
struct TMac : HMACSHA256_Context { Bytes k; bool init(const void *p, size_t n) override { k.assign((const uint8_t *)p, (const uint8_t *)p + n); return true; } bool compute(void *md, const void *m, size_t n) override { mix((uint8_t *)md, k.data(), k.size(), m, n); return true; } };
struct TAes : AES_Context { Bytes k; bool init(const void *p, size_t n, bool) override { k.assign((const uint8_t *)p, (const uint8_t *)p + n); return true; } bool crypt_cbc(void *dst, const void *src, size_t n, uint8_t *) override { for(size_t i = 0; i < n; i++) ((uint8_t *)dst)[i] = ((const uint8_t *)src)[i] ^ k[i % 16]; return true; } };
static int g_dh = 0;
struct TDh : DH_Context { int g = 0; uint8_t x = 0; bool init(int gr) override { g = gr; x = (uint8_t)++g_dh; return true; } Bytes getPublicKey() const override { Bytes r(3, 0xd0); r[1] = (uint8_t)g; r[2] = x; return r; } bool computeSharedSecret(const void *o_, size_t n, Bytes &d) const override { auto o = (const uint8_t *)o_; if(n != 3) return false; d.assign(16, 9); d[0] = x < o[2] ? x : o[2]; d[1] = x < o[2] ? o[2] : x; return true; } };
struct Toy : FlashCryptoAdapter { uint8_t rnd = 0; void pseudoRandomBytes(uint8_t *d, size_t n) override { for(size_t i = 0; i < n; i++) d[i] = ++rnd; } void sha256(void *d, const void *m, size_t n) const override { mix((uint8_t *)d, "s", 1, m, n); }
	std::shared_ptr<HMACSHA256_Context> makeHMAC_Context() override { return share_ref(new TMac(), false); } std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new TAes(), false); } std::shared_ptr<DH_Context> makeDH_Context() override { return share_ref(new TDh(), false); } Bytes cert() { return getNearEncodedCertForEPD(nullptr, 0); } };
// keying between two ends
struct Pair { std::shared_ptr<SessionCryptoKey> i, r; bool ok; Pair(Toy &a, Toy &z) { auto ca = z.decodeCertificate(a.cert().data(), a.cert().size()), cz = a.decodeCertificate(z.cert().data(), z.cert().size()); need(ca and cz, "certificates"); i = a.getKeyForNewSession(); r = z.getKeyForNewSession(); Bytes s, t; ok = i->generateInitiatorKeyingComponent(cz, &s) and r->generateResponderKeyingComponent(ca, s.data(), s.size(), &t) and i->initiatorCombineResponderKeyingComponent(t.data(), t.size()); } };
static Bytes seal(SessionCryptoKey &k, const std::string &m) { uint8_t s[512], d[600]; size_t f = k.getEncryptSrcFrontMargin(), n = sizeof(d); memcpy(s + f, m.data(), m.size()); need(k.encrypt(d, n, s, f + m.size(), f), "encrypt"); return Bytes(d, d + n); }
static bool open(SessionCryptoKey &k, const Bytes &p, const std::string &m) { uint8_t d[600]; size_t n = sizeof(d), f = 0; Bytes q = p; if(not k.decrypt(d, n, f, q.data(), q.size())) return false; return n >= f + m.size() and 0 == memcmp(d + f, m.data(), m.size()); }
static Bytes opt(uintmax_t t, const Bytes &v) { Bytes r; Option::append(t, v, r); return r; }
static Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Bytes str(const char *s) { return Bytes((const uint8_t *)s, (const uint8_t *)s + strlen(s)); }
