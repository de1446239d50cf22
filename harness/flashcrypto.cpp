// contracts for packet protection and keying (P20) and certificates and endpoint selectors (P21)
#include "common.hpp"
extern "C" int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); } // C locale
#include "src/Object.cpp"
#include "src/VLU.cpp"
#include "src/Hex.cpp"
#include "src/Checksums.cpp"
#include "src/IndexSet.cpp"
#include "src/FlashCryptoAdapter.cpp"
#include "src/PlainCryptoAdapter.cpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
// ---- contracts of the primitives (assumed; implemented by the concrete subclass): they read and write exactly what they are given and may fail
struct Log { int aes, mac; const uint8_t *src, *dst, *msg, *md; size_t len, msgLen; bool aesOk, macOk, pre; uint8_t *plain; uint8_t tag[32]; }; static Log g;
static bool zeros(const uint8_t *p) { bool r = true; for(int i = 0; i < 16; i++) r = r & (p[i] == 0); return r; }
static void (*g_onAes)(void *, const void *, size_t);
static bool aes(void *dst, const void *src, size_t len, uint8_t *iv) {
	v_assert(g.aes++ == 0 and zeros(iv), "one cipher pass from a zero vector"); v_assert(len > 0 and (len & 15) == 0, "whole blocks"); g.src = (const uint8_t *)src; g.dst = (uint8_t *)dst; g.len = len; if(g_onAes) g_onAes(dst, src, len);
	g.plain = (uint8_t *)v_bytes(len, "cipher output"); memmove(dst, src, len); memmove(dst, g.plain, len); return g.aesOk = ndb("aes works");
}
struct Aes : AES_Context { bool mine = true; Aes(bool m) : mine(m) {} bool init(const void *, size_t, bool) override { return true; } bool crypt_cbc(void *dst, const void *src, size_t len, uint8_t *iv) override { v_assert(mine, "the session key once keying is complete, the default key until then"); return aes(dst, src, len, iv); } };
struct Mac : HMACSHA256_Context { bool init(const void *, size_t) override { return true; } bool compute(void *md, const void *msg, size_t len) override { v_assert(g.mac++ == 0, "one tag"); g.msg = (const uint8_t *)msg; g.md = (uint8_t *)md; g.msgLen = len; uint8_t *t = (uint8_t *)malloc(len); memcpy(t, msg, len); free(t); for(int i = 0; i < 32; i++) g.tag[i] = nd8("tag"); memcpy(md, g.tag, 32); return g.macOk = ndb("mac works"); } };
struct FC : FlashCryptoAdapter { void pseudoRandomBytes(uint8_t *dst, size_t len) override { memset(dst, 0x5a, len); } void sha256(void *dst, const void *, size_t) const override { memset(dst, 1, 32); } std::shared_ptr<HMACSHA256_Context> makeHMAC_Context() override { return share_ref(new Mac(), false); } std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new Aes(true), false); } std::shared_ptr<DH_Context> makeDH_Context() override { return nullptr; } };
// the packet's sequence number: VLU::parse by its contract (proved for P01); the internet checksum by its contract (P28); the sequence number history by its contract (P04)
static size_t g_vlen; static uintmax_t g_vval; static int g_vcalls, g_adds, g_has; static uint16_t g_sum; static const uint8_t *g_sumAt; static size_t g_sumLen; static int g_sums; static bool g_seen; static uintmax_t g_addFrom[3], g_addTo[3];
STUB_FOR("h_P20_decrypt", "com::zenomt::rtmfp::VLU::parse")
static size_t vluContract(const uint8_t *src, const uint8_t *limit, uintmax_t *val, bool sat) { g_vcalls++; v_assert(src == g.dst and limit == g.dst + g.len and sat, "the sequence number is at the front of the decrypted packet"); v_assume(g_vlen <= g.len); if(g_vlen) *val = g_vval; return g_vlen; }
STUB_FOR("h_P20_.*crypt", "com::zenomt::in_cksum")
static uint16_t cksumContract(const void *p, size_t n) { g_sums++; g_sumAt = (const uint8_t *)p; g_sumLen = n; uint8_t *t = (uint8_t *)malloc(n); memcpy(t, p, n); free(t); return g_sum; }
STUB_FOR("h_P20_decrypt", "com::zenomt::IndexSet::contains")
static bool containsContract(const IndexSet *, uintmax_t x) { g_has++; v_assert(x == g_vval and g_adds == 0, "the packet's number is looked up before it is recorded"); return g_seen; }
static void add(uintmax_t a, uintmax_t b) { v_assert(g_adds < 2, "recorded once"); g_addFrom[g_adds] = a; g_addTo[g_adds++] = b; }
STUB_FOR("h_P20_decrypt", "com::zenomt::IndexSet::add")
static void addOneContract(IndexSet *, uintmax_t x) { add(x, x); }
STUB_FOR("h_P20_decrypt", "com::zenomt::IndexSet::add")
static void addRangeContract(IndexSet *, uintmax_t a, uintmax_t b) { add(a, b); }
static FlashCryptoKey &key(FC &o, bool complete, bool sender) {
	auto &k = *new FlashCryptoKey(); v_assert(k.init(&o), "init"); v_assert(not k.m_complete and k.m_txSequenceNumber == 0 and k.m_rxSequenceNumbers.empty(), "a new key is not established"); k.m_complete = complete; o.m_defaultEncryptContext = share_ref(new Aes(not complete), false); o.m_defaultDecryptContext = share_ref(new Aes(not complete), false); k.m_txKey = share_ref(new Aes(complete), false); k.m_rxKey = share_ref(new Aes(complete), false); k.m_txHMAC = share_ref(new Mac(), false); k.m_rxHMAC = share_ref(new Mac(), false);
	bool h = v_choose(2, "tags"), q = v_choose(2, "numbers"); k.m_hmacSendAlways = sender == h; k.m_hmacRecvRequired = sender != h; k.m_sseqSendAlways = sender == q; k.m_sseqRecvRequired = sender != q; g = Log(); return k;
}
ENTRY h_P20_decrypt() {
	FC o; auto &k = key(o, v_choose(2, "complete"), false); bool complete = k.m_complete, mac = complete and k.m_hmacRecvRequired, seq = complete and k.m_sseqRecvRequired; static const size_t L[4] = { 4, 10, 16, 32 }; size_t h = k.m_rxHMACLength = L[v_choose(4, "hmac length")]; if(not mac) h = 0; size_t n = nd16("length"), cap = nd16("room"); const uint8_t *src = (uint8_t *)v_bytes(n, "packet"); uint8_t *dst = (uint8_t *)v_bytes(cap, "buffer");
	g_vlen = nd16("vlen"); g_vval = nd64("sequence number"); g_seen = ndb("seen"); g_sum = nd16("checksum"); size_t io = cap, margin = 777; v_cover("decrypt");
	bool r = k.decrypt(dst, io, margin, src, n);
	bool shape = n > h and ((n - h) & 15) == 0 and n - h <= cap, tag = shape; if(shape and mac) { v_assert(g.mac == 1 and g.msg == src and g.msgLen == n - h, "the tag covers the whole encrypted packet"); tag = g.macOk; for(size_t i = 0; i < h; i++) tag = tag & (g.tag[i] == src[n - h + i]); } else v_assert(g.mac == 0, "no tag");
	v_assert(g.aes == (tag ? 1 : 0), "nothing is decrypted unless its length and tag are right"); if(g.aes) v_assert(g.src == src and g.dst == dst and g.len == n - h, "exactly the encrypted part is decrypted"); bool ok = g.aes and g.aesOk; size_t l = 0;
	if(ok and seq) { l = g_vlen; ok = l > 0; if(ok) { v_assert(g_has == 1, "looked up"); ok = not g_seen; } } else v_assert(g_vcalls == 0 and g_has == 0, "no sequence number is expected");
	if(ok and not mac) { size_t room = n - h - l; ok = room >= 2; if(ok) { v_assert(g_sums == 1 and g_sumAt == dst + l + 2 and g_sumLen == room - 2, "the checksum covers the rest of the packet"); ok = (uint16_t)(g.plain[l] << 8 | g.plain[l + 1]) == g_sum; } }
	v_assert(r == ok, "accepted exactly when length, tag, sequence number and checksum are right"); v_assert(g_adds == (ok and seq ? 1 + (g_vval > 32) : 0), "only accepted packets are recorded, once"); if(g_adds) v_assert(g_addFrom[0] == g_vval and g_addTo[0] == g_vval, "its number is used up"); if(g_adds == 2) v_assert(g_addFrom[1] == 0 and g_addTo[1] == g_vval - 32, "and every number too old to tell");
	if(r) { v_cover("accepted"); v_assert(io == n - h and margin == l + (mac ? 0 : 2) and margin <= io, "the packet starts after its sequence number and checksum"); }
}
static const uint8_t *g_orig; static size_t g_n, g_margin, g_head; static uintmax_t g_seq; static uint8_t g_vlu[10]; static bool g_useMac, g_useSeq;
static void plaintext(void *, const void *src_, size_t len) {
	const uint8_t *s = (const uint8_t *)src_; v_assert(len == (g_n + 15) / 16 * 16, "padded to whole blocks"); if(g_useSeq) for(size_t i = 0; i < g_head; i++) v_assert(s[i] == g_vlu[i], "the sequence number comes first"); if(not g_useMac) { v_assert(g_sums == 1 and g_sumAt == s + g_margin and g_sumLen == len - g_margin, "the checksum covers the packet and its padding"); v_assert(s[g_head] == (g_sum >> 8) and s[g_head + 1] == (g_sum & 255), "the checksum comes next, most significant byte first"); }
	size_t j = nd16("j"); if(j >= g_margin and j < g_n) v_assert(s[j] == g_orig[j], "the packet is unchanged"); if(j >= g_n and j < len) v_assert(s[j] == 0xff, "the padding is 0xff");
}
ENTRY h_P20_encrypt() {
	FC o; auto &k = key(o, v_choose(2, "complete"), true); bool complete = k.m_complete; g_useMac = complete and k.m_hmacSendAlways; g_useSeq = complete and k.m_sseqSendAlways; static const size_t L[4] = { 4, 10, 16, 32 }; size_t h = k.m_txHMACLength = L[g_useMac ? v_choose(4, "hmac length") : 0]; if(not g_useMac) h = 0; static const uintmax_t Q[5] = { 0, 127, 128, 0x123456789abcull, ~0ull - 1 }; g_seq = k.m_txSequenceNumber = Q[(complete and k.m_sseqSendAlways) ? v_choose(5, "next") : 3];
	size_t margin = g_margin = k.getEncryptSrcFrontMargin(); g_head = g_useSeq ? VLU::encode(g_seq, g_vlu) : 0; v_assert(margin == g_head + (g_useMac ? 0 : 2), "room for the sequence number and the checksum"); size_t n = g_n = nd16("length"), cap = nd16("room"); v_assume(n > margin and n <= 9000); size_t total = (n + 15) / 16 * 16; uint8_t *src = (uint8_t *)v_bytes(total, "packet"), *dst = (uint8_t *)v_bytes(cap, "buffer"); uint8_t *orig = (uint8_t *)malloc(total); memcpy(orig, src, total); g_orig = orig; g_sum = nd16("checksum"); g_onAes = plaintext; size_t io = cap; v_cover("encrypt");
	bool r = k.encrypt(dst, io, src, n, margin); bool room = cap >= total + 32, ok = room and g.aesOk and (not g_useMac or g.macOk); v_assert(g.aes == room, "encrypted only when it fits"); v_assert(r == ok, "sent exactly when it fits and the primitives work"); v_assert(k.m_txSequenceNumber >= g_seq and k.m_txSequenceNumber <= g_seq + g_useSeq, "numbers only go up"); if(g.aes) v_assert(k.m_txSequenceNumber == g_seq + g_useSeq, "a number is never used again");
	if(g.aes) v_assert(g.src == src and g.dst == dst and g.len == total, "all of it is encrypted"); if(r) { v_cover("sent"); v_assert(io == total + h, "length"); v_assert(g.mac == g_useMac, "tag"); if(g_useMac) { v_assert(g.msg == dst and g.msgLen == total and g.md == dst + total, "the tag of the encrypted packet follows it"); size_t i = nd16("t"); if(i < h) v_assert(dst[total + i] == g.tag[i], "tag"); } size_t j = nd16("i"); if(j < total) v_assert(dst[j] == g.plain[j], "ciphertext"); }
}
// replay: real sequence number history, arbitrary numbers
static uintmax_t g_q[4]; static int g_at;
STUB_FOR("b_P20_history", "com::zenomt::rtmfp::VLU::parse")
static size_t numberContract(const uint8_t *, const uint8_t *, uintmax_t *val, bool) { *val = g_q[g_at]; return 1; }
static void history(int n) {
	FC o; auto &k = key(o, true, false); if(not k.m_hmacRecvRequired or not k.m_sseqRecvRequired) return; k.m_rxHMACLength = 4; bool got[4]; v_cover("history");
	for(g_at = 0; g_at < n; g_at++) { uintmax_t q = g_q[g_at] = nd64("number"); uint8_t src[20], dst[32]; memset(src, 0, 20); size_t io = 32, m = 0; g = Log(); bool r = got[g_at] = k.decrypt(dst, io, m, src, 20); bool bad = not (g.mac and g.macOk and g.aes and g.aesOk); if(bad) { v_assert(not r, "bad packets"); continue; }
		bool fresh = true; for(int i = 0; i < g_at; i++) if(got[i]) { fresh = fresh & (g_q[i] != q); fresh = fresh & not ((g_q[i] > 32) & (q <= g_q[i] - 32)); } v_assert(r == fresh, "no number is accepted twice, and none within the window is lost"); }
}
ENTRY b_P20_history() { history(3); }
// ---- keying: two ends with recording primitives over concrete values
struct KeyLog { std::vector<std::pair<Bytes, Bytes>> macs; int dh, pub, rnd; }; static KeyLog *kl;
static Bytes H(const Bytes &key, const Bytes &msg) { size_t i = 0; while(i < kl->macs.size() and not (kl->macs[i].first == key and kl->macs[i].second == msg)) i++; if(i == kl->macs.size()) kl->macs.push_back(std::make_pair(key, msg)); Bytes r(32, (uint8_t)(i + 1)); r[0] = 0xcc; return r; }
static Bytes B(const void *p, size_t n) { return Bytes((const uint8_t *)p, (const uint8_t *)p + n); }
struct KAes : AES_Context { Bytes key; bool enc; bool init(const void *k, size_t len, bool e) override { key = B(k, len); enc = e; return true; } bool crypt_cbc(void *dst, const void *src, size_t len, uint8_t *) override { for(size_t i = 0; i < len; i++) ((uint8_t *)dst)[i] = ((const uint8_t *)src)[i] ^ key[3]; return true; } };
struct KMac : HMACSHA256_Context { Bytes key; bool init(const void *k, size_t len) override { key = B(k, len); return true; } bool compute(void *md, const void *msg, size_t len) override { Bytes r = H(key, B(msg, len)); memcpy(md, r.data(), 32); return true; } };
struct KDh : DH_Context { int group = -1; uint8_t me = 0; bool init(int gr) override { group = gr; me = (uint8_t)++kl->dh; return true; } Bytes getPublicKey() const override { Bytes r; r.push_back(0xd0); r.push_back((uint8_t)group); r.push_back(me); return r; }
	bool computeSharedSecret(const void *o_, size_t len, Bytes &dst) const override { auto o = (const uint8_t *)o_; if(len != 3 or o[0] != 0xd0 or o[1] != group) return false; dst.clear(); dst.push_back(0x5e); dst.push_back((uint8_t)group); dst.push_back(o[2] < me ? o[2] : me); dst.push_back(o[2] < me ? me : o[2]); return true; } };
struct KC : FlashCryptoAdapter { std::vector<int> groups; KC() { groups.push_back(2); } void pseudoRandomBytes(uint8_t *dst, size_t len) override { memset(dst, ++kl->rnd, len); } void sha256(void *dst, const void *m, size_t n) const override { Bytes r = H(Bytes(), B(m, n)); memcpy(dst, r.data(), 32); } std::vector<int> getSupportedDHGroups() const override { return groups; }
	std::shared_ptr<HMACSHA256_Context> makeHMAC_Context() override { return share_ref(new KMac(), false); } std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new KAes(), false); } std::shared_ptr<DH_Context> makeDH_Context() override { return share_ref(new KDh(), false); } };
static Bytes aesKey(const std::shared_ptr<AES_Context> &k) { return ((KAes *)k.get())->key; }
static Bytes macKey(const std::shared_ptr<HMACSHA256_Context> &k) { return ((KMac *)k.get())->key; }
static FlashCryptoKey *newKey(KC &a, std::shared_ptr<SessionCryptoKey> &s) { s = a.getKeyForNewSession(); return (FlashCryptoKey *)s.get(); }
static Bytes head(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + (std::ptrdiff_t)n); }
static bool g_exact;
ENTRY b_P20_keying() {
	kl = new KeyLog(); KC &A = *new KC(), &Z = *new KC(); size_t kind = v_choose(4, "static keys"), which = v_choose(6, "options"); v_cfg("unroll", 300); v_cfg("memcmp_max", 200); if(v_choose(2, "groups")) { A.groups.insert(A.groups.begin(), 16); Z.groups.insert(Z.groups.begin(), 14); } v_assert(A.init(false, not (kind & 1), nullptr) and Z.init(true, not (kind & 2), "h"), "init"); v_assert(A.isStatic() == ((kind & 1) != 0) and Z.isStatic() == ((kind & 2) != 0) and Z.isServer() and not A.isServer(), "kinds");
	bool f[8]; for(int i = 0; i < 8; i++) f[i] = which == 0 ? false : which == 1 ? true : which == 2 ? i & 1 : which == 3 ? i < 4 : which == 4 ? i == 1 : i == 6; A.setHMACSendAlways(f[0]); A.setHMACRecvRequired(f[1]); A.setSSeqSendAlways(f[2]); A.setSSeqRecvRequired(f[3]); Z.setHMACSendAlways(f[4]); Z.setHMACRecvRequired(f[5]); Z.setSSeqSendAlways(f[6]); Z.setSSeqRecvRequired(f[7]); A.setHMACLength(7); Z.setHMACLength(100); v_assert(A.getHMACLength() == 7 and Z.getHMACLength() == 32, "tag lengths are limited"); v_cover("keying");
	auto ca = A.decodeCertificate(A.m_encodedCert.data(), A.m_encodedCert.size()), cz = A.decodeCertificate(Z.m_encodedCert.data(), Z.m_encodedCert.size()); v_assert(ca and cz, "the certificates of both ends are well formed"); std::shared_ptr<SessionCryptoKey> s1, s2, s3; auto *i = newKey(A, s1), *r = newKey(Z, s2), *j = newKey(Z, s3); Bytes sk, rk, rk2;
	v_assert(i->generateInitiatorKeyingComponent(cz, &sk) and not i->m_complete and sk.size() > 0 and i->m_groupID == 2, "the initiator starts with a group both support"); v_assert(r->generateResponderKeyingComponent(ca, sk.data(), sk.size(), &rk) and r->m_complete, "the responder answers and is done"); v_assert(j->generateResponderKeyingComponent(ca, sk.data(), sk.size(), &rk2) and rk2 != rk, "another session, other keys");
	int lo = (kind & 1) ? 1 : 0; v_assert(i->initiatorCombineResponderKeyingComponent(rk.data(), rk.size()) and i->m_complete, "and so is the initiator"); (void)lo;
	v_assert(i->m_sseqSendAlways == r->m_sseqRecvRequired and r->m_sseqSendAlways == i->m_sseqRecvRequired and i->m_hmacSendAlways == r->m_hmacRecvRequired and r->m_hmacSendAlways == i->m_hmacRecvRequired, "each end sends what the other expects"); v_assert(i->m_hmacSendAlways == (f[0] or f[5]) and i->m_hmacRecvRequired == (f[1] or f[4]) and i->m_sseqSendAlways == (f[2] or f[7]) and i->m_sseqRecvRequired == (f[3] or f[6]), "exactly what was offered or required");
	v_assert(not r->m_hmacRecvRequired or r->m_rxHMACLength == i->m_txHMACLength, "tag length"); v_assert(not i->m_hmacRecvRequired or i->m_rxHMACLength == r->m_txHMACLength, "tag length");
	Bytes tx = aesKey(i->m_txKey), rx = aesKey(i->m_rxKey); v_assert(tx == aesKey(r->m_rxKey) and rx == aesKey(r->m_txKey) and tx != rx, "each direction has one key"); v_assert(((KAes *)i->m_txKey.get())->enc and not ((KAes *)i->m_rxKey.get())->enc, "directions"); v_assert(i->getNearNonce() == r->getFarNonce() and i->getFarNonce() == r->getNearNonce() and i->getNearNonce() != i->getFarNonce(), "nonces"); v_assert(aesKey(j->m_txKey) != rx and aesKey(j->m_rxKey) != tx, "every session has its own keys");
	// the derivation of RFC 7425 section 4.6.5
	Bytes ds; size_t macs = kl->macs.size(); for(size_t x = 0; x < macs; x++) if(kl->macs[x].second == sk and kl->macs[x].first.size() == 4 and i->getNearNonce() == H(kl->macs[x].first, sk)) ds = kl->macs[x].first; v_assert(ds.size() == 4 and ds[0] == 0x5e and ds[1] == 2, "keys come from the shared secret"); Bytes e = H(ds, H(rk, sk)), d = H(ds, H(sk, rk)); v_assert(tx == head(e, 16) and rx == head(d, 16) and i->getFarNonce() == H(ds, rk), "encryption keys and nonces as specified"); if(i->m_hmacSendAlways) v_assert(macKey(i->m_txHMAC) == H(ds, e) and macKey(r->m_rxHMAC) == H(ds, e), "tag keys"); if(i->m_hmacRecvRequired) v_assert(macKey(i->m_rxHMAC) == H(ds, d) and macKey(r->m_txHMAC) == H(ds, d), "tag keys"); v_assert(kl->macs.size() == macs, "nothing else");
	v_assert(i->m_dh_secret.empty() and r->m_dh_secret.empty() and not i->m_dh_context, "the shared secret is forgotten");
	v_assert(not i->initiatorCombineResponderKeyingComponent(rk2.data(), rk2.size()) or (aesKey(i->m_txKey) == tx and aesKey(i->m_rxKey) == rx), "established keys are not replaced"); v_assert(aesKey(i->m_txKey) == tx and aesKey(i->m_rxKey) == rx and i->getNearNonce() == r->getFarNonce(), "established keys are not replaced");
	// a packet each way
	uint8_t buf[48], out[96], back[96]; for(int way = 0; way < 2; way++) for(int pass = 0; pass < 2; pass++) { auto *a = way ? r : i, *b = way ? i : r; size_t m = a->getEncryptSrcFrontMargin(), n = m + 20, io = 96, io2 = 96, m2 = 0; for(size_t x = 0; x < 20; x++) buf[m + x] = (uint8_t)(x * 7 + pass); v_assert(a->encrypt(out, io, buf, n, m), "encrypted"); size_t at = v_choose(4, "tamper"); bool mac = a->m_hmacSendAlways; if(at == 1) out[0] ^= 1; if(at == 2) out[io - 1] ^= 0x80; if(at == 3) io -= 1; if(at == 1 and not mac and a->m_sseqSendAlways) continue;
		bool ok = b->decrypt(back, io2, m2, out, io); v_assert(ok == (at == 0), "accepted exactly when untouched"); if(ok) { v_assert(m2 == m and io2 >= n, "margins"); for(size_t x = 0; x < 20; x++) v_assert(back[m + x] == (uint8_t)(x * 7 + pass), "the same packet"); if(a->m_sseqSendAlways) v_assert(not b->decrypt(back, io2, m2, out, io), "only once"); } else break; }
}
// what a keying component must offer
static Bytes comp(size_t sseq, uint8_t sf, size_t hm, uint8_t hf, uintmax_t hl, size_t dh) { Bytes c; if(dh == 4) Option::append(0x33, c); if(sseq) Option::append(KEYING_OPTION_SSEQ_NEGOTIATION, &sf, sseq == 2 ? 0 : 1, c); if(hm) { Bytes v; if(hm != 3) { v.push_back(hf); if(hm != 2) VLU::append(hl, v); } Option::append(KEYING_OPTION_HMAC_NEGOTIATION, v, c); } if(dh == 5) Option::append(c); if(dh) { Bytes v; VLU::append(dh == 2 ? 14 : 2, v); v.push_back(0xd0); v.push_back(dh == 3 ? 14 : 2); v.push_back(99); Option::append(KEYING_OPTION_DH_PUBLIC_KEY, v, c); } return c; }
ENTRY b_P20_refuse() {
	kl = new KeyLog(); KC &A = *new KC(); bool initiator = v_choose(2, "initiator"); A.init(false, true, nullptr); KC &Z = *new KC(); Z.init(true, true, nullptr); v_cfg("unroll", 300); v_cfg("memcmp_max", 200); bool hreq = v_choose(2, "tags required"), sreq = v_choose(2, "numbers required"); A.setHMACRecvRequired(hreq); A.setSSeqRecvRequired(sreq); std::shared_ptr<SessionCryptoKey> s; auto *k = newKey(A, s); auto cz = A.decodeCertificate(Z.m_encodedCert.data(), Z.m_encodedCert.size()); Bytes sk, out;
	if(initiator) v_assert(k->generateInitiatorKeyingComponent(cz, &sk), "start"); size_t vary = v_choose(3, "vary"), sm = vary == 0 ? v_choose(3, "sseq option") : 1, hm = vary == 1 ? v_choose(4, "hmac option") : 1, dh = vary == 2 ? v_choose(6, "dh option") : 1; uint8_t sf = (uint8_t)v_choose(8, "sseq flags"), hf = (uint8_t)v_choose(8, "hmac flags"); static const uintmax_t HL[6] = { 0, 3, 4, 32, 33, ~0ull }; uintmax_t hl = HL[vary == 1 ? v_choose(6, "hmac length") : 3]; Bytes c = comp(sm, sf, hm, hf, hl, dh); if(sm != 1) sf = 0; if(hm == 0 or hm == 3) hf = 0; if(hm != 1) hl = 0; v_cover("refuse");
	bool r = initiator ? k->initiatorCombineResponderKeyingComponent(c.data(), c.size()) : k->generateResponderKeyingComponent(cz, c.data(), c.size(), &out); bool ok = (not sreq or (sf & 6)) and (not hreq or (hf & 6)), need = hreq or (hf & 4); if(need and (hl < 4 or hl > 32)) ok = false; if(dh != 1 and dh != 4) ok = false;
	v_assert(r == ok and k->m_complete == ok, "established exactly when what is required is offered, with a legal tag length and a key in a known group"); if(ok) { v_assert(k->m_hmacRecvRequired == need and k->m_sseqRecvRequired == (sreq or (sf & 4)) and k->m_hmacSendAlways == ((hf & 1) != 0) and k->m_sseqSendAlways == ((sf & 1) != 0), "what the far end will send is required"); if(need) v_assert(k->m_rxHMACLength == hl, "tag length"); }
}
// ---- P20: the plain adapter keeps the same packet contract
ENTRY h_P20_plainDecrypt() {
	auto &k = *new PlainCryptoKey(); k.m_complete = v_choose(2, "complete"); k.m_rxSalt = nd16("salt"); size_t n = nd16("length"), cap = nd16("room"); uint8_t *src = (uint8_t *)v_bytes(n, "packet"), *dst = (uint8_t *)v_bytes(cap, "buffer"); g_sum = nd16("checksum"); size_t io = cap, m = 777; v_cover("plain"); bool r = k.decrypt(dst, io, m, src, n);
	bool ok = n >= 2 and cap >= n + 14 and g_sum == (uint16_t)((src[n - 2] << 8 | src[n - 1]) - (k.m_complete ? k.m_rxSalt : 0)); v_assert(r == ok, "accepted exactly when it fits and its salted checksum is right"); if(r) { v_assert(m == 16 and io == n + 14 and g_sumAt == src and g_sumLen == n - 2, "length"); size_t j = nd16("j"); if(j < n - 2) v_assert(dst[16 + j] == src[j], "the packet"); }
}
// ---- P21
static Bytes opt(uintmax_t t, const Bytes &v) { Bytes r; Option::append(t, v, r); return r; }
static void put(Bytes &d, const Bytes &s) { d.insert(d.end(), s.begin(), s.end()); }
struct CC : KC { mutable Bytes hashed; mutable int hashes = 0; void sha256(void *dst, const void *m, size_t n) const override { hashed = B(m, n); hashes++; memset(dst, 0x42, 32); ((uint8_t *)dst)[31] = 0x24; } };
static Bytes str(const char *s) { return B(s, strlen(s)); }
static const char *HN[3] = { "ab", "ac", "a" };
ENTRY b_P21_certificate() {
	kl = new KeyLog(); CC &A = *new CC(); size_t n = v_choose(4, "options"); Bytes c; size_t canon = 0; bool marker = false, host = false, anc = false, eph = false, stat = false, bad = false; size_t what[3]; int hostAt = -1; v_cfg("memcmp_max", 200);
	for(size_t i = 0; i < n; i++) { size_t w = what[i] = v_choose(9, "option"); switch(w) { case 0: put(c, opt(0, str(HN[i]))); if(not marker) { host = true; if(hostAt < 0) hostAt = (int)i; } break; case 1: put(c, opt(0x0a, Bytes())); if(not marker) anc = true; break; case 2: put(c, opt(0x15, Bytes(1, (uint8_t)(2 + i)))); if(not marker) eph = true; break; case 3: { Bytes v(1, (uint8_t)(14 + i)); v.push_back(0xaa); v.push_back(nd8("key")); put(c, opt(0x1d, v)); if(not marker) stat = true; break; } case 4: put(c, opt(0x0e, Bytes(2, nd8("x")))); break; case 5: put(c, opt(0x4d2, Bytes(1, 1))); break; case 6: c.push_back(0); if(not marker) canon = c.size(); marker = true; break; case 7: put(c, opt(0x15, Bytes())); if(not marker) eph = true; break; default: c.push_back((uint8_t)(5 + v_choose(2, "cut") * 0x7b)); c.push_back(0x0a); bad = true; } if(not marker) canon = c.size(); if(bad) break; }
	uint8_t *raw = (uint8_t *)malloc(c.size()); memcpy(raw, c.data(), c.size()); v_cover("certificate"); auto cert = A.decodeFlashCertificate(raw, c.size()); for(size_t i = 0; i < c.size(); i++) raw[i] ^= 0xff; free(raw);
	v_assert((cert != nullptr) == (not bad and stat != eph), "a well-formed certificate has static or ephemeral keys, never both or neither"); if(not cert) return; v_cover("accepted"); v_assert(A.hashes == 1 and A.hashed == head(c, canon), "it is identified by its canonical part"); Bytes fp(32, 0x42); fp[31] = 0x24; v_assert(cert->getFingerprint() == fp and cert->getCanonicalEPD() == opt(0x0f, fp), "fingerprint"); v_assert(cert->encode() == c, "kept as it was"); v_assert(cert->isStatic() == stat and cert->doesAcceptAncillaryData() == anc, "properties");
	bool g[18] = {}; int first = -1; for(size_t i = 0; i < n and what[i] != 6; i++) { if(what[i] == 7 and not stat) break; if(not stat and what[i] == 2) g[2 + i] = true; if(stat and what[i] == 3) g[14 + i] = true; } for(int i = 17; i >= 0; i--) { v_assert(cert->supportsDHGroup(i) == g[i], "groups in the canonical part"); const uint8_t *pk = nullptr; size_t pl = 0; v_assert(cert->getPublicKey(i, &pk, &pl) == (stat and g[i]), "static public key of that group"); if(stat and g[i]) v_assert(pl == 2 and pk >= cert->m_raw.data() and pk + pl <= cert->m_raw.data() + cert->m_raw.size() and pk[0] == 0xaa, "static public key"); if(g[i] and i != 16 and first < 0) first = i; } v_assert(not cert->supportsDHGroup(-1), "groups");
	A.groups.clear(); for(int i = 17; i > 0; i--) if(i != 16) A.groups.push_back(i); v_assert(A.getBestDHGroup(cert.get()) == first, "the first group both support"); v_assert(A.supportsDHGroup(15) and not A.supportsDHGroup(16), "groups");
	// selection of this certificate
	size_t sel = v_choose(7, "selector"); Bytes e; bool want = false; switch(sel) { case 0: put(e, opt(0, str(HN[hostAt < 0 ? 0 : hostAt]))); want = host; break; case 1: put(e, opt(0, str("ad"))); break; case 2: put(e, opt(0x0a, str("rtmfp:"))); want = anc; break; case 3: put(e, opt(0x0a, Bytes())); put(e, opt(0, str(HN[hostAt < 0 ? 0 : hostAt]))); want = host and anc; break; case 4: put(e, opt(0x0f, fp)); put(e, opt(0, str("no"))); want = true; break; case 5: fp[nd8("at") & 31] ^= 1; put(e, opt(0x0f, fp)); break; default: put(e, opt(0x0f, head(fp, 31))); put(e, opt(0, str(HN[hostAt < 0 ? 0 : hostAt]))); }
	v_assert(cert->isSelectedByEPD(e.data(), e.size()) == want, "selected exactly when every required part matches, a fingerprint deciding alone"); v_assert(not cert->isSelectedByEPD(e.data(), e.size() - 1), "a truncated selector selects nothing");
}
// the selector itself, and selection of the near end
static int g_ancs; static bool g_ancYes;
ENTRY b_P21_selector() {
	kl = new KeyLog(); CC &A = *new CC(); bool server = v_choose(2, "server"); size_t name = v_choose(3, "name"); v_assert(A.init(server, true, name == 0 ? nullptr : name == 1 ? "ab" : ""), "init"); Bytes fp = A.getFingerprint(), me = name == 1 ? str("ab") : Bytes(); v_cfg("memcmp_max", 200); size_t fn = v_choose(3, "callback"); if(fn) A.isSelectedByAncillaryData = [](const uint8_t *p, size_t n) { g_ancs++; v_assert(n == 3 and p[0] == 'u', "the ancillary data"); return g_ancYes; }; g_ancYes = fn == 2;
	size_t n = v_choose(4, "options"); Bytes e; bool bad = false; int h = -1, an = -1, f = -1; for(size_t i = 0; i < n and not bad; i++) { size_t w = v_choose(9, "option"); switch(w) { case 0: put(e, opt(0, me)); h = 1; break; case 1: put(e, opt(0, str("abc"))); h = 0; break; case 2: put(e, opt(0x0a, str("url"))); an = 1; break; case 3: put(e, opt(0x0f, fp)); f = 1; break; case 4: put(e, opt(0x0f, head(fp, v_choose(2, "shortened") * 31))); f = 0; break; case 5: put(e, opt(0x77, str("?"))); break; case 6: e.push_back(0); break; case 7: { Bytes x = fp; x[7] ^= 0x10; put(e, opt(0x0f, x)); f = 0; break; } default: e.push_back(3); e.push_back(0); e.push_back('a'); bad = true; } }
	uint8_t *raw = (uint8_t *)malloc(e.size()); memcpy(raw, e.data(), e.size()); v_cover("selector"); FlashCryptoAdapter::EPDParseState s; bool p = s.parse(raw, e.size()); v_assert(p == (not bad and (h >= 0 or an >= 0 or f >= 0)), "a selector requires at least one thing"); if(p) { v_assert((s.requiredHostname != nullptr) == (h >= 0) and (s.ancillaryData != nullptr) == (an >= 0) and (s.fingerprint != nullptr) == (f >= 0), "parts"); if(an >= 0) v_assert(s.ancillaryDataLen == 3 and s.ancillaryData >= raw and s.ancillaryData + 3 <= raw + e.size(), "inside the selector"); }
	bool want = p; if(p) { if(f >= 0) want = f; else { if(h == 0 or (h == 1 and name == 0)) want = false; if(want and an >= 0) want = server and fn != 1; } } v_assert(A.isSelectedByEPD(raw, e.size()) == want, "the near end is selected exactly when every required part matches"); if(g_ancs) v_assert(server and an >= 0 and f < 0, "the application is only asked when everything else matches"); free(raw);
}
// any selector or certificate bytes of any length: nothing outside is read (Option::parse by its contract, proved for P01)
static const uint8_t *g_lo, *g_hi;
static int g_opts = 1 << 30; // how many options there may be
STUB_FOR("._P21_(search|selectorSafety)", "com::zenomt::rtmfp::Option::parse")
static size_t optionContract(const uint8_t *src, const uint8_t *limit, uintmax_t *type, const uint8_t **val, size_t *len) {
	v_assert(src >= g_lo and src < limit and limit == g_hi, "the next option, inside the input"); size_t n = nd16("option"); v_assume(n <= (size_t)(limit - src)); if(g_opts-- <= 1) v_assume(n == 0 or n == (size_t)(limit - src)); if(not n) return 0; bool mark = ndb("marker"); size_t h = nd16("head"); v_assume(h >= 1 and h <= n); if(type) *type = mark ? 0 : nd64("type"); if(val) *val = mark ? nullptr : src + h; if(len) *len = mark ? 0 : n - h; return n;
}
ENTRY b_P21_selectorSafety() { g_opts = 3; size_t n = nd16("n"); uint8_t *e = (uint8_t *)v_bytes(n, "selector"); g_lo = e; g_hi = e + n; v_cover("selector"); FlashCryptoAdapter::EPDParseState s; bool r = s.parse(e, n); if(r) v_cover("parsed"); if(s.fingerprint) v_assert(s.fingerprint >= e and s.fingerprint + s.fingerprintLen <= e + n, "inside"); if(s.ancillaryData) v_assert(s.ancillaryData >= e and s.ancillaryData + s.ancillaryDataLen <= e + n, "inside"); if(s.requiredHostname) v_assert(s.requiredHostname >= e and s.requiredHostname + s.requiredHostnameLen <= e + n, "inside"); v_assert(not r or s.fingerprint or s.ancillaryData or s.requiredHostname, "requires something"); }
ENTRY h_P21_search() { size_t n = nd16("n"); uint8_t *e = (uint8_t *)v_bytes(n, "options"); g_lo = e; g_hi = e + n; uintmax_t t = nd64("wanted"); const uint8_t *v = nullptr; size_t l = 0; v_cfg("inv", 1); v_cover("search"); size_t r = optionSearch(e, e + n, t, &v, &l); v_assert(r <= n, "inside"); if(r) { v_cover("found"); v_assert(v >= e and v + l <= e + n, "the value lies inside the list"); } }
// who wins when both open at once: the two ends never both win nor both lose
ENTRY b_P21_glare() {
	kl = new KeyLog(); CC &A = *new CC(), &Z = *new CC(); size_t na = v_choose(4, "na"), nz = v_choose(4, "nz"); for(size_t i = 0; i < na; i++) A.m_encodedCert.push_back(nd8("a")); for(size_t i = 0; i < nz; i++) Z.m_encodedCert.push_back(nd8("z")); auto ca = share_ref(new FlashCryptoCert(), false), cz = share_ref(new FlashCryptoCert(), false); ca->m_raw = A.m_encodedCert; cz->m_raw = Z.m_encodedCert; v_cfg("memcmp_max", 20); v_cover("glare"); bool same = A.m_encodedCert == Z.m_encodedCert;
	bool x = A.checkNearWinsGlare(cz), y = Z.checkNearWinsGlare(ca); v_assert(same ? x and y : x != y, "exactly one end wins"); bool less = A.m_encodedCert < Z.m_encodedCert; v_assert(x == not (not less and not same), "the lexically smaller certificate wins"); v_assert(ca->doesCertOverrideSession(cz) == same and cz->doesCertOverrideSession(ca) == same, "only the same certificate overrides a session");
}
ENTRY b_P21_makeEPD() {
	Bytes d; size_t k = v_choose(8, "parts"), bad = k & 1 ? v_choose(2, "hex") : 0; v_cover("makeEPD"); bool r = FlashCryptoAdapter::makeEPD(k & 1 ? (bad ? "0g" : "0aF0") : nullptr, k & 2 ? "x" : nullptr, k & 4 ? "hh" : nullptr, d); v_assert(r == (k != 0 and not bad), "needs a part and valid hex"); if(not r) return; Bytes w; if(k & 1) { Bytes f(1, 0x0a); f.push_back(0xf0); put(w, opt(0x0f, f)); } if(k & 2) put(w, opt(0x0a, str("x"))); if(k & 4) put(w, opt(0, str("hh"))); v_assert(d == w, "the parts given"); FlashCryptoAdapter::EPDParseState s; v_assert(s.parse(d.data(), d.size()) and (s.fingerprint != nullptr) == ((k & 1) != 0) and (s.ancillaryData != nullptr) == ((k & 2) != 0) and (s.requiredHostname != nullptr) == ((k & 4) != 0), "and it parses back");
}
