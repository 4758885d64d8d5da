#include "common.h"
#include <openssl/evp.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/crypto.h>
#include <cybozu/sha2.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/crypto.hpp>
SIM_PROPERTY("C33", "cybozu/crypto.hpp (Hash, Hmac, Cipher), cybozu/sha2.hpp (OpenSSL and own implementation), cybozu/sha1.hpp, OpenSSL libcrypto", "memory allocation of OpenSSL and operator new (may fail at any call), update and final calls of EVP digests and ciphers (may fail)")
using namespace sim;
typedef std::string Str; typedef cybozu::crypto::Hash Hash;
// ---------------------------------------------------------------- memory of OpenSSL
static bool g_on;
static void *oAlloc(size_t n, const char *, int) { if (g_on && fault("openssl.ENOMEM")) return 0; return malloc(n); }
static void *oRealloc(void *p, size_t n, const char *, int) { if (g_on && fault("openssl.ENOMEM")) return 0; return realloc(p, n); }
static void oFree(void *p, const char *, int) { free(p); }
static std::set<void *> *g_ctx;
static void add(void *p) { if (g_ctx && p) { NoFault n; Quiet q; g_ctx->insert(p); } }
static void del(void *p) { if (g_ctx && p) { NoFault n; Quiet q; if (!g_ctx->erase(p)) fail("double-free", "a context is freed twice"); } }
extern "C" {
EVP_MD_CTX *__real_EVP_MD_CTX_new(); void __real_EVP_MD_CTX_free(EVP_MD_CTX *); EVP_CIPHER_CTX *__real_EVP_CIPHER_CTX_new(); void __real_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *);
EVP_MD_CTX *__wrap_EVP_MD_CTX_new() { EVP_MD_CTX *c = __real_EVP_MD_CTX_new(); add(c); return c; }
void __wrap_EVP_MD_CTX_free(EVP_MD_CTX *c) { del(c); __real_EVP_MD_CTX_free(c); }
EVP_CIPHER_CTX *__wrap_EVP_CIPHER_CTX_new() { EVP_CIPHER_CTX *c = __real_EVP_CIPHER_CTX_new(); add(c); return c; }
#define FAILING(name, params, args) int __real_##name params; int __wrap_##name params { if (g_on && fault("openssl.call")) return 0; return __real_##name args; }
FAILING(EVP_DigestUpdate, (EVP_MD_CTX *c, const void *p, size_t n), (c, p, n))
FAILING(EVP_DigestFinal_ex, (EVP_MD_CTX *c, unsigned char *p, unsigned *n), (c, p, n))
FAILING(EVP_CipherUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *n, const unsigned char *p, int z), (c, o, n, p, z))
FAILING(EVP_CipherFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *n), (c, o, n))
void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { del(c); __real_EVP_CIPHER_CTX_free(c); }
}
static __attribute__((constructor(101))) void hookMem() { if (CRYPTO_set_mem_functions(oAlloc, oRealloc, oFree) != 1) { fprintf(stderr, "CRYPTO_set_mem_functions\n"); abort(); } }
static const int HN = 5;
static Hash::Name hname(int i) { static const Hash::Name t[] = { Hash::N_SHA1, Hash::N_SHA224, Hash::N_SHA256, Hash::N_SHA384, Hash::N_SHA512 }; return t[i]; }
static const EVP_MD *md(int i) { return i == 0 ? EVP_sha1() : i == 1 ? EVP_sha224() : i == 2 ? EVP_sha256() : i == 3 ? EVP_sha384() : EVP_sha512(); }
static const EVP_CIPHER *cph(int i) { return i == 0 ? EVP_aes_128_cbc() : i == 1 ? EVP_aes_192_cbc() : i == 2 ? EVP_aes_256_cbc() : i == 3 ? EVP_aes_128_ecb() : i == 4 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(); }
struct Ref { NoFault n; Quiet q; };
static Str ref(int i, const Str& m) { Ref r; unsigned char b[64]; unsigned n = 0; if (EVP_Digest(m.data(), m.size(), b, &n, md(i), 0) != 1) fail("harness:ref", "EVP_Digest"); return Str((char *)b, n); }
static Str refMac(int i, const Str& k, const Str& m) { Ref r; unsigned char b[64]; unsigned n = 0; if (!HMAC(md(i), k.data(), (int)k.size(), (const unsigned char *)m.data(), m.size(), b, &n)) fail("harness:ref", "HMAC"); return Str((char *)b, n); }
static Str refEnc(int c, bool enc, const Str& k, const Str& iv, const Str& m)
{
	Ref r; EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(x, cph(c), 0, (const unsigned char *)k.data(), (const unsigned char *)iv.data(), enc); EVP_CIPHER_CTX_set_padding(x, 0);
	Str o(m.size() + 32, 0); int n = 0; EVP_CipherUpdate(x, (unsigned char *)&o[0], &n, (const unsigned char *)m.data(), (int)m.size()); EVP_CIPHER_CTX_free(x); o.resize((size_t)n); return o;
}
static struct Warm { Warm() { for (int t = 0; t < 2; t++) { for (int i = 0; i < HN; i++) { ref(i, "x"); refMac(i, "k", "x"); Hash h(hname(i)); h.digest("x"); cybozu::crypto::Hmac(hname(i)).eval("k", "m"); } for (int i = 0; i < 6; i++) refEnc(i, true, Str(32, 'k'), Str(16, 'i'), Str(16, 'm')); cybozu::Sha256().digest("x", 1); cybozu::Sha512().digest("x", 1); } ERR_clear_error(); } } g_warm;
struct Run {
	Run() { g_ctx = new std::set<void *>; g_on = true; allow("openssl.ENOMEM", h::pickOf({ 0.0, 0.03, 0.3 })); allow("openssl.call", h::pickOf({ 0.0, 0.1 })); }
	void end() { g_on = false; disallowAll(); ERR_clear_error(); SIM_CHECK(g_ctx->empty(), "leak", "%zu contexts are never freed", g_ctx->size()); }
};
static uint64_t oom() { return fired("openssl.ENOMEM") + fired("openssl.call") + fired("alloc"); }
static Str piece() { NoFault n; return bytes(smallSize(h::pickOf({ 3, 70, 300 }))); }
template<class F> static bool thrown(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
// histories of crypto::Hash objects
SCENARIO(hash, 4)
{
	preemptOff(); Run run; allow("alloc", 0.1); struct S { std::unique_ptr<Hash> h; int a = 0; Str m; bool lost = false; }; S s[3]; int n = range(1, 20);
	for (int op = 0; op < n; op++) {
		int i = choose(3), j = choose(3), k = (int)choose(8); S& x = s[i]; uint64_t f0 = oom(); ev("op", k, i, j);
		if (!x.h) k = 0;
		bool t = false, checked = true; Str out; Str p = piece();
		switch (k) {
		case 0: { int a = (int)choose(HN); Hash *q = 0; t = thrown([&] { q = new Hash(hname(a)); }); if (!t) { NoFault f; x.h.reset(q); x.a = a; x.m.clear(); x.lost = false; } break; }
		case 1: case 2: if (x.lost) break; t = thrown([&] { if (chance(0.5)) x.h->update(p); else x.h->update(p.data(), p.size()); }); if (t) x.lost = true; else { NoFault f; x.m += p; } break;
		case 3: { NoFault f; out.assign(100, 'Z'); } t = thrown([&] { if (x.lost) x.h->reset(); x.h->digest(&out[0], p.data(), p.size()); });
			if (!t) { NoFault f; if (x.lost) x.m.clear(); Str w = ref(x.a, x.m + p); SIM_CHECK(out.compare(0, w.size(), w) == 0, "digest", "wrong digest of %zu bytes", x.m.size() + p.size()); SIM_CHECK(out.substr(w.size()) == Str(100 - w.size(), 'Z'), "overrun", "more bytes written than the digest has"); x.m.clear(); x.lost = false; } else x.lost = true; break;
		case 4: t = thrown([&] { if (x.lost) x.h->reset(); out = x.h->digest(p); }); if (!t) { NoFault f; if (x.lost) x.m.clear(); SIM_CHECK(out == ref(x.a, x.m + p), "digest", "wrong digest of %zu bytes", x.m.size() + p.size()); x.m.clear(); x.lost = false; } else x.lost = true; break;
		case 5: t = thrown([&] { x.h->reset(); }); if (!t) { x.m.clear(); x.lost = false; } else x.lost = true; break;
		case 6: if (s[j].h && !s[j].lost && !x.lost) { if (chance(0.5)) { Hash *q = 0; t = thrown([&] { q = new Hash(*s[j].h); }); if (!t && i != j) { NoFault f; x.h.reset(q); x.a = s[j].a; x.m = s[j].m; } else if (!t) delete q; } else { t = thrown([&] { *x.h = *s[j].h; }); if (t) { NoFault f; x.h.reset(); x.lost = false; SIM_CHECK(oom() > f0, "spurious", "the assignment failed without a reason"); } else { NoFault f; x.a = s[j].a; Str m = s[j].m; x.m = m; } } } break;
		default: { int a = (int)choose(HN); t = thrown([&] { out = Hash::digest(hname(a), p); }); if (!t) SIM_CHECK(out == ref(a, p), "digest", "wrong digest of %zu bytes", p.size()); } }
		(void)checked; SIM_CHECK(!t || oom() > f0 || k == 1 || k == 2 || x.lost, "spurious", "operation %d failed without a reason", k); if (t && (k == 1 || k == 2)) SIM_CHECK(oom() > 0, "spurious", "update failed without a reason");
	}
	for (int i = 0; i < 3; i++) s[i].h.reset(); run.end();
}
// Sha256/Sha512: failure is an empty digest
template<class H> static void sha2(int alg, size_t size)
{
	preemptOff(); Run run; struct S { std::unique_ptr<H> h; Str m; bool lost = false, done = false; }; S s[3]; int n = range(1, 20);
	for (int op = 0; op < n; op++) {
		int i = choose(3), j = choose(3), k = (int)choose(6); S& x = s[i]; if (!x.h) k = 0; if (x.done && (k == 1 || k == 2 || k == 5)) k = 3; ev("op", k, i, j); Str p = piece(); uint64_t f0 = oom();
		auto digest = [&] {
			Str out; size_t r; Str w = ref(alg, x.m + p);
			if (chance(0.5)) { out = x.h->digest(p.data(), p.size()); r = out.size(); } else { out.assign(size + 4, 'Z'); r = x.h->digest(&out[0], size, p.data(), p.size()); SIM_CHECK(out.substr(size) == "ZZZZ", "overrun", "more bytes written than the digest has"); out.resize(r); }
			SIM_CHECK(r == 0 || (r == size && out == w), "digest", "wrong digest of %zu bytes", x.m.size() + p.size()); SIM_CHECK(r || oom() > f0 || x.lost, "spurious", "the digest failed without a reason"); x.done = true; };
		switch (k) {
		case 0: x.h.reset(new H()); x.m.clear(); x.done = false; x.lost = oom() > f0; break;
		case 1: if (chance(0.5)) x.h->update(p); else x.h->update(p.data(), p.size()); x.m += p; if (oom() > f0) x.lost = true; break;
		case 2: digest(); break;
		case 3: x.h->clear(); x.m.clear(); x.done = false; x.lost = oom() > f0 || x.lost; if (oom() == f0 && x.lost) { x.h.reset(new H()); x.lost = oom() > f0; } break;
		case 4: { char b[64]; Str e(b, 0); if (!x.done) { size_t r = x.h->digest(b, choose((uint32_t)size), p.data(), 0); SIM_CHECK(r == 0, "small-buffer", "a digest was written to a buffer that is too small"); x.done = false; } break; }
		default: if (s[j].h && !s[j].done && i != j) { bool src = s[j].lost; if (chance(0.5)) x.h.reset(new H(*s[j].h)); else *x.h = *s[j].h; x.m = s[j].m; x.done = false; x.lost = src || x.lost || oom() > f0; } }
	}
	for (int i = 0; i < 3; i++) s[i].h.reset(); run.end();
}
SCENARIO(sha256, 2) { sha2<cybozu::Sha256>(2, 32); }
SCENARIO(sha512, 2) { sha2<cybozu::Sha512>(4, 64); }
SCENARIO(sha1, 1)
{
	preemptOff(); struct S { cybozu::Sha1 h; Str m; } s[2]; int n = range(1, 12);
	for (int op = 0; op < n; op++) { int i = choose(2), k = (int)choose(4); ev("op", k, i); Str p = piece(); if (k < 2) { s[i].h.update(p.data(), p.size()); s[i].m += p; } else if (k == 2) s[i] = s[1 - i]; else { cybozu::Sha1 c = s[i].h; Str d = c.digest(p.data(), p.size()); SIM_CHECK(d == ref(0, s[i].m + p), "digest", "wrong SHA-1"); } }
}
SCENARIO(mac, 2)
{
	preemptOff(); Run run; allow("alloc", 0.1); int n = range(1, 6);
	for (int op = 0; op < n; op++) {
		int a = (int)choose(HN); Str k = piece(), m = piece(), out; uint64_t f0 = oom(); ev("mac", a, (int64_t)k.size(), (int64_t)m.size()); bool t = thrown([&] { out = cybozu::crypto::Hmac(hname(a)).eval(k, m); });
		SIM_CHECK(!t || oom() > f0, "spurious", "HMAC failed without a reason"); if (!t) SIM_CHECK(out == refMac(a, k, m), "mac", "wrong HMAC");
		if (oom() == 0 && chance(0.5)) { g_on = false; NoFault q; char b[36]; memset(b, 'Z', 36); cybozu::hmac256(b, k.data(), k.size(), m.data(), m.size()); SIM_CHECK(Str(b, 32) == refMac(2, k, m) && Str(b + 32, 4) == "ZZZZ", "mac", "wrong hmac256"); g_on = true; }
	}
	run.end();
}
// what goes into a cipher, what must come out, and whether its end must be accepted
static Str message(int a, bool enc, bool pad, const Str& key, const Str& iv, Str *want, bool *final)
{
	Str m; bool odd = chance(0.2); size_t z = 16 * choose(12) + (odd || (enc && pad) ? choose(16) : 0);
	if (!pad) { m = bytes(z); *final = z % 16 == 0; *want = refEnc(a, enc, key, iv, m.substr(0, z / 16 * 16)); return m; }
	if (enc) { m = bytes(z); Str p = m; char c = char(16 - z % 16); p.append((size_t)c, c); *want = refEnc(a, true, key, iv, p); return m; }
	Str plain = bytes(smallSize(90)); char c = char(16 - plain.size() % 16); Str p = plain; p.append((size_t)c, c); m = refEnc(a, true, key, iv, p);
	switch (choose(5)) { // damaged or cut on the way
	case 0: m[choose((uint32_t)m.size())] ^= char(1 + choose(255)); break; case 1: m.resize(choose((uint32_t)m.size())); break; case 2: m.resize(m.size() / 16 * 16 - 16 * choose((uint32_t)(m.size() / 16 + 1))); break; default: break; }
	Str d = refEnc(a, false, key, iv, m.substr(0, m.size() / 16 * 16)); *final = !m.empty() && m.size() % 16 == 0;
	if (*final) { size_t k = (unsigned char)d[d.size() - 1]; *final = k >= 1 && k <= 16 && d.compare(d.size() - k, k, Str(k, char(k))) == 0; if (*final) d.resize(d.size() - k); }
	*want = d; return m;
}
// ciphers: any split into pieces, encoding and decoding, reuse after an error
SCENARIO(cipher, 3)
{
	preemptOff(); Run run; allow("alloc", 0.1); typedef cybozu::crypto::Cipher C; static const C::Name nm[] = { C::N_AES128_CBC, C::N_AES192_CBC, C::N_AES256_CBC, C::N_AES128_ECB, C::N_AES192_ECB, C::N_AES256_ECB };
	int a = (int)choose(6); C *c = 0; uint64_t f0 = oom(); bool t = thrown([&] { c = new C(nm[a]); }); SIM_CHECK(!t || oom() > f0, "spurious", "the cipher could not be created without a reason");
	if (!t) {
		size_t kl = C::getSize(nm[a]) / 8; Str key, iv; { NoFault q; key = bytes(kl); iv = bytes(16); }
		if (chance(0.1)) { NoFault q; Str bad(kl + 1, 'x'); SIM_CHECK(thrown([&] { c->setup(C::Encoding, bad, iv); }), "key", "a key of the wrong size was accepted"); }
		for (int r = 0, n = range(1, 3); r < n; r++) {
			bool enc = chance(0.5), pad = chance(0.4); f0 = oom(); t = thrown([&] { if (pad) c->setup(enc ? C::Encoding : C::Decoding, key, iv, true); else c->setup(enc ? C::Encoding : C::Decoding, key, iv); }); SIM_CHECK(!t || oom() > f0, "spurious", "setup failed without a reason"); if (t) continue;
			Str m, out, want; bool final = true; { NoFault q; m = message(a, enc, pad, key, iv, &want, &final); } size_t pos = 0; bool bad = false;
			while (pos < m.size()) { size_t z = std::min(m.size() - pos, 1 + (size_t)smallSize(60)); char b[200]; memset(b, 'Z', sizeof(b)); f0 = oom(); int w = c->update(b, m.data() + pos, (int)z); if (w < 0) { SIM_CHECK(oom() > f0, "spurious", "update failed without a reason"); bad = true; break; } SIM_CHECK(w <= (int)z + 16, "overrun", "%d bytes", w); NoFault q; out.append(b, (size_t)w); pos += z; ev("piece", (int64_t)z, w); }
			if (!bad) {
				char b[64]; memset(b, 'Z', sizeof(b)); f0 = oom(); int w = c->finalize(b); NoFault q; ev("final", w); SIM_CHECK(w >= -1 && w <= 16 && Str(b + 16, 48) == Str(48, 'Z'), "overrun", "finalize returned %d", w);
				SIM_CHECK(final || w < 0, "final", "finalize returned %d for %s that is damaged or incomplete", w, enc ? "a message" : "an encoded message"); SIM_CHECK(!final || w >= 0 || oom() > f0, "final", "finalize failed without a reason");
				if (w >= 0) { out.append(b, (size_t)w); SIM_CHECK(out == want, "cipher", "wrong %s of %zu bytes", enc ? "encoding" : "decoding", m.size()); } else if (!final) SIM_CHECK(want.compare(0, out.size(), out) == 0, "cipher", "wrong %s of %zu bytes before the error", enc ? "encoding" : "decoding", m.size());
			}
		}
	}
	delete c; run.end();
}
// threads that use objects of their own
SCENARIO(threads, 2)
{
	int n = range(2, 3); struct Job { int kind, a; Str k, m; }; auto *js = new std::vector<std::vector<Job>>((size_t)n);
	for (auto& v : *js) for (int i = range(1, 3); i > 0; i--) { Job j; j.kind = (int)choose(7); j.a = (int)choose(HN); j.k = piece(); j.m = piece(); v.push_back(j); }
	for (int t = 0; t < n; t++) spawn("user", [=] {
		for (auto& j : (*js)[(size_t)t]) {
			Str out, want; { Quiet q; want = j.kind == 2 ? refMac(j.a, j.k, j.m) : j.kind == 3 ? refMac(2, j.k, j.m) : j.kind == 4 ? ref(2, j.k + j.m) : j.kind == 5 ? ref(4, j.k + j.m) : j.kind == 6 ? ref(0, j.k + j.m) : j.kind == 1 ? ref(j.a, j.k + j.m) : ref(j.a, j.m); }
			switch (j.kind) {
			case 0: out = Hash::digest(hname(j.a), j.m); break;
			case 1: { Hash x(hname(j.a)); x.update(j.k); Hash y(x); out = y.digest(j.m); break; }
			case 2: out = cybozu::crypto::Hmac(hname(j.a)).eval(j.k, j.m); break;
			case 3: out.assign(32, 0); cybozu::hmac256(&out[0], j.k.data(), j.k.size(), j.m.data(), j.m.size()); break;
			case 4: { cybozu::Sha256 x; x.update(j.k); out = x.digest(j.m); break; }
			case 5: { cybozu::Sha512 x; x.update(j.k); out = x.digest(j.m); break; }
			default: { cybozu::Sha1 x; x.update(j.k.data(), j.k.size()); out = x.digest(j.m.data(), j.m.size()); } }
			SIM_CHECK(out == want, "interference", "a digest or MAC (kind %d) is wrong although no other thread uses its objects", j.kind);
		} });
	joinAll(); delete js;
}
