#include "streams.h"
#include <zlib.h>
#include <cybozu/zlib.hpp>
#include <new>
SIM_PROPERTY("C17", "cybozu/zlib.hpp (ZlibCompressorT, ZlibDecompressorT, ZlibCompress, ZlibUncompress), zlib", "byte sources and sinks (chunk sizes, failures, damage), failing codec initialisation, allocator")
using namespace sim; using st::threw;
typedef std::string Str;
static int g_live;
extern "C" {
int __real_deflateInit_(z_streamp, int, const char *, int); int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int); int __real_deflateEnd(z_streamp);
int __real_inflateInit_(z_streamp, const char *, int); int __real_inflateInit2_(z_streamp, int, const char *, int); int __real_inflateEnd(z_streamp);
#define INIT(call) if (fault("zlib.nomem")) { s->msg = (char *)"insufficient memory"; return Z_MEM_ERROR; } int r = call; if (r == Z_OK) g_live++; return r
int __wrap_deflateInit_(z_streamp s, int l, const char *v, int n) { INIT(__real_deflateInit_(s, l, v, n)); }
int __wrap_deflateInit2_(z_streamp s, int l, int m, int w, int mem, int st_, const char *v, int n) { INIT(__real_deflateInit2_(s, l, m, w, mem, st_, v, n)); }
int __wrap_deflateEnd(z_streamp s) { int r = __real_deflateEnd(s); if (r != Z_STREAM_ERROR) g_live--; return r; }
int __wrap_inflateInit_(z_streamp s, const char *v, int n) { INIT(__real_inflateInit_(s, v, n)); }
int __wrap_inflateInit2_(z_streamp s, int w, const char *v, int n) { INIT(__real_inflateInit2_(s, w, v, n)); }
int __wrap_inflateEnd(z_streamp s) { int r = __real_inflateEnd(s); if (r != Z_STREAM_ERROR) g_live--; return r; }
}
static Str data0()
{
	Quiet q;
	Str b = bytes(smallSize(h::pickOf({ 20, 500, 6000 })));
	switch (choose(3)) { case 0: return b; case 1: { for (char& c : b) c = (char)('a' + (c & 1)); return b; } default: { Str r; int n = range(1, 10); for (int i = 0; i < n; i++) r += b.substr(0, 300); return r; } }
}
static Str data()
{
	Str d = data0(); ev("data", (int64_t)d.size(), d.empty() ? 0 : d[0], d.empty() ? 0 : d[d.size() / 2]); return d;
}
// independent codec for cross checks
static Str refDeflate(const Str& d, bool gz, int level)
{
	Quiet q; z_stream z; memset(&z, 0, sizeof z); __real_deflateInit2_(&z, level, Z_DEFLATED, gz ? 31 : 15, 8, 0, ZLIB_VERSION, sizeof z);
	Str o(d.size() + d.size() / 100 + 200, 0); z.next_in = (Bytef *)d.data(); z.avail_in = (unsigned)d.size(); z.next_out = (Bytef *)&o[0]; z.avail_out = (unsigned)o.size();
	deflate(&z, Z_FINISH); o.resize(z.total_out); __real_deflateEnd(&z); return o;
}
static bool refInflate(const Str& c, bool gz, Str& o)
{
	Quiet q; z_stream z; memset(&z, 0, sizeof z); __real_inflateInit2_(&z, gz ? 31 : 15, ZLIB_VERSION, sizeof z);
	o.assign(200000, 0); z.next_in = (Bytef *)c.data(); z.avail_in = (unsigned)c.size(); z.next_out = (Bytef *)&o[0]; z.avail_out = (unsigned)o.size();
	int r = inflate(&z, Z_FINISH); o.resize(z.total_out); bool ok = r == Z_STREAM_END && z.avail_in == 0; __real_inflateEnd(&z); return ok;
}
template<size_t B, class O> static bool compress(O& o, const Str& d, bool gz, int level, std::function<uint64_t()> errors, bool *flushed)
{
	uint64_t e0 = errors();
	try {
		cybozu::ZlibCompressorT<O, B> c(o, gz, level);
		size_t p = 0; int guard = 0;
		while (p < d.size()) { size_t k = ++guard > 40 ? d.size() - p : chance(0.3) ? d.size() - p : smallSize((uint32_t)(d.size() - p)); c.write(d.data() + p, k); p += k; }
		if (chance(0.8)) { c.flush(); *flushed = true; if (chance(0.3)) c.flush(); }
	} catch (std::exception& e) {
		SIM_CHECK(errors() > e0, "spurious-error", "compressing %zu bytes failed: %s", d.size(), e.what());
		return false;
	}
	SIM_CHECK(errors() == e0 || !*flushed, "silent-loss", "the sink failed and compressing reported success");
	if (!*flushed && errors() > e0) { SIM_CHECK(!capturedStderr().empty(), "silent-loss", "the final flush failed silently"); return false; }
	return true;
}
template<size_t B, class O> static bool compressAny(int b, O& o, const Str& d, bool gz, int level, std::function<uint64_t()> er, bool *fl);
#define SIZES(F) switch (b) { case 0: F(1) case 1: F(2) case 2: F(7) case 3: F(64) case 4: F(2048) default: F(10000) }
template<class O> static bool comp(O& o, const Str& d, bool gz, int level, std::function<uint64_t()> er, bool *fl)
{
	int b = (int)choose(6); if (b < 2 && d.size() > 1500) b = 4;
#define F(n) return compress<n>(o, d, gz, level, er, fl);
	SIZES(F)
#undef F
}
// result: 0 complete, 1 error reported
template<size_t B, class I> static int decompress(I& in, bool gz, Str& out, std::function<uint64_t()> errors)
{
	uint64_t e0 = errors(); int guard = 0; bool useRead = chance(0.2); size_t fixed = chance(0.5) ? range(1, 50) : 0;
	try {
		cybozu::ZlibDecompressorT<I, B> z(in, gz);
		for (;;) {
			SIM_CHECK(++guard < 30000, "endless", "the decompressor does not end");
			size_t k = fixed ? fixed : guard > 60 ? 3000 : 1 + smallSize(2500); Str b(k, 0); size_t r;
			try { r = z.readSome(&b[0], k); } catch (std::exception& e) { SIM_CHECK(!z.isEmpty() || fired("src.error"), "end-after-error", "the end of the data is reported after a failure: %s gz %d out %zu", e.what(), gz, out.size()); throw; }
			SIM_CHECK(r <= k, "too-much", "readSome returned %zu of %zu", r, k);
			out.append(b, 0, r);
			SIM_CHECK(out.size() < 400000, "endless", "more output than input");
			if (r == 0) { SIM_CHECK(z.isEmpty(), "early-eof", "end reported although the data is incomplete"); if (chance(0.3)) { char c; SIM_CHECK(z.readSome(&c, 1) == 0, "extra-data", "data after the end"); } return 0; }
		}
	} catch (std::exception&) { (void)e0; (void)useRead; return 1; }
}
template<class I> static int decomp(I& in, bool gz, Str& out, std::function<uint64_t()> er)
{
	int b = (int)choose(6); if (b < 1 && chance(0.5)) b = 4;
#define F(n) return decompress<n>(in, gz, out, er);
	SIZES(F)
#undef F
}
static void leakCheck() { SIM_CHECK(g_live == 0, "codec-leak", "%d codec states not released", g_live); }
SCENARIO(round_trip, 4)
{
	g_live = 0; Str d = data(); bool gz = chance(0.5); int level = (int)choose(11) - 1; bool fl = false;
	st::Dst o; auto zero = [] { return (uint64_t)0; };
	SIM_CHECK(comp(o, d, gz, level, zero, &fl), "spurious-error", "compression failed");
	Str x; SIM_CHECK(refInflate(o.d, gz, x) && x == d, "not-standard", "the output (%zu bytes for %zu) is no valid %s of the input", o.d.size(), d.size(), gz ? "gzip" : "zlib");
	st::sourceFaults(); disallow("src.error"); Str y; int r;
	if (chance(0.5)) { st::Src s(o.d); r = decomp(s, gz, y, zero); } else { st::In s(o.d); std::istream& is = s; r = decomp(is, gz, y, zero); }
	SIM_CHECK(r == 0 && y == d, "round-trip", "decompression %s, %zu of %zu bytes", r ? "failed" : "ended", y.size(), d.size());
	leakCheck();
}
SCENARIO(foreign, 2)
{
	g_live = 0; Str d = data(); bool gz = chance(0.6); Str c = refDeflate(d, gz, (int)choose(10)); auto zero = [] { return (uint64_t)0; };
	if (gz && chance(0.7)) { // optional header fields
		int f = 0; Str ex;
		if (chance(0.4)) { f |= 4; size_t n = smallSize(h::pickOf({ 30, 30, 300, 3000 })); ex += (char)n; ex += (char)(n >> 8); ex += bytes(n); }
		if (chance(0.4)) { f |= 8; ex += Str(1 + smallSize(100), (char)(1 + choose(255))); ex += '\0'; }
		if (chance(0.4)) { f |= 16; ex += chance(0.8) ? Str("a comment") : Str(); ex += '\0'; }
		c[3] = (char)f;
		if (chance(0.4)) { c[3] = (char)(f | 2); Str hd = c.substr(0, 10) + ex; uint32_t cr = crc32(0, (const Bytef *)hd.data(), (unsigned)hd.size()) & 0xffff; ex += (char)cr; ex += (char)(cr >> 8); }
		c.insert(10, ex);
	}
	st::sourceFaults(); disallow("src.error"); st::Src s(c); Str y; int r = decomp(s, gz, y, zero);
	SIM_CHECK(r == 0 && y == d, "foreign", "valid %s data: decompression %s, %zu of %zu bytes", gz ? "gzip" : "zlib", r ? "failed" : "ended", y.size(), d.size());
	leakCheck();
}
// truncation and damage
SCENARIO(damage, 4)
{
	g_live = 0; Str d = data(); bool gz = chance(0.6); Str c = refDeflate(d, gz, 6); auto zero = [] { return (uint64_t)0; };
	bool cut = chance(0.5), tail = false;
	if (cut) { c.resize(chance(0.4) ? c.size() - 1 - choose((uint32_t)std::min<size_t>(9, c.size() - 1)) : choose((uint32_t)c.size())); noteFault("data.truncated"); }
	else { tail = chance(0.5); size_t p = tail ? c.size() - 1 - choose(gz ? 8 : 4) : choose((uint32_t)c.size()); if (gz && p >= 4 && p < 10) p = 10; if (p >= c.size()) return; c[p] ^= (char)(1 << choose(8)); noteFault("data.flipped"); }
	st::sourceFaults(); disallow("src.error"); st::Src s(c); Str y; int r = decomp(s, gz, y, zero);
	if (cut) SIM_CHECK(r == 1, "truncation", "truncated data (%zu bytes) accepted as complete (%zu of %zu bytes out)", c.size(), y.size(), d.size());
	else { Str x; bool fine = refInflate(c, gz, x); if (!fine && !(x == d && !tail && gz)) SIM_CHECK(r == 1, "corruption", "damaged %s data accepted as complete", gz ? "gzip" : "zlib"); }
	if (r == 0) SIM_CHECK(y == d || !cut, "corruption", "wrong data");
	leakCheck();
}
// failing streams and initialisation
SCENARIO(failing, 3)
{
	g_live = 0; Str d = data(); bool gz = chance(0.5); bool fl = false;
	if (chance(0.3)) allow("zlib.nomem", 0.4); auto nm = [] { return fired("zlib.nomem"); };
	if (chance(0.5)) {
		st::sinkFaults(); st::Dst o; st::Out so; bool r;
		if (chance(0.5)) r = comp(o, d, gz, -1, [&] { return o.errors + nm(); }, &fl); else { std::ostream& os = so; r = comp(os, d, gz, -1, [&] { return so.sb.errors + nm(); }, &fl); o.d = so.sb.d; }
		if (r) { Str x; SIM_CHECK(refInflate(o.d, gz, x) && x == d, "silent-loss", "the output is incomplete although no error was reported"); }
	} else {
		Str c = refDeflate(d, gz, 6); st::sourceFaults(); Str y; int r; uint64_t er;
		if (chance(0.5)) { st::Src s(c); r = decomp(s, gz, y, [&] { return s.errors; }); er = s.errors; } else { st::In s(c); std::istream& is = s; r = decomp(is, gz, y, [&] { return s.sb.errors; }); er = s.sb.errors; }
		er += nm();
		if (r == 0) SIM_CHECK(y == d, "silent-loss", "decompression ended with %zu of %zu bytes although a source failed", y.size(), d.size());
		else SIM_CHECK(er > 0, "spurious-error", "decompression failed without reason");
		SIM_CHECK(d.compare(0, y.size(), y) == 0, "content", "bytes delivered before the failure are wrong");
	}
	leakCheck();
}
// exact reads
SCENARIO(exact, 2)
{
	g_live = 0; Str d = data(); bool gz = chance(0.5); Str c = refDeflate(d, gz, 6); st::sourceFaults(); disallow("src.error"); st::Src s(c);
	{
		cybozu::ZlibDecompressorT<st::Src, 64> z(s, gz); size_t p = 0; int n = range(1, 6);
		for (int i = 0; i < n; i++) {
			size_t k = smallSize((uint32_t)(d.size() + 3)); Str b(k + 8, '#'); bool t = threw([&] { z.read(&b[0], k); });
			SIM_CHECK(t == (p + k > d.size()), "exact-read", "read of %zu at %zu of %zu %s", k, p, d.size(), t ? "threw" : "returned");
			if (t) break;
			SIM_CHECK(b.compare(0, k, d, p, k) == 0 && st::allHash(b, k, 8), "content", "exact read delivered wrong bytes"); p += k;
		}
	}
	leakCheck();
}
