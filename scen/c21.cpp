#include "streams.h"
#include <cybozu/base64.hpp>
SIM_PROPERTY("C21", "cybozu/base64.hpp (EncodeToBase64, DecodeFromBase64, Base64Decoder), cybozu/stream.hpp", "byte sources and sinks (chunk sizes, failures), file system")
using namespace sim; using st::threw;
typedef std::string Str;
static Str ref(const Str& d, size_t mx, int mode)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str o, r;
	for (size_t i = 0; i < d.size(); i += 3) { uint32_t x = 0; int n = (int)std::min<size_t>(3, d.size() - i); for (int k = 0; k < 3; k++) x = x << 8 | (k < n ? (uint8_t)d[i + k] : 0); for (int k = 0; k < 4; k++) o += k <= n ? t[x >> (18 - 6 * k) & 63] : '='; }
	const char *eol = mode == cybozu::base64::useCRLF ? "\r\n" : mode == cybozu::base64::useLF ? "\n" : "";
	if (!mx) return o;
	for (size_t i = 0; i < o.size(); i += mx) { r += o.substr(i, mx); r += eol; }
	return r;
}
static Str data() { return bytes(chance(0.3) ? smallSize(10) : chance(0.6) ? smallSize(300) : chance(0.5) ? 1020 + choose(10) : smallSize(5000)); }
static size_t lineSize() { return chance(0.2) ? 0 : chance(0.4) ? 76 : 4 * range(1, 32); }
static int eolMode() { return h::pickOf({ cybozu::base64::useLF, cybozu::base64::useCRLF, cybozu::base64::noEndLine }); }
template<class O, class I> static bool enc(O& o, I& i, size_t mx, int mode) { return !threw([&] { cybozu::EncodeToBase64(o, i, mx, mode); }); }
template<class O, class I> static bool dec(O& o, I& i) { return !threw([&] { cybozu::DecodeFromBase64(o, i); }); }
static void verdict(bool ok, uint64_t errors, const Str& got, const Str& want, const char *what)
{
	SIM_CHECK(ok == (errors == 0), ok ? "error-as-eof" : "spurious-error", "%s %s, %llu stream failures", what, ok ? "reported success" : "failed", (unsigned long long)errors);
	if (ok) SIM_CHECK(got == want, "content", "%s: %zu bytes out, expected %zu", what, got.size(), want.size());
	else SIM_CHECK(want.compare(0, got.size(), got) == 0, "content", "%s: the part written before the failure is wrong", what);
}
SCENARIO(encode, 4)
{
	st::sourceFaults(); st::sinkFaults(); Str d = data(); size_t mx = lineSize(); int m = eolMode(); Str want = ref(d, mx, m);
	switch (choose(3)) {
	case 0: { st::Src s(d); st::Dst o; bool ok = enc(o, s, mx, m); verdict(ok, s.errors + o.errors, o.d, want, "encoding"); break; }
	case 1: { st::In s(d); std::istream& is = s; st::Dst o; bool ok = enc(o, is, mx, m); verdict(ok, s.sb.errors + o.errors, o.d, want, "encoding"); break; }
	default: { st::Src s(d); st::Out o; std::ostream& os = o; bool ok = enc(os, s, mx, m); verdict(ok, s.errors + o.sb.errors, o.sb.d, want, "encoding"); break; }
	}
}
SCENARIO(decode, 4)
{
	st::sourceFaults(); st::sinkFaults(); Str d = data(); Str c = ref(d, lineSize(), eolMode());
	if (chance(0.3)) { size_t n = range(1, 5); for (size_t i = 0; i < n; i++) c.insert(choose((uint32_t)c.size() + 1), 1, " \t-*\n"[choose(5)]); }
	switch (choose(3)) {
	case 0: { st::Src s(c); st::Dst o; bool ok = dec(o, s); verdict(ok, s.errors + o.errors, o.d, d, "decoding"); break; }
	case 1: { st::In s(c); std::istream& is = s; st::Dst o; bool ok = dec(o, is); verdict(ok, s.sb.errors + o.errors, o.d, d, "decoding"); break; }
	default: { st::Src s(c); st::Out o; std::ostream& os = o; bool ok = dec(os, s); verdict(ok, s.errors + o.sb.errors, o.sb.d, d, "decoding"); break; }
	}
}
SCENARIO(push_decoder, 2)
{
	st::sinkFaults(); Str d = data(); Str c = ref(d, lineSize(), eolMode()); st::Dst o; size_t p = 0; int guard = 0;
	bool ok = !threw([&] { cybozu::Base64Decoder<st::Dst> x(o); while (p < c.size()) { size_t k = ++guard > 60 ? c.size() - p : 1 + smallSize((uint32_t)(c.size() - p - 1)); x.write(c.data() + p, k); p += k; } x.flush(); if (chance(0.3)) x.flush(); });
	verdict(ok, o.errors, o.d, d, "decoding in pieces");
}
SCENARIO(files, 2)
{
	allow("read.short", 0.6); allow("read.EINTR", 0.3, 10); allow("write.short", 0.6); allow("write.EINTR", 0.3, 10); if (chance(0.4)) { allow("read.EIO", 0.15); allow("write.EIO", 0.15); if (chance(0.3)) fs::diskLimit(range(0, 3000)); }
	Str d = data(); size_t mx = lineSize(); int m = eolMode(); bool e = chance(0.5); Str in = e ? d : ref(d, mx, m), want = e ? ref(d, mx, m) : d; fs::put("/sim/in", in); uint64_t f0 = fired("read.EIO") + fired("write.EIO") + fired("disk.full");
	cybozu::File i("/sim/in", std::ios::in), o("/sim/out", std::ios::out); bool ok = e ? enc(o, i, mx, m) : dec(o, i);
	verdict(ok, fired("read.EIO") + fired("write.EIO") + fired("disk.full") - f0, fs::get("/sim/out"), want, e ? "encoding a file" : "decoding a file");
}
