#include "streams.h"
#include <cybozu/stream.hpp>
#include <cybozu/file.hpp>
#include <sstream>
#include <fstream>
SIM_PROPERTY("C15", "cybozu/stream.hpp (readSome, read, write, readChar, writeChar, Memory*/String* streams), cybozu/file.hpp as a stream", "sources and sinks (chunk sizes, failures), file system")
using namespace sim; using st::threw;

// a program of reads against any source; consumed() tells how much the source handed out
template<class S, class C, class E>
static void reading(S& s, const std::string& d, C consumed, E errors, bool plainIstream)
{
	size_t pos = 0; int n = range(1, 10); bool ended = false;
	for (int i = 0; i < n; i++) {
		size_t k = smallSize(h::pickOf({ 3, 20, 300 })); std::string buf(k + 16, '#');
		uint64_t e0 = errors();
		int how = (int)choose(4);
		if (how == 0) { // partial read
			if (!k) continue;
			size_t r = 0;
			try { r = cybozu::readSome(&buf[8], k, s); }
			catch (std::exception&) { SIM_CHECK(errors() > e0, "spurious-error", "readSome threw although the source works"); return; }
			SIM_CHECK(errors() == e0 || r > 0, "error-as-eof", "a failing source was reported as the end of the data");
			SIM_CHECK(r <= k, "too-much", "readSome returned %zu of %zu", r, k);
			SIM_CHECK(r > 0 || pos == d.size(), "early-eof", "readSome returned 0 at %zu of %zu", pos, d.size());
			SIM_CHECK(buf.compare(8, r, d, pos, r) == 0, "content", "wrong bytes at %zu", pos);
			SIM_CHECK(st::allHash(buf, 0, 8) && st::allHash(buf, 8 + k, 8), "overrun", "bytes outside the buffer were written");
			pos += r;
		} else if (how == 1) { // one character
			char c = 0; bool b = false;
			try { b = cybozu::readChar(&c, s); }
			catch (std::exception&) { SIM_CHECK(errors() > e0, "spurious-error", "readChar threw although the source works"); return; }
			SIM_CHECK(errors() == e0 || b, "error-as-eof", "a failing source was reported as the end of the data");
			SIM_CHECK(b == (pos < d.size()) || ended, "early-eof", "readChar = %d at %zu of %zu", b, pos, d.size());
			if (b) { SIM_CHECK(pos < d.size() && c == d[pos], "content", "readChar at %zu", pos); pos++; }
		} else { // exact read
			bool flag = how == 3, ok = true;
			try { if (flag) cybozu::read(&ok, &buf[8], k, s); else cybozu::read(&buf[8], k, s); }
			catch (std::exception&) {
				SIM_CHECK(errors() > e0 || (!flag && pos + k > d.size()), "spurious-error", "read of %zu at %zu of %zu threw", k, pos, d.size());
				return;
			}
			SIM_CHECK(ok == (pos + k <= d.size()) || (!ok && errors() > e0), "short-read", "read of %zu at %zu of %zu reported %s", k, pos, d.size(), ok ? "success" : "failure");
			SIM_CHECK(st::allHash(buf, 0, 8) && st::allHash(buf, 8 + k, 8), "overrun", "bytes outside the buffer were written");
			if (!ok) return;
			SIM_CHECK(buf.compare(8, k, d, pos, k) == 0, "content", "read of %zu at %zu delivered wrong bytes", k, pos);
			pos += k;
		}
		SIM_CHECK(consumed() == pos || consumed() == (size_t)-1, "consumed", "%zu bytes taken from the source, %zu delivered", (size_t)consumed(), pos);
		if (pos == d.size()) ended = plainIstream;
	}
}
SCENARIO(read_user, 3) { st::sourceFaults(); std::string d = bytes(smallSize(600)); st::Src s(d); reading(s, d, [&] { return s.pos; }, [&] { return s.errors; }, false); }
SCENARIO(read_istream, 3) { st::sourceFaults(); std::string d = bytes(smallSize(600)); st::In s(d); std::istream& is = s; reading(is, d, [&] { return s.sb.consumed(); }, [&] { return s.sb.errors; }, true); }
SCENARIO(read_memory, 2) { std::string d = bytes(smallSize(600)); cybozu::MemoryInputStream s(d.data(), d.size()); reading(s, d, [&] { return s.getPos(); }, [&] { return (uint64_t)0; }, false); }
template<class S> static void hugeRead(S& s, const std::string& d, size_t pos)
{
	size_t z = chance(0.5) ? size_t(0) - 1 - choose(400) : (size_t)1 << (32 + choose(32)); std::string area(d.size() + 64, '#'); ev("huge", (int64_t)z); size_t r = cybozu::readSome(&area[16], z, s);
	SIM_CHECK(r == d.size() - pos && area.compare(16, r, d, pos, r) == 0, "content", "readSome of %zu returned %zu of %zu", z, r, d.size() - pos); SIM_CHECK(st::allHash(area, 0, 16) && st::allHash(area, 16 + r, area.size() - 16 - r), "overrun", "bytes outside the data were written"); SIM_CHECK(s.getPos() == d.size(), "pos", "getPos");
}
SCENARIO(read_huge, 1)
{
	std::string d = bytes(smallSize(300)); size_t k = choose((uint32_t)d.size() + 1); std::string b(k + 1, 0);
	if (chance(0.5)) { cybozu::MemoryInputStream s(d.data(), d.size()); if (k) cybozu::read(&b[0], k, s); hugeRead(s, d, k); } else { cybozu::StringInputStream s(d); if (k) cybozu::read(&b[0], k, s); hugeRead(s, d, k); }
}
SCENARIO(read_string, 2) { std::string d = bytes(smallSize(600)); cybozu::StringInputStream s(d); reading(s, d, [&] { return s.getPos(); }, [&] { return (uint64_t)0; }, false); }
SCENARIO(read_sstream, 1) { std::string d = bytes(smallSize(600)); std::istringstream s(d); size_t *p = nullptr; (void)p; reading(s, d, [&]() -> size_t { auto k = s.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); return (size_t)k; }, [&] { return (uint64_t)0; }, true); }
SCENARIO(read_file, 2)
{
	allow("read.short", 0.6); allow("read.EINTR", 0.4, 20); if (chance(0.5)) allow("read.EIO", 0.15);
	std::string d = bytes(smallSize(600)); fs::put("/sim/f", d);
	cybozu::File f("/sim/f", std::ios::in | std::ios::binary);
	reading(f, d, [&]() -> size_t { return (size_t)-1; }, [&] { return fired("read.EIO"); }, false);
}
// sinks: everything in order or a reported failure
template<class O, class G>
static void writing(O& o, G errors, std::function<std::string()> got)
{
	std::string m; int n = range(1, 8);
	for (int i = 0; i < n; i++) {
		std::string d = bytes(smallSize(h::pickOf({ 3, 100, 500 })));
		uint64_t e0 = errors(); int how = (int)choose(4); bool ok = true, thrown = false;
		if (how >= 2) d = d.substr(0, 1);
		if (how >= 2 && d.empty()) continue;
		try {
			if (how == 0) cybozu::write(o, d.data(), d.size());
			else if (how == 1) cybozu::write(&ok, o, d.data(), d.size());
			else if (how == 2) cybozu::writeChar(o, d[0]);
			else cybozu::writeChar(&ok, o, d[0]);
		} catch (std::exception&) { thrown = true; ok = false; }
		SIM_CHECK(!(thrown && (how == 1 || how == 3)), "flag-style-threw", "the flag style write threw");
		SIM_CHECK(ok == (errors() == e0), "write-report", "write of %zu bytes reported %s, the sink %s", d.size(), ok ? "success" : "failure", errors() == e0 ? "took all" : "failed");
		if (ok) { m += d; SIM_CHECK(got() == m, "content", "the sink has %zu bytes, %zu written", got().size(), m.size()); }
		else { std::string g = got(); SIM_CHECK(g.compare(0, m.size(), m) == 0 && d.compare(0, g.size() - m.size(), g, m.size(), std::string::npos) == 0, "content", "a failed write left other data"); return; }
	}
}
SCENARIO(write_user, 2) { st::sinkFaults(); st::Dst o; writing(o, [&] { return o.errors; }, [&] { return o.d; }); }
SCENARIO(write_ostream, 2) { st::sinkFaults(); st::Out o; std::ostream& os = o; writing(os, [&] { return o.sb.errors; }, [&] { return o.sb.d; }); }
SCENARIO(write_string, 1) { std::string s; cybozu::StringOutputStream o(s); writing(o, [&] { return (uint64_t)0; }, [&] { return s; }); SIM_CHECK(o.getPos() == s.size(), "pos", "getPos"); }
SCENARIO(write_memory, 3)
{
	size_t cap = smallSize(300); std::string area(cap + 32, '#'); cybozu::MemoryOutputStream o(&area[16], cap);
	std::string m; int n = range(1, 8);
	for (int i = 0; i < n; i++) {
		std::string d = bytes(chance(0.2) ? cap - m.size() + choose(2) : smallSize(120)); bool ok = true; int how = (int)choose(2);
		if (how) { try { cybozu::write(o, d.data(), d.size()); } catch (cybozu::Exception&) { ok = false; } } else cybozu::write(&ok, o, d.data(), d.size());
		SIM_CHECK(ok == (m.size() + d.size() <= cap), "memory-full", "write of %zu with %zu free reported %s", d.size(), cap - m.size(), ok ? "success" : "failure");
		if (ok) m += d;
		if (chance(0.3)) { // a size that does not exist, such as the length field of a damaged input gives
			size_t z = chance(0.5) ? size_t(0) - 1 - choose(400) : (chance(0.5) ? (size_t)1 << (32 + choose(32)) : size_t(0) - 1 - choose(400) - m.size()); ok = true; ev("huge", (int64_t)z);
			if (chance(0.5)) { try { cybozu::write(o, d.data(), z); } catch (cybozu::Exception&) { ok = false; } } else cybozu::write(&ok, o, d.data(), z);
			SIM_CHECK(!ok, "memory-full", "write of %zu with %zu free reported success", z, cap - m.size());
		}
		SIM_CHECK(o.getPos() == m.size() && area.compare(16, m.size(), m) == 0, "content", "memory content");
		SIM_CHECK(st::allHash(area, 0, 16) && st::allHash(area, 16 + cap, 16), "overrun", "memory outside the area was written");
	}
}
SCENARIO(write_file, 1)
{
	allow("write.short", 0.6); allow("write.EINTR", 0.4, 20); if (chance(0.5)) allow("write.EIO", 0.2);
	cybozu::File f("/sim/f", std::ios::out);
	std::string m; int n = range(1, 5);
	for (int i = 0; i < n; i++) {
		std::string d = bytes(smallSize(300)); uint64_t e0 = fired("write.EIO"); bool t = threw([&] { cybozu::write(f, d.data(), d.size()); });
		SIM_CHECK(t == (fired("write.EIO") > e0), "write-report", "write to a file");
		if (t) return;
		m += d; SIM_CHECK(fs::get("/sim/f") == m, "content", "file content");
	}
}
// a standard stream that is not usable (never opened, or failed before) is reported, not taken for an empty or a full one
SCENARIO(dead_streams, 1)
{
	fs::put("/sim/f", "content"); int how = (int)choose(4), api = (int)choose(4); if (api < 2 && how == 3) how = 0; char b[16] = ""; size_t n = chance(0.3) ? 1 : 1 + choose(9); bool ok = true; ev("op", how, api, (int64_t)n);
	std::ifstream i; std::istringstream is("12 ab cdefghij"); std::ofstream o; std::ostringstream os; std::istream *in = &i; std::ostream *out = &o;
	if (how == 0) { i.open("/sim/missing"); } else if (how == 1) { int x; is >> x >> x; in = &is; os.setstate(std::ios::failbit); out = &os; } else if (how == 2) { in = &is; is.setstate(std::ios::badbit); out = &os; os.setstate(std::ios::badbit); } // how 3: never opened (a std::ifstream then looks like one at its end, so this is for writing only)
	if (api < 2) { bool t = false; try { if (api == 0) ok = cybozu::readSome(b, n, *in) > 0; else cybozu::read(b, n, *in); } catch (std::exception&) { t = true; } SIM_CHECK(t, "error-as-eof", "reading from an unusable stream returned %d", ok); }
	else { try { if (api == 2) cybozu::write(*out, b, n); else cybozu::write(&ok, *out, b, n); } catch (std::exception&) { ok = false; } SIM_CHECK(!ok, "write-report", "writing to an unusable stream reported success"); }
}
// copying through both ends
SCENARIO(copy, 2)
{
	st::sourceFaults(); st::sinkFaults();
	std::string d = bytes(smallSize(3000)); st::In in(d); st::Dst out; std::istream& is = in; bool err = false;
	size_t bs = range(1, 200); std::string b(bs, 0);
	try { for (;;) { size_t r = cybozu::readSome(&b[0], bs, is); if (!r) break; cybozu::write(out, b.data(), r); } } catch (std::exception&) { err = true; }
	SIM_CHECK(err == (in.sb.errors + out.errors > 0), "error-as-eof", "%llu failures, copy reported %d", (unsigned long long)(in.sb.errors + out.errors), err);
	if (!err) SIM_CHECK(out.d == d, "content", "copied %zu of %zu", out.d.size(), d.size());
	else SIM_CHECK(d.compare(0, out.d.size(), out.d) == 0, "content", "the copied part is no prefix");
}
