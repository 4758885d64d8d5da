#include "streams.h"
#include <cybozu/line_stream.hpp>
SIM_PROPERTY("C16", "cybozu/line_stream.hpp (LineStreamT), cybozu/file.hpp as a source", "byte source (chunk sizes, failures), file system")
using namespace sim; using st::threw;
typedef std::string Str;
// reference: the lines of d, and whether reading ends with "line too long"
static std::vector<Str> ref(const Str& d, size_t mx, bool *tooLong)
{
	std::vector<Str> v; size_t p = 0; *tooLong = false;
	while (p < d.size()) {
		size_t e = d.find('\n', p); Str l;
		if (e == Str::npos) { l = d.substr(p); p = d.size(); }
		else { l = d.substr(p, e - p); p = e + 1; if (!l.empty() && l.back() == '\r') l.pop_back(); }
		if (l.size() > mx) { *tooLong = true; return v; }
		v.push_back(l);
	}
	return v;
}
static Str text(size_t mx)
{
	Str d; int n = range(0, 8);
	for (int i = 0; i < n; i++) {
		size_t k = pick({ 3, 3, 1, 1, 0.5 }) == 0 ? smallSize(6) : chance(0.6) ? (mx > 2 ? mx - choose(3) : choose((uint32_t)mx + 1)) : chance(0.7) ? smallSize((uint32_t)std::min<size_t>(mx, 300)) : mx + 1 + choose(4);
		Str l = bytes(k); for (char& c : l) if (c == '\n' || c == '\r') c = 'x';
		if (k && chance(0.15)) l[choose((uint32_t)k)] = '\r';
		d += l;
		if (i == n - 1 && chance(0.4)) { if (chance(0.2)) d += "\r"; break; }
		d += h::pickOf({ "\n", "\r\n", "\n\n", "\r\r\n" });
	}
	return d;
}
template<class S> static void lines(S& s, const Str& d, size_t mx, std::function<uint64_t()> errors, bool retry)
{
	bool tooLong; std::vector<Str> want = ref(d, mx, &tooLong); size_t i = 0;
	cybozu::LineStreamT<S> ls(s, mx);
	int guard = 0; bool asStr = chance(0.5);
	for (;;) {
		SIM_CHECK(++guard < 3000, "endless", "the reader does not come to an end");
		uint64_t e0 = errors(); Str line = "junk"; bool ok = false;
		try {
			if (asStr) ok = ls.next(line);
			else { const char *b = nullptr, *e = nullptr; ok = ls.next(&b, &e); if (ok) line.assign(b, e); }
		} catch (std::exception& ex) {
			if (errors() > e0) { probe("source error"); if (!retry) return; continue; }
			SIM_CHECK(tooLong && i == want.size(), "spurious-error", "line %zu of %zu: %s", i, want.size(), ex.what());
			return;
		}
		SIM_CHECK(errors() == e0, "error-as-eof", "a source error was not passed on");
		if (!ok) { SIM_CHECK(i == want.size(), "lost-line", "end reported after %zu of %zu lines", i, want.size()); SIM_CHECK(!tooLong, "too-long-accepted", "an over-long line was dropped silently"); break; }
		SIM_CHECK(i < want.size(), tooLong ? "too-long-accepted" : "extra-line", "line %zu returned (%zu bytes), only %zu lines", i, line.size(), want.size());
		SIM_CHECK(line == want[i], "content", "line %zu is %zu bytes, expected %zu", i, line.size(), want[i].size());
		i++;
	}
	bool again = true; Str x; try { again = ls.next(x); } catch (std::exception&) { return; }
	SIM_CHECK(!again, "extra-line", "a line after the end");
}
static size_t maxSize() { return h::pickOf<size_t>({ 0, 1, 2, 3, 5, 16, 80, 2048 }); }
SCENARIO(lines_user, 5) { st::sourceFaults(); size_t mx = maxSize(); Str d = text(mx); st::Src s(d); lines(s, d, mx, [&] { return s.errors; }, chance(0.6)); }
SCENARIO(lines_file, 2)
{
	allow("read.short", 0.7); allow("read.EINTR", 0.4, 20); if (chance(0.5)) allow("read.EIO", 0.1);
	size_t mx = maxSize(); Str d = text(mx); fs::put("/sim/f", d);
	cybozu::File f("/sim/f", std::ios::in | std::ios::binary);
	lines(f, d, mx, [&] { return fired("read.EIO"); }, true);
}
// header lines, then the rest raw
SCENARIO(remain, 2)
{
	st::sourceFaults(); disallow("src.error");
	size_t mx = h::pickOf<size_t>({ 8, 80, 2048 }); Str d = text(mx) + bytes(smallSize(200)); bool tooLong; std::vector<Str> want = ref(d, mx, &tooLong);
	st::Src s(d); cybozu::LineStreamT<st::Src> ls(s, mx); size_t n = choose((uint32_t)want.size() + 1), used = 0, i;
	for (i = 0; i < n; i++) {
		Str l; bool ok = false; try { ok = ls.next(l); } catch (std::exception&) { return; }
		SIM_CHECK(ok && l == want[i], "content", "line %zu", i);
		size_t e = d.find('\n', used); used = e == Str::npos ? d.size() : e + 1;
	}
	Str r = ls.getRemain() + d.substr(s.pos);
	SIM_CHECK(r == d.substr(used), "remain", "after %zu lines %zu bytes remain, expected %zu", n, r.size(), d.size() - used);
}
