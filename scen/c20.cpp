#include "streams.h"
#include <sstream>
#include <cybozu/csv.hpp>
#include <cybozu/file.hpp>
SIM_PROPERTY("C20", "cybozu/csv.hpp (CsvReaderT, CsvWriterT, CsvReader, CsvWriter), cybozu/stream.hpp, libstdc++ file streams", "byte sources and sinks (chunk sizes, failures), file system (short transfers, EINTR, errors, full disk)")
using namespace sim; using st::threw;
typedef std::string Str; typedef std::vector<Str> Row; typedef std::vector<Row> Table;
static Str field()
{
	switch (choose(6)) {
	case 0: return "";
	case 1: return h::pickOf({ "a", "abc", "\"", "\"\"", ",", "\n", "\n\n", "a\"b", ",\"", "\",\"", " ", "\t", ";", "\xff", "\xff\xfe", "a\xff", "\"\n\"" });
	case 2: { Str s = bytes(smallSize(12)); for (char& c : s) if (c == '\r') c = 'r'; return s; }
	case 3: { Str s = bytes(smallSize(h::pickOf({ 40, 2100, 5000 }))); for (char& c : s) { if (c == '\r') c = 'r'; } return s; }
	default: { Str s; size_t n = smallSize(8); for (size_t i = 0; i < n; i++) s += "a\",\nb;\t "[choose(8)]; return s; }
	}
}
static Table table() { Table t(smallSize(6)); for (auto& r : t) { size_t n = smallSize(5); if (chance(0.01)) { static const char *const few[] = { "", "x", "\"" }; n = h::pickOf({ 70, 300, 1100 }); Row w; while (w.size() < n) w.push_back(few[w.size() * 7 % 3]); r = w; probe("wide row"); continue; } for (size_t i = 0; i < n; i++) r.push_back(field()); } return t; }
static char sepChar() { return ",\t; "[choose(4)]; }
static Str rowsText(const Table& t, char sep) // what the writer has to produce
{
	Str o; for (auto& r : t) { for (size_t i = 0; i < r.size(); i++) { if (i) o += sep; o += '"'; for (char c : r[i]) { if (c == '"') o += '"'; o += c; } o += '"'; } o += "\r\n"; } return o;
}
// free-style CSV text (quoted and bare fields, LF / CRLF, last line with or without end), meaning known
static bool plain(const Str& f, char sep) { if (!f.empty() && f[0] == '"') return false; for (char c : f) if (c == sep || c == '\n') return false; return true; }
static Str freeText(Table& t, char sep)
{
	Str o;
	for (size_t k = 0; k < t.size(); k++) {
		Row& r = t[k]; bool last = k + 1 == t.size();
		for (size_t i = 0; i < r.size(); i++) {
			if (i) o += sep;
			bool bare = plain(r[i], sep) && chance(0.6) && !(i + 1 == r.size() && r[i].empty());
			if (bare) o += r[i]; else { o += '"'; for (char c : r[i]) { if (c == '"') o += '"'; o += c; if (c == 'b' && chance(0.1)) o += '\r'; } o += '"'; }
		}
		if (last && !r.empty() && chance(0.5)) break;
		o += chance(0.5) ? "\r\n" : "\n";
	}
	return o;
}
template<class R> static void compare(R& rd, const Table& t, std::function<uint64_t()> errors, bool mustFail)
{
	size_t i = 0; Row row;
	for (;;) {
		uint64_t e0 = errors(); bool ok = false; bool lst = chance(0.3); std::list<Str> l;
		try { if (lst) { ok = rd.read(l); row.assign(l.begin(), l.end()); } else ok = rd.read(row); }
		catch (std::exception& e) { SIM_CHECK(errors() > e0 || (mustFail && i == t.size()), "spurious-error", "row %zu of %zu: %s", i, t.size(), e.what()); return; }
		SIM_CHECK(errors() == e0, "error-as-eof", "a read failure was not reported (row %zu of %zu)", i, t.size());
		if (!ok) break;
		SIM_CHECK(i < t.size(), mustFail ? "malformed-accepted" : "extra-row", "row %zu returned with %zu fields, the table has %zu rows", i, row.size(), t.size());
		SIM_CHECK(row.size() == t[i].size(), "fields", "row %zu has %zu fields, expected %zu", i, row.size(), t[i].size());
		for (size_t k = 0; k < row.size(); k++) SIM_CHECK(row[k] == t[i][k], "content", "row %zu field %zu differs", i, k);
		i++;
	}
	SIM_CHECK(i == t.size(), "lost-row", "%zu of %zu rows returned", i, t.size());
	SIM_CHECK(!mustFail, "malformed-accepted", "malformed input accepted");
	SIM_CHECK(!rd.read(row), "extra-row", "a row after the end");
}
template<class S> static void readAll(S& s, const Table& t, char sep, std::function<uint64_t()> er, bool mf = false) { cybozu::CsvReaderT<S> rd(s, sep); compare(rd, t, er, mf); }
SCENARIO(written, 4)
{
	Table t = table(); char sep = sepChar(); st::sinkFaults(); st::sourceFaults();
	Str text;
	if (chance(0.5)) {
		st::Dst o; bool bad = false; { cybozu::CsvWriterT<st::Dst> w(o, sep); for (auto& r : t) { uint64_t e0 = o.errors; bool x = threw([&] { w.write(r.begin(), r.end()); }); SIM_CHECK(x == (o.errors > e0), "write-report", "writing a row %s", x ? "threw" : "returned"); if (x) { bad = true; break; } } }
		Str want = rowsText(t, sep);
		if (bad) { SIM_CHECK(want.compare(0, o.d.size(), o.d) == 0, "content", "wrong bytes before the failure"); return; }
		SIM_CHECK(o.d == want, "written-text", "the written text is not the CSV form of the table"); text = o.d;
	} else {
		st::Out o; std::ostream& os = o; bool bad = false; { cybozu::CsvWriterT<std::ostream> w(os, sep); for (auto& r : t) { uint64_t e0 = o.sb.errors; bool x = threw([&] { w.write(r.begin(), r.end()); }); SIM_CHECK(x == (o.sb.errors > e0), "write-report", "writing a row %s", x ? "threw" : "returned"); if (x) { bad = true; break; } } }
		if (bad) return;
		SIM_CHECK(o.sb.d == rowsText(t, sep), "written-text", "the written text is not the CSV form of the table"); text = o.sb.d;
	}
	if (chance(0.5)) { st::Src s(text); readAll(s, t, sep, [&] { return s.errors; }); } else { st::In s(text); std::istream& is = s; readAll(is, t, sep, [&] { return s.sb.errors; }); }
}
SCENARIO(free_form, 5)
{
	Table t = table(); char sep = sepChar(); Str text = freeText(t, sep); st::sourceFaults(); bool mf = false;
	if (chance(0.25)) { // malformed last row
		if (!text.empty() && text.back() != '\n') text += '\n'; mf = true; Str f = field(), q; for (char c : f) { if (c == '"') q += '"'; q += c; }
		text += h::pickOf({ "", "a,", "\"x\"," }); for (size_t i = text.rfind('\n') == Str::npos ? 0 : text.rfind('\n') + 1; i < text.size(); i++) if (text[i] == ',') text[i] = sep;
		if (chance(0.5)) text += "\"" + q; else { text += "\"" + q + "\"x"; if (chance(0.5)) text += "\n"; }
	}
	if (chance(0.5)) { st::Src s(text); readAll(s, t, sep, [&] { return s.errors; }, mf); } else { st::In s(text); std::istream& is = s; readAll(is, t, sep, [&] { return s.sb.errors; }, mf); }
}
// the size limit holds per line
SCENARIO(limit, 1)
{
	st::sourceFaults(); disallow("src.error"); Table t(range(1, 6)); size_t bad = t.size();
	for (size_t k = 0; k < t.size(); k++) { size_t n = 0, m = range(0, 24); Row& r = t[k]; while (n < m) { size_t l = range(1, (uint32_t)(m - n)); r.push_back(Str(l, 'x')); n += l; } if (m >= 20 && bad == t.size()) bad = k; }
	Str text = rowsText(t, ','); st::Src s(text); cybozu::CsvReaderT<st::Src, 20> rd(s); Table good(t.begin(), t.begin() + bad); compare(rd, good, [] { return (uint64_t)0; }, bad < t.size());
}
// through files
SCENARIO(files, 3)
{
	Table t = table(); char sep = sepChar(); bool bad = false; allow("write.short", 0.5); allow("write.EINTR", 0.3, 10); bool hard = chance(0.4);
	if (hard) { allow("write.EIO", 0.2); allow("open.EMFILE", 0.2); if (chance(0.5)) fs::diskLimit(range(0, 500)); }
	auto hardFired = [&] { return fired("write.EIO") + fired("open.EMFILE") + fired("disk.full"); };
	bool reported = false; uint64_t h0 = 0;
	{ std::unique_ptr<cybozu::CsvWriter> w; reported = threw([&] { w.reset(new cybozu::CsvWriter("/sim/t.csv", sep)); }); if (!reported) for (auto& r : t) { if (threw([&] { w->write(r.begin(), r.end()); })) { reported = true; break; } } h0 = hardFired(); }
	SIM_CHECK(!reported || hardFired(), "spurious-error", "writing failed although nothing went wrong");
	if (!reported && fs::get("/sim/t.csv") != rowsText(t, sep)) {
		SIM_CHECK(hardFired() > 0, "written-text", "the file does not hold the table although nothing went wrong");
		if (t.empty() && !fs::exists("/sim/t.csv")) return;
		SIM_CHECK(false, hardFired() > h0 ? "writer-close-loss" : "silent-loss", "rows are missing in the file and no error was reported");
	}
	disallowAll(); fs::diskLimit(-1); (void)bad;
	if (reported || !fs::exists("/sim/t.csv")) return; // an empty table whose file could not be created: the reader reports it
	allow("read.short", 0.7); allow("read.EINTR", 0.3, 10); if (chance(0.4)) allow("read.EIO", 0.2); if (chance(0.2)) allow("open.EMFILE", 0.5);
	std::unique_ptr<cybozu::CsvReader> rd; uint64_t f0 = fired("open.EMFILE");
	bool x = threw([&] { rd.reset(new cybozu::CsvReader("/sim/t.csv", sep)); });
	SIM_CHECK(x == (fired("open.EMFILE") > f0), "open-report", "opening the file %s", x ? "threw" : "returned although it failed");
	if (x) return;
	compare(*rd, t, [&] { return fired("read.EIO"); }, false);
	rd.reset(); SIM_CHECK(fs::openCount() == 0, "descriptor", "descriptor left open");
}
SCENARIO(missing, 0.3) { SIM_CHECK(threw([] { cybozu::CsvReader r("/sim/none.csv"); }), "open-report", "a missing file was accepted"); }
