#include "streams.h"
#include <cybozu/config.hpp>
#include <sstream>
SIM_PROPERTY("C22", "cybozu/config.hpp (Config load, toString, queries), libstdc++ file streams", "byte source (chunk sizes, failures), file system (short transfers, EINTR, errors)")
using namespace sim; using st::threw;
typedef std::string Str; typedef std::map<Str, std::map<Str, Str>> Model;
static Str name() { static const char c[] = "abcXYZ019_"; Str s; size_t n = range(1, 4); for (size_t i = 0; i < n; i++) s += c[choose(10)]; return s; }
static Str value() { Str s = chance(0.3) ? bytes(smallSize(300)) : bytes(smallSize(8)); for (char& c : s) if (c == '\n' || c == '\r') c = '='; if (chance(0.1)) s = " "; return s; }
// kinds of trouble
enum { NONE, NOEQ, DUP, BADKEY, BADSEC };
static Str text(Model& m, int bad)
{
	Str o, cur; m[""]; int n = range(0, 12); int where = bad ? (int)choose((uint32_t)n + 1) : -1; bool lastBare = chance(0.4) && !bad;
	for (int i = 0; i <= n; i++) {
		Str l; bool done = i == n;
		if (i == where) {
			if (bad == NOEQ) l = name();
			else if (bad == DUP) { Str k = name(); if (!m[cur].count(k)) { m[cur][k] = h::pickOf({ "1", "2", "" }); o += k + "=" + m[cur][k] + "\n"; if (chance(0.3)) o += "#\n" + Str(cur.empty() ? "" : "[" + cur + "]\n"); } l = k + "=" + (chance(0.4) ? m[cur][k] : Str("2")); }
			else if (bad == BADKEY) l = Str(h::pickOf({ "a b", "a-", ".x", "a\tb", "\xe3\x81" })) + "=v";
			else l = h::pickOf({ "[abc", "[a b]", "[a-]", "[abc] ", "[" });
			return o + l + (chance(0.5) ? "\n" : "") + (chance(0.5) ? "\nz=1\n" : "");
		}
		if (done) break;
		switch (pick({ 5, 2, 1, 1 })) {
		case 0: { Str k = name(); if (m[cur].count(k)) continue; Str v = value(); m[cur][k] = v; l = k + (chance(0.2) ? " \t" : "") + "=" + v; break; }
		case 1: { cur = name(); m[cur]; l = "[" + cur + "]"; break; }
		case 2: l = Str(chance(0.5) ? ";" : "#") + value(); break;
		default: l = ""; break;
		}
		o += l; if (i == n - 1 && lastBare && !l.empty()) break;
		o += chance(0.5) ? "\r\n" : "\n";
	}
	return o;
}
static void verify(const cybozu::Config& c, const Model& m)
{
	SIM_CHECK(c.getMap().size() == m.size(), "sections", "%zu sections loaded, expected %zu", c.getMap().size(), m.size());
	for (auto& s : m) {
		const cybozu::Config::Section *p = c.querySection(s.first); SIM_CHECK(p, "sections", "a section is missing");
		SIM_CHECK(p->getMap().size() == s.second.size(), "entries", "a section has %zu entries, expected %zu", p->getMap().size(), s.second.size());
		for (auto& e : s.second) { const Str *v = p->queryValue(e.first); SIM_CHECK(v && *v == e.second, "entries", "an entry is missing or has another value"); const Str& g = p->getValue(e.first); SIM_CHECK(g == e.second, "entries", "getValue differs"); }
		SIM_CHECK(!p->queryValue("no_such_key__"), "entries", "a key was invented");
	}
	SIM_CHECK(!c.querySection("no_such_section__"), "sections", "a section was invented");
}
static void outcome(bool threwIt, uint64_t errors, int bad, const cybozu::Config& c, const Model& m)
{
	SIM_CHECK(threwIt || errors == 0, "partial", "a read failure was not reported");
	SIM_CHECK(threwIt || !bad, "malformed-accepted", "a malformed configuration was accepted");
	SIM_CHECK(!threwIt || errors || bad, "spurious-error", "loading a correct configuration failed");
	if (threwIt) return;
	verify(c, m);
	cybozu::Config d; std::istringstream is(c.toString()); NoFault nf; d.load(is); verify(d, m);
}
static int trouble() { return chance(0.7) ? NONE : (int)range(NOEQ, BADSEC); }
SCENARIO(stream, 5) { st::sourceFaults(); int bad = trouble(); Model m; Str t = text(m, bad); st::In s(t); cybozu::Config c; bool x = threw([&] { c.load(s); }); outcome(x, s.sb.errors, bad, c, m); }
SCENARIO(file, 4)
{
	int bad = trouble(); Model m; Str t = text(m, bad); fs::put("/sim/c.ini", t); bool miss = chance(0.05);
	allow("read.short", 0.7); allow("read.EINTR", 0.4, 20); if (chance(0.5)) { allow("read.EIO", 0.3); allow("open.EACCES", 0.2); }
	std::unique_ptr<cybozu::Config> c; bool x = threw([&] { if (chance(0.5)) c.reset(new cybozu::Config(miss ? "/sim/no.ini" : "/sim/c.ini")); else { c.reset(new cybozu::Config()); c->load(Str(miss ? "/sim/no.ini" : "/sim/c.ini")); } });
	if (miss) { SIM_CHECK(x, "missing-file", "a missing file was loaded"); } else if (!c) SIM_CHECK(x && (bad || fired("read.EIO") + fired("open.EACCES") > 0), "spurious-error", "loading a correct configuration failed"); else {
		outcome(x, fired("read.EIO") + fired("open.EACCES"), bad, *c, m);
		if (!x && chance(0.2)) { NoFault nf; SIM_CHECK(threw([&] { c->load(Str("/sim/no.ini")); }), "missing-file", "a missing file was loaded into a filled configuration"); verify(*c, m); }
	}
	c.reset(); SIM_CHECK(fs::openCount() == 0, "descriptor", "a descriptor was left open");
}
