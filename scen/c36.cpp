#include "common.h"
#define JOBS_OOM
SIM_PROPERTY("C36", "all value, container and parser classes of cybozu (jobs.h), zlib", "operator new (fails at a chosen call, for a while, or from then on)")
#include "jobs.h"
#include <cybozu/csucvector.hpp>
#include <deque>
#include <list>
// blocks that do not come from operator new: aligned arrays and formatted texts
static void *g_raw[1024]; static bool g_rawOn;
static void rawAdd(void *p) { if (g_rawOn && p) for (auto& x : g_raw) if (!x) { x = p; break; } }
static void rawDel(void *p) { if (g_rawOn && p) for (auto& x : g_raw) if (x == p) { x = 0; break; } }
extern "C" {
int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *); int __real_vasprintf(char **, const char *, va_list);
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (mem::failNow()) return 12; int r = __real_posix_memalign(p, a, n); if (r == 0) rawAdd(*p); return r; }
int __wrap_vasprintf(char **p, const char *f, va_list a) { if (mem::failNow()) { *p = (char *)0x10; return -1; } int r = __real_vasprintf(p, f, a); if (r >= 0) rawAdd(*p); return r; }
void __wrap_free(void *p) { rawDel(p); __real_free(p); }
}
static void track() { for (auto& x : g_raw) x = 0; g_rawOn = true; mem::track(); }
static void planRandom(uint64_t n) { uint64_t first = n ? choose((uint32_t)n) : 0, len = h::pickOf<uint64_t>({ 1, 1, 2, 5, 1000000000 }); mem::plan(first, len); ev("plan", (int64_t)first, (int64_t)len); }
static void checkLeak(const char *what) { size_t b, n = mem::live(&b); mem::untrack(); g_rawOn = false; for (void *x : g_raw) n += x != 0; if (n) fail((Str("leak:") + what).c_str(), "%s: %zu blocks (%zu bytes) are never freed after memory ran out", what, n, b); }
// a job that meets the end of memory either delivers its normal result or reports
SCENARIO(jobs, 4)
{
	preemptOff(); int j = (int)choose(JN); uint32_t seed = choose(1000000); const Job& J = g_jobs[j]; ev(J.name, seed);
	Str want; uint64_t n;
	{ Quiet q; R r(seed); want = J.fn(r); }
	mem::plan(~0ull, 0); { NoFault nf; } { R r(seed); Str x = J.fn(r); } n = mem::endPlan();
	track(); planRandom(n);
	bool threw = false, same = false; g_reported = false;
	try { R r(seed); Str got = J.fn(r); same = got == want; } catch (std::exception&) { threw = true; } catch (...) { threw = true; }
	uint64_t f = mem::failed(); mem::endPlan();
	if (f == 0) SIM_CHECK(!threw && same, "unstable", "job %s with seed %u gives another result the second time", J.name, seed);
	if (!threw && !same && !g_reported) fail((Str("wrong-result:") + J.name).c_str(), "job %s with seed %u delivers a wrong result and no error when an allocation fails", J.name, seed);
	checkLeak(J.name);
	Quiet q; R r(seed); if (J.fn(r) != want) fail((Str("lasting:") + J.name).c_str(), "job %s delivers another result after memory ran out once", J.name);
}
// ---- objects that live on: after a failing operation they hold what they held before
struct Obj { virtual ~Obj() {} virtual void op(int kind, uint32_t arg) = 0; virtual bool check() = 0; virtual void commit() = 0; virtual bool last() { return true; } const char *nm = ""; };
struct BitObj : Obj { // every operation gets its arguments from arg only, so that the model can repeat it
	cybozu::BitVector v; std::vector<bool> m; int k; uint32_t a; BitObj() { nm = "BitVector"; }
	void op(int kind, uint32_t arg) override { k = kind % 5; a = arg; R r(a); switch (k) { case 4: { cybozu::BitVector d; uint64_t b[8]; for (auto& x : b) x = ((uint64_t)r() << 32) | r(); d.append(b, r(512)); if (r(2)) v = d; else { cybozu::BitVector e(d); v.extract(e, 0, std::min<size_t>(v.size(), 100)); } break; } case 0: { uint64_t w = ((uint64_t)r() << 32) | r(); v.append(w, 1 + r(64)); break; } case 1: { uint64_t b[8]; for (auto& x : b) x = ((uint64_t)r() << 32) | r(); v.append(b, r(512)); break; } case 2: v.resize(r(600)); break; default: { cybozu::BitVector d; uint64_t w = ((uint64_t)r() << 32) | r(); d.append(w, 40); v.append(d); } } }
	void commit() override { R r(a); auto put = [&](uint64_t w, size_t n) { for (size_t i = 0; i < n; i++) m.push_back(w >> i & 1); }; switch (k) { case 4: { uint64_t b[8]; for (auto& x : b) x = ((uint64_t)r() << 32) | r(); size_t n = r(512); if (r(2)) { m.clear(); for (size_t i = 0; i < n; i += 64) put(b[i / 64], std::min<size_t>(64, n - i)); } break; } case 0: { uint64_t w = ((uint64_t)r() << 32) | r(); put(w, 1 + r(64)); break; } case 1: { uint64_t b[8]; for (auto& x : b) x = ((uint64_t)r() << 32) | r(); size_t n = r(512); for (size_t i = 0; i < n; i += 64) put(b[i / 64], std::min<size_t>(64, n - i)); break; } case 2: m.resize(r(600)); break; default: { uint64_t w = ((uint64_t)r() << 32) | r(); put(w, 40); } } }
	bool check() override { if (v.size() != m.size() || v.getBlockSize() != (m.size() + 63) / 64) return false; for (size_t i = 0; i < m.size(); i++) if (v.get(i) != m[i]) return false; return true; }
};
template<class PT> struct SpObj : Obj {
	typedef cybozu::nlp::SparseVector<double, PT> V; V v; std::vector<std::pair<size_t, double>> m; uint32_t a; int k; SpObj() { nm = "SparseVector"; }
	size_t nextPos() { R r(a); static const uint32_t gap[] = { 1, 5, 63, 64, 65, 5000, 16384, 3000000, 4194304 }; return (m.empty() ? 0 : m.back().first) + gap[r(9)]; }
	void op(int kind, uint32_t arg) override { a = arg; k = kind % 8; if (k == 7) { V e; e.push_back(3, 1.5); V t(v); t.swap(v); if (m.size() % 2) e = v; if (a % 2) { V u; other(u); if (a & 2) v.swap(u); else v = u; } return; } v.push_back(nextPos(), a % 1000 * 0.5); }
	template<class C> void other(C& c) { size_t p = 0; for (uint32_t i = 0; i < a % 40; i++) c.push_back(p += 1 + i * 7, i + 0.5); }
	struct Ref { std::vector<std::pair<size_t, double>>& m; void push_back(size_t p, double v) { m.push_back(std::make_pair(p, v)); } };
	void commit() override { if (k == 7 && a % 2) { m.clear(); Ref f{ m }; other(f); } if (k != 7) m.push_back(std::make_pair(nextPos(), a % 1000 * 0.5)); }
	bool check() override { size_t i = 0; if (v.size() != m.size()) return false; for (typename V::const_iterator p = v.begin(), e = v.end(); p != e; ++p, ++i) if (p->pos() != m[i].first || p->val() != m[i].second) return false; return i == m.size(); }
};
struct StrObj : Obj {
	cybozu::String s; std::u32string m; uint32_t a; int k; StrObj() { nm = "String"; }
	template<class S> static S word(R& r) { S w; static const uint32_t t[] = { 'a', 'Z', 0x3042, 0x10437, ' ' }; for (int i = 0, n = 1 + r(20); i < n; i++) w += (typename S::value_type)t[r(5)]; return w; }
	template<class S> void act(S& x) { R r(a); S w = word<S>(r); uint32_t p = r((uint32_t)x.size() + 1), n = r(10); switch (k) { case 0: x += w; break; case 1: x.insert(p, w); break; case 2: x.replace(p, n, w); break; case 3: x.erase(p, n); break; case 4: x = w; break; case 5: x.append(w, 1, n); break; case 6: x.push_back((typename S::value_type)'q'); break; case 7: { S y(x); y += w; x.swap(y); break; } case 8: { S& z = x; x = z; break; } case 9: { S& z = x; x.assign(z, p, n); break; } case 10: x.assign(n, (typename S::value_type)'k'); break; default: { S& z = x; x += z; if (x.size() > 500) x.resize(20); } } }
	// the same text in another form: UTF-8, UTF-16, UTF-32, a range, or a part of the string itself
	void other() { R r(a); std::u32string w = word<std::u32string>(r); Str u; cybozu::String16 h; std::list<char> l; typedef cybozu::String::BasicString B; B b; { NoFault nf; for (auto c : w) { cybozu::string::AppendUtf8(u, (cybozu::Char)c); cybozu::string::AppendUtf16(h, (cybozu::Char)c); b += (cybozu::Char)c; } l.assign(u.begin(), u.end()); }
		uint32_t p = r((uint32_t)s.size() + 1), q = p + r((uint32_t)(s.size() - p) + 1); switch (k) { case 12: s.append(u); break; case 13: s.append(u.c_str()); break; case 14: s.append(h.c_str()); break; case 15: s.append(l.begin(), l.end()); break; case 16: s.append(b.data(), b.size()); break; case 17: s += u; break; case 18: s.assign(u); break; case 19: s = u.c_str(); break; case 20: s.assign(h.c_str()); break; case 21: s.assign(l.begin(), l.end()); break; case 22: s.assign(b.data(), b.size()); break; case 23: s.append(s.begin() + p, s.begin() + q); break; case 24: s.assign(s.begin() + p, s.begin() + q); break; case 25: s.insert(s.begin() + p, l.begin(), l.end()); break; default: s.replace(s.begin() + p, s.begin() + q, l.begin(), l.end()); } }
	void other2() { R r(a); std::u32string w = word<std::u32string>(r); uint32_t p = r((uint32_t)m.size() + 1), q = p + r((uint32_t)(m.size() - p) + 1); if (k <= 17) m += w; else if (k <= 22) m = w; else if (k == 23) m += m.substr(p, q - p); else if (k == 24) m = m.substr(p, q - p); else if (k == 25) m.insert(p, w); else m.replace(p, q - p, w); if (m.size() > 600) { m.resize(20); s.resize(20); } }
	void op(int kind, uint32_t arg) override { a = arg; k = kind % 27; if (k < 12) act(s); else other(); }
	void commit() override { if (k < 12) act(m); else other2(); }
	bool check() override { if (s.size() != m.size()) return false; for (size_t i = 0; i < m.size(); i++) if ((uint32_t)s[i] != (uint32_t)m[i]) return false; return true; }
};
struct FreqObj : Obj {
	cybozu::Frequency<Str, uint32_t> f; std::map<Str, uint32_t> m; uint32_t a; FreqObj() { nm = "Frequency"; }
	Str key() { R r(a); return r.word(1 + r(2)) + "a long enough key to be allocated"; }
	void op(int, uint32_t arg) override { a = arg; f.append(key()); }
	void commit() override { m[key()]++; }
	bool check() override { for (auto& x : m) if (f.getFrequency(x.first) != x.second) return false; f.ready(); if (f.size() != m.size()) return false; uint32_t prev = ~0u; for (size_t i = 0; i < f.size(); i++) { uint32_t c = f.getFrequency(f.getElement(i)); if (c > prev || !m.count(f.getElement(i)) || f.getIndex(f.getElement(i)) != i) return false; prev = c; } return true; }
};
struct SerObj : Obj { // a document that grows
	Str buf; std::unique_ptr<cybozu::StringOutputStream> os; std::vector<Str> m; uint32_t a; SerObj() { nm = "serialized list"; }
	void op(int, uint32_t arg) override { a = arg; R r(a); Str w = r.word(r(60)); Str t; cybozu::StringOutputStream o(t); cybozu::save(o, w); buf += t; }
	void commit() override { R r(a); m.push_back(r.word(r(60))); }
	bool check() override { cybozu::StringInputStream is(buf); for (auto& w : m) { Str x; cybozu::load(x, is); if (x != w) return false; } char c; return is.readSome(&c, 1) == 0; }
};
struct CfgObj : Obj { // a configuration that grows by append
	cybozu::Config::Section c; std::map<Str, Str> m; uint32_t a; CfgObj() { nm = "Config::Section"; }
	Str key() { R r(a); return "a_key_that_is_long_enough_" + std::to_string(r(200)); }
	Str val() { R r(a); r(); return r.word(40); }
	void op(int, uint32_t arg) override { a = arg; if (m.count(key())) return; c.append(key(), val()); }
	void commit() override { m.insert(std::make_pair(key(), val())); }
	bool check() override { return c.getMap() == m; }
};
struct TopObj : Obj { // the best scores; setSize starts a new table
	cybozu::nlp::TopScore<int> t; size_t mx = 10; std::vector<int> sc; uint32_t a; int k; TopObj() { nm = "TopScore"; }
	void op(int kind, uint32_t arg) override { a = arg; k = kind % 6; t.add((int)(a % 50), (int)(a % 50)); }
	void commit() override { sc.push_back((int)(a % 50)); }
	bool check() override { std::vector<int> z(sc); std::sort(z.rbegin(), z.rend()); auto& b = t.getTable(); if (b.size() != std::min(mx, z.size())) return false; for (size_t i = 0; i < b.size(); i++) if (b[i].score != z[i] || b[i].idx != z[i]) return false; return true; }
};
struct OptObj : Obj { // the options of a program, defined one by one
	struct V { int kind; Str name; int i; bool b; std::vector<int> v; Str s; };
	cybozu::Option o; std::list<V> l; V *pend = 0; int mode = 0; bool broken = false; // mode: an optional or variable parameter exists
	OptObj() { nm = "Option"; }
	void op(int kind, uint32_t arg)
	{
		Str name, help; { Quiet q; pend = 0; kind %= 7; if (mode && kind >= 4) kind = 0; name = "o" + std::to_string(l.size()) + (arg % 2 ? Str(20, 'x') : Str()); help = Str(arg % 3 ? 0 : 30, 'h'); l.push_back(V{ kind, name, 0, false, {}, Str() }); }
		V& v = l.back();
		try {
			switch (kind) { case 0: o.appendOpt(&v.i, 1, name.c_str(), help); break; case 1: o.appendBoolOpt(&v.b, name.c_str(), help); break; case 2: o.appendVec(&v.v, name.c_str(), help); break; case 3: o.appendMust(&v.i, name.c_str(), help); break; case 4: o.appendParam(&v.s, name.c_str(), help); break; case 5: o.appendParamOpt(&v.s, "none", name.c_str(), help); break; default: o.appendParamVec(&v.v, name.c_str(), help); }
		} catch (std::bad_alloc&) { Quiet q; dead.splice(dead.end(), l, --l.end()); throw; } catch (std::exception&) { broken = true; }
		pend = &v;
	}
	std::list<V> dead; // a variable whose definition failed stays where it is
	void commit() { if (pend && pend->kind >= 5) mode = 1; }
	bool check() { return !broken; }
	bool last() // a definition is for one parse
	{
		std::vector<Str> a(1, "prog"); int k = 0, vals = 0;
		for (V& v : l) if (v.kind == 4 || v.kind == 5) a.push_back("p" + std::to_string(k++)); else if (v.kind == 6) { a.push_back("7"); a.push_back("8"); v.v.clear(); }
		for (V& v : l) { if (v.kind >= 4) continue; a.push_back("-" + v.name); if (v.kind == 0 || v.kind == 3) a.push_back(std::to_string(100 + vals++)); else if (v.kind == 1) v.b = false; else { v.v.clear(); a.push_back("5"); a.push_back("6"); } }
		std::vector<const char*> av; for (Str& x : a) av.push_back(x.c_str());
		if (!o.parse((int)av.size(), &av[0])) return false;
		k = vals = 0;
		for (V& v : l) switch (v.kind) { case 0: case 3: if (v.i != 100 + vals++) return false; break; case 1: if (!v.b) return false; break; case 2: if (v.v != std::vector<int>{ 5, 6 }) return false; break; case 6: if (v.v != std::vector<int>{ 7, 8 }) return false; break; default: if (v.s != "p" + std::to_string(k++)) return false; }
		Str miss = "-o" + std::to_string(l.size()), missx = miss + Str(20, 'x'); // not defined (or its definition failed)
		for (const Str& m : { miss, missx }) { const char *u[] = { "prog", m.c_str(), "1" }; if (o.parse(3, u)) return false; }
		return true;
	}
};
SCENARIO(objects, 3)
{
	preemptOff(); std::unique_ptr<Obj> o; int which = (int)choose(9);
	for (int warm = 1; warm >= 0; warm--) {
	if (!warm) track(); // whatever is set up once at the first use is not a leak
	switch (which) { case 0: case 1: o.reset(new BitObj); break; case 2: o.reset(new SpObj<cybozu::nlp::option::PositionTbl>); break; case 3: o.reset(new SpObj<cybozu::nlp::option::CompressedPositionTbl>); break; case 4: o.reset(new StrObj); break; case 6: o.reset(new CfgObj); break; case 7: o.reset(new TopObj); break; case 8: o.reset(new OptObj); break; default: o.reset(new FreqObj); }
	if (warm) { Quiet q; for (int i = 0; i < 8; i++) { o->op(i, i * 7 + 1); o->commit(); o->check(); } o.reset(); }
	}
	int n = range(1, 20); const char *nm = o->nm; ev(nm, n);
	for (int i = 0; i < n; i++) {
		int kind = (int)choose(64); uint32_t arg = choose(1000000); bool f = chance(0.4); if (f) planRandom(h::pickOf<uint64_t>({ 3, 5, 15, 60 })); ev("op", kind, arg, f);
		bool threw = false; uint64_t failed;
		try { o->op(kind, arg); } catch (std::bad_alloc&) { threw = true; }
		failed = f ? mem::failed() : 0; mem::endPlan();
		SIM_CHECK(!threw || failed, "spurious-error", "%s: an operation failed although there is memory", nm);
		Quiet q; if (!threw) o->commit();
		if (!o->check()) fail((Str("content:") + nm).c_str(), "%s: after an operation that %s the content is wrong", nm, threw ? "failed for lack of memory (and should have changed nothing)" : "succeeded");
	}
	{ Quiet q; if (!o->last()) fail((Str("content:") + nm).c_str(), "%s: after all operations the content is wrong", nm); }
	o.reset(); checkLeak(nm);
}
// ---- objects that are built in one step: after a failure they can be built again
template<class F, class G> static void rebuild(const char *nm, F build, G ok)
{
	ev(nm); uint64_t n; { Quiet q; build(); if (!ok()) fail((Str("build:") + nm).c_str(), "%s: wrong answers without any failure", nm); }
	track(); mem::plan(~0ull, 0); build(); n = mem::endPlan();
	for (int i = 0, k = range(1, 3); i < k; i++) {
		planRandom(n); bool threw = false; try { build(); } catch (std::exception&) { threw = true; } uint64_t f = mem::failed(); mem::endPlan();
		SIM_CHECK(!threw || f, "spurious-error", "%s: building failed although there is memory", nm);
		if (!threw) { Quiet q; if (!ok()) fail((Str("hidden:") + nm).c_str(), "%s: built without an error although memory ran out, and gives wrong answers", nm); }
	}
	Quiet q; build(); if (!ok()) fail((Str("rebuild:") + nm).c_str(), "%s: built again after a failure it gives wrong answers", nm);
}
SCENARIO(builders, 3)
{
	preemptOff(); R r(choose(1000000)); int kind = (int)choose(8); const char *nm = "";
	switch (kind) {
	case 0: { nm = "SucVector"; size_t n = 1 + r(2000); std::vector<uint64_t> w((n + 63) / 64); for (size_t i = 0; i < n; i++) if (r(3) == 0) w[i / 64] |= 1ull << (i % 64); cybozu::SucVector v;
		rebuild(nm, [&] { v.init(&w[0], n); }, [&] { if (v.size() != n) return false; uint64_t c = 0; for (size_t i = 0; i < n; i++) { bool b = w[i / 64] >> (i % 64) & 1; if (v.get(i) != b || v.rank1(i) != c) return false; if (b && v.select1(c) != i) return false; c += b; } return v.size(true) == c; }); break; }
	case 1: { nm = "WaveletMatrix"; std::vector<uint8_t> s(1 + r(200)); for (auto& x : s) x = (uint8_t)r(16); cybozu::WaveletMatrix v;
		rebuild(nm, [&] { v.init(s, 4); }, [&] { std::map<int, size_t> c; for (size_t i = 0; i < s.size(); i++) { if (v.get(i) != s[i] || v.rank(s[i], i) != c[s[i]] || v.select(s[i], c[s[i]]) != i) return false; c[s[i]]++; } return v.size() == s.size(); }); break; }
	case 2: { nm = "FMindex"; Str t; for (int i = 0, n = 10 + r(60); i < n; i++) t += (char)('a' + r(3)); std::unique_ptr<cybozu::FMindex> f; Str k; for (int i = 0, n = 1 + r(3); i < n; i++) k += (char)('a' + r(3));
		rebuild(nm, [&] { f.reset(); f.reset(new cybozu::FMindex); f->init(t.begin(), t.end(), 3); }, [&] { size_t c = 0; for (size_t p = t.find(k); p != Str::npos; p = t.find(k, p + 1)) c++; size_t b, e; bool g = f->getRange(&b, &e, k); if (g != (c > 0)) return false; if (!g) return true; if (e - b != c) return false; for (; b < e; b++) if (t.compare(f->convertPosition(b), k.size(), k)) return false; return true; }); break; }
	case 3: { nm = "MiniXml"; Str c = r.word(30), t = "<?xml version=\"1.0\"?><a b=\"" + r.word(20) + "\"><c>" + c + "</c><d e='x'/></a>"; std::unique_ptr<cybozu::MiniXml> x;
		rebuild(nm, [&] { x.reset(); x.reset(new cybozu::MiniXml); x->parse(t.data(), t.data() + t.size()); }, [&] { const cybozu::minixml::Node *n = x->get().getFirstTagByName("c"); return n && n->content == c && x->get().getFirstTagByName("d"); }); break; }
	case 4: { nm = "Config"; Str v1 = r.word(30), t = "[other]\ntop=" + v1 + "\n[sec]\nkey=" + v1 + "x\n"; std::unique_ptr<cybozu::Config> c;
		rebuild(nm, [&] { c.reset(); c.reset(new cybozu::Config); std::istringstream is(t); c->load(is); }, [&] { const cybozu::Config::Section *s = c->querySection("sec"); const cybozu::Config::Section *u = c->querySection("other"); if (!s || !u) return false; Str a = s->getValue("key"), b = u->getValue("top"); return a == v1 + "x" && b == v1; }); break; }
	case 5: { nm = "CSucVector"; size_t n = 300 + r(2000); std::vector<uint64_t> w((n + 63) / 64); for (size_t i = 0; i < n; i++) if (r(20) == 0) w[i / 64] |= 1ull << (i % 64); cybozu::CSucVector v;
		rebuild(nm, [&] { v.init(&w[0], n); }, [&] { uint64_t c = 0; for (size_t i = 0; i < n; i++) { bool b = w[i / 64] >> (i % 64) & 1; if (v.get(i) != b || v.rank1(i) != c) return false; c += b; } return true; }); break; }
	case 6: { nm = "TopScore"; cybozu::nlp::TopScore<int> t(4); std::vector<int> sc; for (int i = 0, n = 1 + r(20); i < n; i++) sc.push_back((int)r(50)); size_t mx = 1 + r(8);
		rebuild(nm, [&] { t.setSize(mx); for (size_t i = 0; i < sc.size(); i++) t.add(sc[i], (int)i); }, [&] { std::vector<int> z(sc); std::sort(z.rbegin(), z.rend()); if (t.getTable().size() != std::min(mx, z.size())) return false; for (size_t i = 0; i < t.getTable().size(); i++) if (t.getTable()[i].score != z[i] || sc[t.getTable()[i].idx] != z[i]) return false; return true; }); break; }
	default: { nm = "Base64"; Str in = r.str(1 + r(100)), enc, dec;
		rebuild(nm, [&] { enc.clear(); dec.clear(); { cybozu::StringInputStream is(in); cybozu::StringOutputStream os(enc); cybozu::EncodeToBase64(os, is); } cybozu::StringInputStream is(enc); cybozu::StringOutputStream os(dec); cybozu::DecodeFromBase64(os, is); }, [&] { return dec == in; }); }
	}
	checkLeak(nm);
}
// readers keep their source and their object usable: after a failure nothing that was delivered is delivered twice
SCENARIO(copies, 1)
{
	preemptOff(); { Quiet q; cybozu::Exception e("a"); e << 5; } track();
	{
		R r(choose(1000000)); Str text; { Quiet q; text = "e:" + r.word(40); }
		std::unique_ptr<cybozu::Exception> e; { Quiet q; e.reset(new cybozu::Exception(text)); *e << 5; }
		planRandom(3); try { cybozu::Exception c(*e); cybozu::Exception d; d = c; *e << r.word(30); mem::endPlan(); } catch (std::bad_alloc&) { mem::endPlan(); }
		Quiet q; SIM_CHECK(Str(e->what()).compare(0, text.size(), text) == 0, "exception-text", "a copied error text changed");
	}
	checkLeak("Exception");
}
