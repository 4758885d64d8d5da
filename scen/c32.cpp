#include "common.h"
#include <cybozu/array.hpp>
#include <cybozu/json.hpp>
#include <cybozu/format.hpp>
#include <stdlib.h>
#include <string>
SIM_PROPERTY("C32", "cybozu/array.hpp (AlignedArray, ScopedArray, AlignedMalloc), cybozu/json.hpp (Value), cybozu/format.hpp", "memory allocation (posix_memalign, operator new and vasprintf may fail at any call)")
using namespace sim;
// aligned blocks and formatted texts are counted
static std::set<void *> *g_blocks; static int g_badFree;
extern "C" {
int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *); int __real_vasprintf(char **, const char *, va_list);
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
	if (!g_blocks) return __real_posix_memalign(p, a, n);
	if (fault("posix_memalign.ENOMEM")) return 12;
	ev("memalign", (int64_t)n); if (n > (1u << 30)) return 12; // no such amount of memory
	int r = __real_posix_memalign(p, a, n); if (r == 0) { Quiet q; NoFault f; memset(*p, 0xa5, n); g_blocks->insert(*p); } return r;
}
int __wrap_vasprintf(char **p, const char *f, va_list a)
{
	if (g_blocks && fault("vasprintf.ENOMEM")) { *p = (char *)0x10; return -1; }
	int r = __real_vasprintf(p, f, a); if (g_blocks && r >= 0) { Quiet q; NoFault n; g_blocks->insert(*p); } return r;
}
void __wrap_free(void *p) { if (g_blocks && p) { Quiet q; g_blocks->erase(p); } __real_free(p); }
}
struct Track { Track() { NoFault f; g_blocks = new std::set<void *>; } void done(const char *what) { SIM_CHECK(g_blocks->empty(), "leak", "%zu blocks of %s are never freed", g_blocks->size(), what); } };
// model-based program over several arrays
template<class T, size_t N, bool DC> static void program()
{
	typedef cybozu::AlignedArray<T, N, DC> A; Track tr; allow("posix_memalign.ENOMEM", 0.4);
	struct Slot { std::unique_ptr<A> a; std::vector<T> m; std::vector<bool> known; }; Slot s[3];
	auto check = [&](int i, const char *what) {
		Quiet q; A& a = *s[i].a; auto& m = s[i].m; SIM_CHECK(a.size() == m.size() && a.empty() == m.empty(), "size", "%s: size %zu, expected %zu", what, a.size(), m.size());
		SIM_CHECK((size_t)(a.end() - a.begin()) == m.size() && a.data() == a.begin(), "range", "%s: begin/end do not match the size", what);
		if (!m.empty()) SIM_CHECK((uintptr_t)a.data() % N == 0, "alignment", "%s: not aligned to %zu", what, N);
		for (size_t k = 0; k < m.size(); k++) if (s[i].known[k]) SIM_CHECK(a[k] == m[k] && ((const A&)a).begin()[k] == m[k], "content", "%s: element %zu changed", what, k);
	};
	for (int i = 0; i < 3; i++) { NoFault f; s[i].a.reset(new A()); }
	uint32_t next = 1; int n = range(1, 25);
	for (int op = 0; op < n; op++) {
		int i = choose(3), j = choose(3); uint64_t f0 = fired("posix_memalign.ENOMEM"); bool threw = false, huge = false; const char *what = "";
		auto fill = [&](int k) { Quiet q; for (size_t z = 0; z < s[k].m.size(); z++) if (!s[k].known[z]) { s[k].m[z] = (T)next; (*s[k].a)[z] = (T)next++; s[k].known[z] = true; } };
		int kind = (int)choose(9); ev("op", kind, i, j);
		switch (kind) {
		case 0: case 1: { what = "resize"; size_t z = smallSize(40); bool c = chance(0.5), dflt = chance(0.3); if (dflt) c = DC;
			try { if (dflt) s[i].a->resize(z); else s[i].a->resize(z, c); } catch (std::bad_alloc&) { threw = true; }
			if (!threw) { NoFault q; size_t o = s[i].m.size(); s[i].m.resize(z); s[i].known.resize(z); for (size_t k = o; k < z; k++) s[i].known[k] = c; } break; }
		case 2: what = "copy assignment"; try { *s[i].a = *s[j].a; } catch (std::bad_alloc&) { threw = true; } if (!threw) { NoFault q; auto m = s[j].m; auto kn = s[j].known; s[i].m = m; s[i].known = kn; } break;
		case 3: { what = "copy construction"; A *p = 0; try { p = new A(*s[j].a); } catch (std::bad_alloc&) { threw = true; } if (!threw) { NoFault q; s[i].a.reset(p); auto m = s[j].m; auto kn = s[j].known; s[i].m = m; s[i].known = kn; } break; }
		case 4: { what = "construction"; size_t z = smallSize(30); bool c = chance(0.5); A *p = 0; try { p = new A(z, c); } catch (std::bad_alloc&) { threw = true; } if (!threw) { NoFault q; s[i].a.reset(p); s[i].m.assign(z, T()); s[i].known.assign(z, c); } break; }
		case 5: what = "swap"; s[i].a->swap(*s[j].a); std::swap(s[i].m, s[j].m); std::swap(s[i].known, s[j].known); break;
		case 6: what = "move"; if (i != j) { if (chance(0.5)) { *s[i].a = std::move(*s[j].a); } else { A *p = new A(std::move(*s[j].a)); s[i].a.reset(p); } s[i].m.swap(s[j].m); s[i].known.swap(s[j].known); s[j].m.clear(); s[j].known.clear(); } break;
		case 7: what = "clear"; s[i].a->clear(); s[i].m.clear(); s[i].known.clear(); break;
		default: { what = "huge resize"; huge = true; size_t z = h::pickOf<size_t>({ SIZE_MAX / sizeof(T) + 1, SIZE_MAX / sizeof(T) + 5, SIZE_MAX / 2 + 2, SIZE_MAX, SIZE_MAX / sizeof(T), (size_t)1 << 40 }); if (z < (1u << 30)) z = SIZE_MAX;
			try { s[i].a->resize(z, false); } catch (std::bad_alloc&) { threw = true; } SIM_CHECK(threw, "impossible", "an array of %zu elements of %zu bytes was created", z, sizeof(T)); } }
		SIM_CHECK(threw == (fired("posix_memalign.ENOMEM") > f0) || huge, "report", "%s %s", what, threw ? "failed without a reason" : "ignored that there is no memory");
		if (chance(0.7)) { fill(i); }
		for (int k = 0; k < 3; k++) check(k, what);
	}
	for (int i = 0; i < 3; i++) s[i].a.reset();
	tr.done("arrays"); disallowAll();
}
SCENARIO(aligned, 5) { preemptOff(); switch (choose(4)) { case 0: program<uint32_t, 16, true>(); break; case 1: program<uint8_t, 32, false>(); break; case 2: program<uint64_t, 64, true>(); break; default: program<double, 16, false>(); } }
// elements are constructed and destroyed exactly once
struct Elem { static int live, made, limit; int v; Elem() : v(7) { if (made == limit) throw 5; made++; live++; } ~Elem() { live--; } };
int Elem::live, Elem::made, Elem::limit;
SCENARIO(scoped, 1)
{
	preemptOff(); size_t n = smallSize(30); ev("n", (int64_t)n); Elem::live = Elem::made = 0; Elem::limit = chance(0.3) ? (int)choose(31) : -1; allow("alloc", 0.3); bool threw = false, oom = false;
	try { cybozu::ScopedArray<Elem> a(n); NoFault q; SIM_CHECK(a.size() == n && Elem::live == (int)n && (size_t)(a.end() - a.begin()) == n && a.empty() == (n == 0), "scoped", "%d elements for %zu", Elem::live, n); for (size_t i = 0; i < n; i++) SIM_CHECK(a[i].v == 7, "scoped", "element not constructed"); } catch (int) { threw = true; } catch (std::bad_alloc&) { oom = true; }
	SIM_CHECK(Elem::live == 0, "leak", "%d elements are never destroyed", Elem::live); SIM_CHECK(threw == (!oom && Elem::limit >= 0 && Elem::limit < (int)n), "report", "the failing constructor was not reported"); SIM_CHECK(oom == (fired("alloc") > 0), "report", "failing allocation not reported");
}
// formatting
SCENARIO(fmt, 1)
{
	preemptOff(); Track tr; allow("vasprintf.ENOMEM", 0.4); allow("alloc", 0.3);
	for (int i = 0, n = range(1, 6); i < n; i++) {
		std::string w, out; { NoFault q; w = std::string(smallSize(300), (char)('a' + choose(20))); out = "old"; } int v = (int)choose(100000); uint64_t f0 = firedTotal(); bool threw = false; bool ret = chance(0.5); ev("op", ret, (int64_t)w.size(), v);
		try { if (ret) out = cybozu::format("%s:%d", w.c_str(), v); else cybozu::format(out, "%s:%d", w.c_str(), v); } catch (std::exception&) { threw = true; }
		NoFault q; bool f = firedTotal() > f0; SIM_CHECK(!threw || f, "report", "formatting failed without a reason"); SIM_CHECK(threw || out == w + ":" + std::to_string(v), "format", "wrong text"); if (f) SIM_CHECK(threw, "report", "a failing allocation was ignored"); 
	}
	tr.done("formatted texts");
}
// JSON values: deep copies that are independent, also if a copy fails half way
typedef cybozu::Json J;
static std::string show(const J::Value& v)
{
	if (v.isNull()) return "n"; if (v.isString()) return "s" + v.getString(); if (v.isBool()) return v.getBool() ? "t" : "f"; if (v.isNumber()) return "d" + std::to_string(v.getNumber());
	std::string r; if (v.isArray()) { r = "["; for (auto& x : v.getArray()) r += show(x) + ","; return r + "]"; }
	r = "{"; for (auto& x : v.getObject()) r += x.first + "=" + show(x.second) + ","; return r + "}";
}
static J::Value gen(int d)
{
	switch (choose(d > 0 ? 6 : 4)) { case 0: return J::Value(); case 1: return J::Value(std::string(choose(30), 'x')); case 2: return J::Value(chance(0.5)); case 3: return J::Value((double)choose(1000));
	case 4: { J::Array a; for (int i = 0, n = choose(4); i < n; i++) a.push_back(gen(d - 1)); return J::Value(a); }
	default: { J::Object o; for (int i = 0, n = choose(4); i < n; i++) o[std::string(1 + choose(20), (char)('a' + i))] = gen(d - 1); return J::Value(o); } }
}
SCENARIO(json, 2)
{
	preemptOff(); int n = range(1, 12); J::Value s[3]; std::string m[3]; allow("alloc", 0.15); { NoFault q; for (int i = 0; i < 3; i++) { s[i] = gen(3); m[i] = show(s[i]); } }
	for (int op = 0; op < n; op++) {
		int i = choose(3), j = choose(3); uint64_t f0 = fired("alloc"); bool threw = false; 
		int kind = (int)choose(3); ev("op", kind, i, j); try { switch (kind) { case 0: s[i] = s[j]; break; case 1: { J::Value t(s[j]); t.swap(s[i]); break; } default: { J::Array a; a.push_back(s[j]); a.push_back(s[i]); J::Value t(a); s[i] = t.getArray()[0]; } } } catch (std::bad_alloc&) { threw = true; }
		NoFault q; SIM_CHECK(threw == (fired("alloc") > f0), "report", "failing allocation %s", threw ? "invented" : "ignored"); if (!threw) m[i] = m[j];
		for (int k = 0; k < 3; k++) SIM_CHECK(show(s[k]) == m[k], "json", "value %d is %s, expected %s", k, show(s[k]).c_str(), m[k].c_str());
	}
}
