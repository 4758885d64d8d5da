#include "streams.h"
#include <vector>
#include <list>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <cybozu/serializer.hpp>
#include <cybozu/file.hpp>
SIM_PROPERTY("C18", "cybozu/serializer.hpp, cybozu/stream.hpp, cybozu/file.hpp as a stream", "byte sources and sinks (chunk sizes, failures, truncation), file system, allocator")
using namespace sim; using st::threw;
typedef std::string Str;
struct User { int a = 0; Str s; std::vector<short> v; template<class I> void load(I& is) { cybozu::load(a, is); cybozu::load(s, is); cybozu::load(v, is); } template<class O> void save(O& os) const { cybozu::save(os, a); cybozu::save(os, s); cybozu::save(os, v); } bool operator==(const User& r) const { return a == r.a && s == r.s && v == r.v; } };
template<class T> static T num()
{
	static const uint64_t edge[] = { 0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x87, 0x88, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull };
	uint64_t x = chance(0.6) ? edge[choose(21)] : ((uint64_t)choose(0x7fffffff) << 33 ^ choose(0x7fffffff)) >> choose(60);
	if (chance(0.3)) x = ~x; else if (chance(0.3)) x = (uint64_t)(-(int64_t)x);
	return (T)x;
}
static void gen(bool& x) { x = chance(0.5); }
static void gen(char& x) { x = num<char>(); }
static void gen(unsigned char& x) { x = num<unsigned char>(); }
static void gen(short& x) { x = num<short>(); }
static void gen(unsigned short& x) { x = num<unsigned short>(); }
static void gen(wchar_t& x) { x = (wchar_t)num<int>(); }
static void gen(int& x) { x = num<int>(); }
static void gen(unsigned& x) { x = num<unsigned>(); }
static void gen(long& x) { x = num<long>(); }
static void gen(unsigned long& x) { x = num<unsigned long>(); }
static void gen(long long& x) { x = num<long long>(); }
static void gen(unsigned long long& x) { x = num<unsigned long long>(); }
static void gen(float& x) { x = (float)num<int>() / 7; }
static void gen(double& x) { x = (double)num<long>() / 3; }
static size_t cnt() { return chance(0.05) ? 120 + choose(20) : chance(0.02) ? 250 + choose(20) : smallSize(6); }
static void gen(Str& x) { size_t n = chance(0.1) ? 100 + choose(300) : smallSize(20); x = bytes(n); }
static void gen(User& x) { gen(x.a); gen(x.s); size_t n = smallSize(4); x.v.clear(); for (size_t i = 0; i < n; i++) { short s; gen(s); x.v.push_back(s); } }
template<class T> static void gen(std::vector<T>& x);
template<class T> static void gen(std::list<T>& x);
template<class T> static void genc(T& x) { x.clear(); size_t n = cnt(); for (size_t i = 0; i < n; i++) { typename T::value_type t; gen(t); x.push_back(t); } }
template<class T> static void gen(std::vector<T>& x) { genc(x); }
template<class T> static void gen(std::list<T>& x) { genc(x); }
template<class T> static void gen(std::deque<T>& x) { genc(x); }
template<class T> static void gen(std::set<T>& x) { size_t n = cnt(); for (size_t i = 0; i < n; i++) { T t; gen(t); x.insert(t); } }
template<class K, class V> static void gen(std::map<K, V>& x) { size_t n = cnt(); for (size_t i = 0; i < n; i++) { K k; V v; gen(k); gen(v); x[k] = v; } }
template<class K, class V> static void gen(std::unordered_map<K, V>& x) { size_t n = cnt(); for (size_t i = 0; i < n; i++) { K k; V v; gen(k); gen(v); x[k] = v; } }

struct Item { virtual ~Item() {} virtual void make() = 0; virtual void saveTo(st::Dst&) = 0; virtual void saveTo(std::ostream&) = 0; virtual void saveTo(cybozu::File&) = 0; virtual void loadFrom(st::Src&) = 0; virtual void loadFrom(std::istream&) = 0; virtual void loadFrom(cybozu::File&) = 0; virtual bool same() = 0; virtual void dirty() = 0; const char *nm = ""; };
template<class T> struct ItemT : Item {
	T a{}, b{}; bool clears;
	ItemT(const char *n, bool c) : clears(c) { nm = n; }
	void make() override { gen(a); }
	void saveTo(st::Dst& o) override { cybozu::save(o, a); } void saveTo(std::ostream& o) override { cybozu::save(o, a); } void saveTo(cybozu::File& o) override { cybozu::save(o, a); }
	void loadFrom(st::Src& i) override { cybozu::load(b, i); } void loadFrom(std::istream& i) override { cybozu::load(b, i); } void loadFrom(cybozu::File& i) override { cybozu::load(b, i); }
	bool same() override { return a == b; }
	void dirty() override { if (clears) gen(b); }
};
static Item *any()
{
	Quiet q;
	switch (choose(30)) {
#define X(i, clears, ...) case i: return new ItemT<__VA_ARGS__>(#__VA_ARGS__, clears);
	X(0, true, bool) X(1, true, char) X(2, true, unsigned char) X(3, true, short) X(4, true, unsigned short) X(5, true, wchar_t) X(6, true, int) X(7, true, unsigned) X(8, true, long) X(9, true, unsigned long)
	X(10, true, long long) X(11, true, unsigned long long) X(12, true, float) X(13, true, double) X(14, true, Str) X(15, true, User) X(16, true, std::vector<int>) X(17, true, std::vector<Str>) X(18, true, std::list<User>) X(19, true, std::deque<uint64_t>)
	X(20, false, std::set<int>) X(21, false, std::set<Str>) X(22, false, std::map<Str, int>) X(23, false, std::map<int, std::vector<Str>>) X(24, false, std::unordered_map<int, Str>) X(25, false, std::unordered_map<Str, uint64_t>) X(26, true, std::vector<std::vector<short>>) X(27, true, std::vector<std::list<Str>>)
	X(28, true, std::vector<double>) default: return new ItemT<std::list<std::list<unsigned char>>>("list<list<unsigned char>>", true);
	}
}
typedef std::vector<std::unique_ptr<Item>> Items;
static Items items(int n) { Items v; for (int i = 0; i < n; i++) { v.emplace_back(any()); v.back()->make(); if (chance(0.3)) v.back()->dirty(); } return v; }
static Str image(Items& v, std::vector<size_t>& end) { NoFault q; st::Dst o; for (auto& x : v) { x->saveTo(o); end.push_back(o.d.size()); } return o.d; }
template<class S> static void restore(S& s, Items& v, std::vector<size_t>& end, size_t avail, std::function<uint64_t()> errors, std::function<size_t()> consumed)
{
	for (size_t i = 0; i < v.size(); i++) {
		uint64_t e0 = errors(); uint64_t a0 = fired("alloc");
		try { v[i]->loadFrom(s); } catch (std::exception& e) {
			SIM_CHECK(errors() > e0 || fired("alloc") > a0 || end[i] > avail, "spurious-error", "loading a complete %s failed: %s", v[i]->nm, e.what());
			return;
		}
		SIM_CHECK(end[i] <= avail, "truncation", "a truncated %s was loaded without an error", v[i]->nm);
		SIM_CHECK(errors() == e0, "error-hidden", "a stream failure was hidden while loading %s", v[i]->nm);
		{ NoFault q; SIM_CHECK(v[i]->same(), "round-trip", "a %s was not restored", v[i]->nm); }
		SIM_CHECK(consumed() == end[i], "position", "after loading %s the stream is at %zu, its encoding ends at %zu", v[i]->nm, consumed(), end[i]);
	}
}
static size_t cutAt(const Str& d) { return d.empty() || chance(0.5) ? d.size() : chance(0.4) ? d.size() - 1 - choose((uint32_t)std::min<size_t>(d.size(), 9)) : choose((uint32_t)d.size()); }
#define PREP Items v = items(range(1, 4)); std::vector<size_t> end; Str d = image(v, end); size_t av = std::min(cutAt(d), d.size()); if (av < d.size()) noteFault("data.truncated"); Str c = d.substr(0, av)
SCENARIO(load_user, 4) { PREP; st::sourceFaults(); st::Src s(c); if (chance(0.2)) allow("alloc", 0.05); restore(s, v, end, av, [&] { return s.errors; }, [&] { return s.pos; }); disallowAll(); }
SCENARIO(load_istream, 4) { PREP; st::sourceFaults(); st::In s(c); std::istream& is = s; restore(is, v, end, av, [&] { return s.sb.errors; }, [&] { return s.sb.consumed(); }); }
SCENARIO(load_file, 2)
{
	PREP; fs::put("/sim/f", c); allow("read.short", 0.7); allow("read.EINTR", 0.4, 20); if (chance(0.5)) allow("read.EIO", 0.05);
	size_t k = 0; cybozu::File f("/sim/f", std::ios::in | std::ios::binary); restore(f, v, end, av, [&] { return fired("read.EIO"); }, [&] { return end[k++]; });
}
// saving through a failing sink
template<class O> static void saving(O& o, Items& v, const Str& d, std::vector<size_t>& end, std::function<uint64_t()> errors, std::function<Str()> got)
{
	for (size_t i = 0; i < v.size(); i++) {
		uint64_t e0 = errors(); bool t = threw([&] { v[i]->saveTo(o); });
		SIM_CHECK(t == (errors() > e0), "save-report", "saving %s %s", v[i]->nm, t ? "threw although the sink works" : "returned although the sink failed");
		Str g = got();
		SIM_CHECK(g == d.substr(0, g.size()), "content", "wrong bytes saved");
		if (t) return;
		SIM_CHECK(g.size() == end[i], "content", "after saving %s the sink has %zu bytes, expected %zu", v[i]->nm, g.size(), end[i]);
	}
}
SCENARIO(save_user, 2) { Items v = items(range(1, 4)); std::vector<size_t> end; Str d = image(v, end); st::sinkFaults(); st::Dst o; saving(o, v, d, end, [&] { return o.errors; }, [&] { return o.d; }); }
SCENARIO(save_ostream, 2) { Items v = items(range(1, 4)); std::vector<size_t> end; Str d = image(v, end); st::sinkFaults(); st::Out o; std::ostream& os = o; saving(os, v, d, end, [&] { return o.sb.errors; }, [&] { return o.sb.d; }); }
SCENARIO(save_file, 2)
{
	Items v = items(range(1, 4)); std::vector<size_t> end; Str d = image(v, end); allow("write.short", 0.6); allow("write.EINTR", 0.4, 20); if (chance(0.4)) allow("write.EIO", 0.1); if (chance(0.4)) fs::diskLimit(range(0, 200));
	cybozu::File f("/sim/f", std::ios::out); saving(f, v, d, end, [&] { return fired("write.EIO") + fired("disk.full"); }, [&] { return fs::get("/sim/f"); });
}
// POD helpers
SCENARIO(pods, 1)
{
	st::sourceFaults(); std::vector<int> v, w; gen(v); double x = num<int>() / 3.0, y = 0; st::Dst o; cybozu::savePodVec(o, v); cybozu::savePod(o, x); Str zs; gen(zs); for (char& e : zs) if (!e) e = 1; if (chance(0.3)) zs.resize(std::min<size_t>(zs.size(), choose(3))); const char *z = zs.c_str(); cybozu::save(o, z); std::vector<uint16_t> r(choose(20)); for (auto& e : r) e = num<uint16_t>(); cybozu::saveRange(o, r.data(), r.size());
	size_t cut = cutAt(o.d); st::Src s(o.d.substr(0, cut)); Str zz; std::vector<uint16_t> rr(r.size());
	bool t = threw([&] { cybozu::loadPodVec(w, s); cybozu::loadPod(y, s); cybozu::load(zz, s); cybozu::loadRange(rr.data(), rr.size(), s); });
	SIM_CHECK(t == (s.errors > 0 || cut < o.d.size()), "pod-report", "loading PODs %s", t ? "threw" : "returned");
	if (!t) SIM_CHECK(v == w && x == y && zz == z && r == rr, "round-trip", "PODs not restored");
}
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
// an integer too wide for the variable it is loaded into is reported, not cut
template<class T> static void narrow(long long x)
{
	st::Dst o; cybozu::save(o, x); st::Src s(o.d); T y{};
	if (!threw([&] { cybozu::load(y, s); })) fail("too-wide", "%lld was loaded into a %zu byte integer as %lld", x, sizeof(T), (long long)y);
}
SCENARIO(wide, 0.5)
{
	long long x = num<long long>(); if ((long long)(int)x == x || (long long)(unsigned)x == x) return;
	st::sourceFaults(); disallow("src.error");
	if (chance(0.5)) narrow<int>(x); else narrow<unsigned>(x);
}
#endif
