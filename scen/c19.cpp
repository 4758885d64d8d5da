#include "streams.h"
#include <sstream>
#include <string>
#include <vector>
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/string.hpp>
#if __has_include("sais.hxx")
#include <cybozu/fmindex.hpp>
#define HAVE_FM
#endif
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/file.hpp>
SIM_PROPERTY("C19", "cybozu/sucvector.hpp, csucvector.hpp, wavelet_matrix.hpp, frequency.hpp, fmindex.hpp, string.hpp, nlp/sparse.hpp (save/load and all queries), serializer.hpp, stream.hpp", "byte sources and sinks (chunk sizes, failures, truncation), file system")
using namespace sim; using st::threw;
typedef std::string Str;
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static std::vector<uint64_t> bits(size_t *n)
{
	size_t b = chance(0.3) ? smallSize(70) : chance(0.7) ? choose(1500) : chance(0.03) ? 60000 + choose(60000) : 3000 + choose(3000); *n = b; std::vector<uint64_t> v((b + 63) / 64 + 1); Str r = bytes(v.size() * 8); int mode = (int)choose(4);
	for (size_t i = 0; i < v.size(); i++) { uint64_t x; memcpy(&x, &r[i * 8], 8); if (mode == 1) x = 0; if (mode == 2) x = ~0ull; if (mode == 3) x &= x >> 1 & x << 3; v[i] = x; }
	if (b % 64) v[b / 64] &= (1ull << (b % 64)) - 1; v.resize((b + 63) / 64); if (v.empty()) v.push_back(0);
	return v;
}
struct Item { const char *nm = ""; virtual ~Item() {} virtual void make() = 0; virtual void saveTo(st::Dst&) = 0; virtual void saveTo(std::ostream&) = 0; virtual void loadFrom(st::Src&) = 0; virtual void loadFrom(std::istream&) = 0; virtual void loadFrom(cybozu::File&) = 0; virtual void fresh() = 0; virtual bool same() = 0; };
template<class T, class D> struct Base : Item {
	T a; std::unique_ptr<T> b{ new T() };
	void saveTo(st::Dst& o) override { std::ostringstream os; D::put(os, a); Str s = os.str(); cybozu::write(o, s.data(), s.size()); }
	void saveTo(std::ostream& o) override { D::put(o, a); }
	void loadFrom(st::Src& i) override { D::take(*b, i); } void loadFrom(std::istream& i) override { D::take(*b, i); } void loadFrom(cybozu::File& i) override { D::take(*b, i); }
	void fresh() override { b.reset(new T()); }
	bool same() override { const D& me = static_cast<const D&>(*this); return D::digest(a, me) == D::digest(*b, me); }
	template<class O> static void put(O& o, const T& x) { x.save(o); }
	template<class I> static void take(T& x, I& i) { x.load(i); }
};
template<class SV, bool sel> struct Suc : Base<SV, Suc<SV, sel>> {
	void make() override { this->nm = "bit vector"; size_t n; auto v = bits(&n); this->a.init(v.data(), n); }
	static uint64_t digest(const SV& s, const Item&)
	{
		uint64_t h = mix(mix(s.size(), s.size(true)), s.size(false)); size_t st = s.size() > 50000 ? 997 : s.size() > 800 ? 7 : 1;
		for (uint64_t i = 0; i < s.size(); i += st) { h = mix(h, s.get(i)); h = mix(h, s.rank1(i)); h = mix(h, s.rank0(i)); if (sel) { h = mix(h, s.select1(i)); if (i < s.size(false)) h = mix(h, s.select0(i)); } }
		h = mix(h, s.rank1(s.size())); h = mix(h, s.rank1(s.size() + 100));
		SV t = s; bool refused = threw([&] { t.set(0); }); return mix(h, refused);
	}
};
struct CSuc : Base<cybozu::CSucVector, CSuc> {
	size_t n = 0;
	void make() override { nm = "compressed bit vector"; auto v = bits(&n); if (!n) { n = 64; v.assign(1, 5); } a.init(v.data(), n); }
	static uint64_t digest(const cybozu::CSucVector& s, const CSuc& me) { uint64_t h = 1; size_t st = me.n > 50000 ? 997 : me.n > 800 ? 7 : 1; for (size_t i = 0; i < me.n; i += st) h = mix(mix(h, s.get(i)), s.rank1(i)); h = mix(h, s.rank1(me.n)); return mix(h, threw([&] { s.get(me.n); })); }
};
template<bool sel> struct Wav : Base<cybozu::WaveletMatrixT<sel>, Wav<sel>> {
	typedef cybozu::WaveletMatrixT<sel> WM; int bl = 0;
	void make() override { this->nm = "wavelet matrix"; bl = range(1, chance(0.1) ? 8 : 6); std::vector<uint8_t> v; size_t n = chance(0.3) ? smallSize(20) : choose(chance(0.05) ? 6000 : 900); Str r = bytes(n); for (char c : r) v.push_back((uint8_t)c & ((1 << bl) - 1)); if (chance(0.2)) for (auto& x : v) x = x ? 1 : 0; if (v.empty()) v.push_back(0); this->a.init(v, bl); }
	static uint64_t digest(const WM& w, const Wav& me)
	{
		uint64_t h = w.size(), n = w.size(); size_t st = n > 2000 ? 97 : n > 200 ? 13 : 1; uint64_t mv = 1ull << me.bl;
		for (uint64_t i = 0; i < n; i += st) { h = mix(h, w.get(i)); uint32_t x; h = mix(h, w.get(&x, i)); h = mix(h, x); uint64_t v = (i * 7) % mv; h = mix(h, w.rank(v, i)); h = mix(h, w.rankLt(v, i)); }
		for (uint64_t v = 0; v < mv; v++) { uint64_t c = w.size(v); h = mix(h, c); h = mix(h, w.rankLt(v, n)); if (sel) for (uint64_t r = 0; r <= c; r += c > 300 ? 61 : c > 30 ? 11 : 1) h = mix(h, w.select(v, r)); }
		return h;
	}
};
template<class E> struct El { static E make() { return (E)choose(300); } };
template<> struct El<Str> { static Str make() { return bytes(smallSize(5)); } };
template<class E> struct Freq : Base<cybozu::Frequency<E>, Freq<E>> {
	typedef cybozu::Frequency<E> Fq; std::vector<E> el;
	void make() override { this->nm = "frequency table"; size_t n = chance(0.03) ? 300 + choose(600) : smallSize(60); for (size_t i = 0; i < n; i++) el.push_back(el.empty() || chance(0.5) ? El<E>::make() : el[choose((uint32_t)el.size())]); this->a.init(el.begin(), el.end()); }
	static uint64_t hs(const Str& s) { uint64_t h = s.size(); for (char c : s) h = mix(h, (uint8_t)c); return h; }
	template<class X> static uint64_t hs(const X& x) { return (uint64_t)x; }
	static uint64_t digest(const Fq& f, const Freq& me) { uint64_t h = f.size(); for (auto& e : me.el) { h = mix(h, f.getFrequency(e)); h = mix(h, f.getIndex(e)); } for (size_t i = 0; i < f.size(); i++) h = mix(h, hs(f.getElement(i))); return h; }
	template<class O> static void put(O& o, const Fq& x) { x.save(o); }
};
struct CStr : Base<cybozu::String, CStr> {
	void make() override { nm = "string"; size_t n = chance(0.1) ? choose(400) : smallSize(60); for (size_t i = 0; i < n; i++) a.push_back((cybozu::Char)(chance(0.9) ? 1 + choose(0xd000) : 0x10000 + choose(0x100000))); }
	static uint64_t digest(const cybozu::String& s, const Item&) { uint64_t h = s.size(); for (size_t i = 0; i < s.size(); i++) h = mix(h, (uint64_t)s[i]); return h; }
	template<class O> static void put(O& o, const cybozu::String& x) { cybozu::save(o, x); }
	template<class I> static void take(cybozu::String& x, I& i) { cybozu::load(x, i); }
};
#ifdef HAVE_FM
struct Fm : Base<cybozu::FMindex, Fm> {
	Str text;
	void make() override { nm = "FM-index"; size_t n = chance(0.03) ? 1 + choose(3000) : 1 + smallSize(300); Str r = bytes(n); int abc = chance(0.7) ? 5 : (int)range(1, 120); for (char c : r) text += (char)(1 + ((unsigned char)c % abc)); a.init(text.begin(), text.end(), (int)range(1, 10)); }
	static uint64_t digest(const cybozu::FMindex& f, const Fm& me)
	{
		uint64_t h = 3;
		for (size_t i = 0; i < me.text.size(); i += 1 + me.text.size() / 20) for (size_t l = 1; l < 4 && i + l <= me.text.size(); l++) {
			size_t b = 0, e = 0; bool ok = f.getRange(&b, &e, me.text.substr(i, l)); h = mix(mix(mix(h, ok), b), e);
			for (size_t k = b; ok && k < e && k < b + 5; k++) { h = mix(h, f.convertPosition(k)); Str s; f.getPrevString(s, k, 4); for (char c : s) h = mix(h, (uint8_t)c); }
		}
		size_t b, e; h = mix(h, f.getRange(&b, &e, Str("\x7f\x7f"))); return h;
	}
};
#endif
template<class T, class PT> struct Sparse : Base<cybozu::nlp::SparseVector<T, PT>, Sparse<T, PT>> {
	typedef cybozu::nlp::SparseVector<T, PT> V;
	void make() override { this->nm = "sparse vector"; fill(this->a); if (chance(0.5)) fill(*this->b); }
	static void fill(V& v) { size_t n = smallSize(20), p = choose(3); for (size_t i = 0; i < n && p < 0xF0000000u; i++) { v.push_back(p, (T)(1 + choose(1000)) / 4); p += 1 + h::pickOf<size_t>({ 0, 1, 61, 62, 63, 64, 200, 16382, 16383, 16384, 4194303, 4194304, 1000000000 }); } }
	static uint64_t digest(const V& v, const Item&) { uint64_t h = v.size(); for (typename V::const_iterator i = v.begin(), e = v.end(); i != e; ++i) { double d = (double)i->val(); uint64_t u; memcpy(&u, &d, 8); h = mix(mix(h, i->pos()), u); } return h; }
};
static Item *any()
{
	switch (pick({ 3, 2, 2, 3, 2, 2, 2, 2, 2, 2, 0.15, 1, 1 })) {
	case 11: return new Sparse<int, cybozu::nlp::option::PositionTbl>(); case 12: return new Sparse<double, cybozu::nlp::option::CompressedPositionTbl>();
	case 0: return new Suc<cybozu::SucVector, true>(); case 1: return new Suc<cybozu::SucVectorLt4G, true>(); case 2: return new Suc<cybozu::SucVectorT<uint32_t, false>, false>();
	case 3: return new Wav<true>(); case 4: return new Wav<false>(); case 5: return new Freq<uint8_t>(); case 6: return new Freq<int>(); case 7: return new Freq<Str>(); case 8: return new CStr();
	case 10: return new CSuc();
#ifdef HAVE_FM
	default: return new Fm();
#else
	default: return new Freq<uint16_t>();
#endif
	}
}
typedef std::vector<std::unique_ptr<Item>> Items;
static void build(Items& v, int n, std::vector<size_t>& end, Str& d) { NoFault nf; preemptOff(); st::Dst o; for (int i = 0; i < n; i++) { v.emplace_back(any()); v.back()->make(); v.back()->saveTo(o); end.push_back(o.d.size()); } d = o.d; }
template<class S> static void restore(S& s, Items& v, std::vector<size_t>& end, size_t av, std::function<uint64_t()> errors, std::function<size_t()> consumed)
{
	for (size_t i = 0; i < v.size(); i++) {
		uint64_t e0 = errors();
		try { v[i]->loadFrom(s); } catch (std::exception& e) { SIM_CHECK(errors() > e0 || end[i] > av, "spurious-error", "loading a complete %s failed: %s", v[i]->nm, e.what()); return; }
		SIM_CHECK(end[i] <= av, "truncation", "a truncated %s was loaded without an error", v[i]->nm);
		SIM_CHECK(errors() == e0, "error-hidden", "a stream failure was hidden while loading a %s", v[i]->nm);
		SIM_CHECK(consumed() == end[i], "position", "after loading a %s the stream is at %zu, its image ends at %zu", v[i]->nm, consumed(), end[i]);
		{ NoFault nf; SIM_CHECK(v[i]->same(), "round-trip", "a loaded %s answers differently from the original", v[i]->nm); }
	}
}
#define PREP Items v; std::vector<size_t> end; Str d; build(v, (int)range(1, 3), end, d); size_t av = chance(0.5) ? d.size() : chance(0.4) ? d.size() - 1 - choose((uint32_t)std::min<size_t>(d.size() - 1, 9)) : choose((uint32_t)d.size()); if (av < d.size()) noteFault("data.truncated"); Str c = d.substr(0, av)
SCENARIO(load_user, 4) { PREP; allow("src.short", 0.6); allow("src.error", 0.02); st::Src s(c); restore(s, v, end, av, [&] { return s.errors; }, [&] { return s.pos; }); }
SCENARIO(load_istream, 4) { PREP; allow("src.short", 0.6); allow("src.error", 0.02); st::In s(c); std::istream& is = s; restore(is, v, end, av, [&] { return s.sb.errors; }, [&] { return s.sb.consumed(); }); }
SCENARIO(load_file, 2) { PREP; fs::put("/sim/f", c); allow("read.short", 0.7); allow("read.EINTR", 0.4, 20); if (chance(0.5)) allow("read.EIO", 0.03); size_t k = 0; cybozu::File f("/sim/f", std::ios::in | std::ios::binary); restore(f, v, end, av, [&] { return fired("read.EIO"); }, [&] { return end[k++]; }); }
SCENARIO(save_failing, 3)
{
	Items v; std::vector<size_t> end; Str d; build(v, 1, end, d); allow("sink.error", 0.05); st::Out o; std::ostream& os = o;
	bool t = threw([&] { v[0]->saveTo(os); });
	SIM_CHECK(t == (o.sb.errors > 0), "save-report", "saving a %s %s", v[0]->nm, t ? "threw although the sink works" : "returned although the sink failed");
	SIM_CHECK(d.compare(0, o.sb.d.size(), o.sb.d) == 0 && (t || o.sb.d == d), "content", "wrong image of a %s", v[0]->nm);
}
