#ifdef LIBC_PREEMPT
#include "libc_preempt.h"
#endif
#include "common.h"
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/fmindex.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/bitvector.hpp>
#include <cybozu/string.hpp>
#include <cybozu/config.hpp>
#include <cybozu/minixml.hpp>
#include <cybozu/json.hpp>
#include <cybozu/option.hpp>
#include <cybozu/exception.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/top_score.hpp>
#include <sstream>
SIM_PROPERTY("C34", "cybozu/sucvector.hpp, csucvector.hpp, wavelet_matrix.hpp, fmindex.hpp, frequency.hpp, bitvector.hpp, string.hpp, config.hpp, minixml.hpp, json.hpp, option.hpp, exception.hpp, nlp/sparse.hpp, nlp/top_score.hpp", "thread scheduling")
using namespace sim;
typedef std::string Str;
// several threads query one object; q checks one answer
template<class F> static void readers(F q, int maxQueries = 10)
{
	int n = range(2, 3);
	for (int t = 0; t < n; t++) { int m = range(1, maxQueries); spawn("reader", [=] { for (int i = 0; i < m; i++) q(); }); }
	joinAll();
}
template<class T> static T *reload(T *p) // also after a save and load
{
	if (!chance(0.3)) return p;
	Quiet q; std::stringstream ss; p->save(ss); T *r = new T(); r->load(ss); delete p; return r;
}
struct Bits {
	std::vector<uint64_t> w; Str b; std::vector<uint32_t> rk, pos[2];
	Bits(size_t n, int mode, uint32_t seed) : w((n + 63) / 64), b(n, 0), rk(n + 1)
	{
		uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1; auto next = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 20); }; size_t run = 0; char cur = 0;
		for (size_t i = 0; i < n; i++) {
			switch (mode) { case 0: b[i] = next() & 1; break; case 1: b[i] = next() % 100 == 0; break; case 2: b[i] = next() % 100 != 0; break; case 3: b[i] = 0; break; case 4: b[i] = 1; break; default: if (run == 0) { run = 1 + next() % (mode == 5 ? 400 : 20000); cur = !cur; } run--; b[i] = cur; }
			if (b[i]) w[i / 64] |= 1ull << (i % 64); rk[i + 1] = rk[i] + (b[i] ? 1 : 0); pos[b[i] ? 1 : 0].push_back((uint32_t)i);
		}
	}
};
static Bits *randBits() { Quiet q; size_t n = h::pickOf<size_t>({ 1, 63, 64, 65, 255, 256, 257, 511, 1000, 2500, 5000 }); if (chance(0.4)) n = 1 + choose(3000); else if (chance(0.06)) n = 1 + choose(45000); else if (chance(0.01)) n = 60000 + choose(90000); return new Bits(n, (int)choose(7), choose(1000)); }
template<class V> static V *build(const Bits& b) { V *v = new V(); if (chance(0.5)) v->init(&b.w[0], b.b.size()); else { v->resize(b.b.size()); for (size_t i = 0; i < b.b.size(); i++) if (b.b[i]) v->set(i); v->ready(); } return v; }
template<class V> static void checkGetRank(const V& v, const Bits& b)
{
	size_t n = b.b.size(), p = chance(0.2) ? n : choose((uint32_t)n + 1); ev("query", (int64_t)p);
	if (p < n) SIM_CHECK(v.get(p) == (b.b[p] != 0), "get", "bit %zu of %zu", p, n);
	uint64_t r1 = v.rank1(p), r0 = v.rank0(p); SIM_CHECK(r1 == b.rk[p] && v.rank(true, p) == r1, "rank", "rank1(%zu) is %llu instead of %u", p, (unsigned long long)r1, b.rk[p]); SIM_CHECK(r0 == p - b.rk[p] && v.rank(false, p) == r0, "rank", "rank0(%zu) is %llu instead of %zu", p, (unsigned long long)r0, p - b.rk[p]);
}
template<class V> static void checkSelect(const V& v, const Bits& b)
{
	int c = (int)choose(2); if (b.pos[c].empty()) return; uint32_t k = choose((uint32_t)b.pos[c].size()); uint64_t s = c ? v.select1(k) : v.select0(k); ev("select", k); SIM_CHECK(s == b.pos[c][k] && v.select(c != 0, k) == s, "select", "select%d(%u) is %llu instead of %u", c, k, (unsigned long long)s, b.pos[c][k]);
	SIM_CHECK(v.select1(b.pos[1].size() + choose(5)) == cybozu::NotFound, "select", "a bit that does not exist was found");
}
template<class V, bool sel> static void suc()
{
	Bits *b = randBits(); V *v; { Quiet q; v = build<V>(*b); } v = reload(v); const V& c = *v; SIM_CHECK(c.size() == b->b.size() && c.size(true) == b->pos[1].size(), "size", "size %llu instead of %zu", (unsigned long long)c.size(), b->b.size());
	readers([=, &c] { if (!sel || chance(0.5)) checkGetRank(c, *b); else checkSelect(c, *b); }); delete v; delete b;
}

SCENARIO(sucvector, 4) { switch (choose(3)) { case 0: suc<cybozu::SucVectorT<uint32_t, true>, true>(); break; case 1: suc<cybozu::SucVectorT<uint64_t, true>, true>(); break; default: if (chance(0.5)) suc<cybozu::SucVectorT<uint32_t, false>, false>(); else suc<cybozu::SucVectorT<uint64_t, false>, false>(); } }
SCENARIO(csucvector, 2)
{
	Bits *b = randBits(); cybozu::CSucVector *v; { Quiet q; v = new cybozu::CSucVector(&b->w[0], b->b.size()); } v = reload(v); const cybozu::CSucVector& c = *v; readers([=, &c] { checkGetRank(c, *b); }); delete v; delete b;
}
SCENARIO(wavelet, 3)
{
	struct S { std::vector<uint16_t> v; size_t bl; cybozu::WaveletMatrix *w; }; S *s = new S; { Quiet q; s->bl = chance(0.1) ? range(9, 16) : range(1, 8); size_t n = h::pickOf<size_t>({ 1, 60, 256, 300, 700, 1500 }); if (chance(0.05)) n = 1 + choose(6000); else if (chance(0.004)) n = 65000 + choose(30000); Str r = bytes(n), r2 = s->bl > 8 ? bytes(n) : Str(n, 0); bool skew = chance(0.3); s->v.resize(n); for (size_t i = 0; i < n; i++) s->v[i] = (uint16_t)(((uint8_t)r[i] | (uint8_t)r2[i] << 8) % (skew ? 2 : 1u << s->bl)); s->w = new cybozu::WaveletMatrix(); s->w->init(s->v, s->bl); } s->w = reload(s->w);
	SIM_CHECK(s->w->size() == s->v.size(), "size", "%llu", (unsigned long long)s->w->size());
	readers([=] {
		const cybozu::WaveletMatrix& w = *s->w; uint32_t n = (uint32_t)s->v.size(), p = choose(n + 1); uint16_t val = chance(0.7) ? s->v[choose(n)] : (uint16_t)choose(1u << s->bl); uint64_t rk = 0, lt = 0; std::vector<uint32_t> at;
		{ Quiet q; for (uint32_t i = 0; i < n; i++) { if (i < p) { rk += s->v[i] == val; lt += s->v[i] < val; } if (s->v[i] == val) at.push_back(i); } }
		switch (choose(4)) { case 0: if (p < n) { SIM_CHECK(w.get(p) == s->v[p], "get", "value at %u", p); uint32_t x; uint64_t k = w.get(&x, p); uint64_t e = 0; { Quiet q; for (uint32_t i = 0; i < p; i++) e += s->v[i] == s->v[p]; } SIM_CHECK(x == s->v[p] && k == e, "get", "value and rank at %u", p); } break;
		case 1: { uint64_t r = w.rank(val, p); SIM_CHECK(r == rk, "rank", "rank(%u, %u) is %llu instead of %llu", val, p, (unsigned long long)r, (unsigned long long)rk); break; }
		case 2: { uint64_t r = w.rankLt(val, p); SIM_CHECK(r == lt, "rank", "rankLt(%u, %u) is %llu instead of %llu", val, p, (unsigned long long)r, (unsigned long long)lt); break; }
		default: { SIM_CHECK(w.size(val) == at.size(), "size", "number of %u", val); uint32_t k = choose((uint32_t)at.size() + 2); uint64_t r = w.select(val, k), e = k < at.size() ? at[k] : cybozu::NotFound; SIM_CHECK(r == e, "select", "select(%u, %u) is %llu instead of %llu", val, k, (unsigned long long)r, (unsigned long long)e); } } }, 5);
	delete s->w; delete s;
}
template<class FM, class Str, bool raw> static void fm(int top)
{
	struct S { Str t; FM *f; int abc, off; }; S *s = new S; { Quiet q; typedef typename Str::value_type Ch; size_t n = h::pickOf<size_t>({ 0, 1, 20, 100, 400 }); if (chance(0.05)) n = 1 + choose(3000); std::string r = bytes(n), r2 = bytes(n); s->abc = chance(0.8) ? (int)range(1, 4) : (int)range(5, top); s->off = chance(0.5) ? 1 : top - s->abc + 1; for (size_t i = 0; i < n; i++) s->t += (Ch)(s->off + ((uint8_t)r[i] << 8 | (uint8_t)r2[i]) % s->abc); s->f = new FM(); s->f->init(s->t.begin(), s->t.end(), chance(0.8) ? range(1, 9) : range(10, 70)); } s->f = reload(s->f);
	readers([=] {
		const FM& f = *s->f; Str key; { Quiet q; if (!s->t.empty() && chance(0.7)) { size_t p = choose((uint32_t)s->t.size()); key = s->t.substr(p, 1 + choose(chance(0.8) ? 4 : 40)); } else for (int i = 0, m = range(1, 3); i < m; i++) key += (typename Str::value_type)(s->off + choose(s->abc + (raw || s->off > 1 ? 0 : 1))); }
		std::set<size_t> want, got; { Quiet q; for (size_t p = s->t.find(key); p != Str::npos; p = s->t.find(key, p + 1)) want.insert(p); }
		size_t b = 0, e = 0; bool ok = f.getRange(&b, &e, key); ev("search", (int64_t)want.size()); SIM_CHECK(ok == !want.empty() && (!ok || e - b == want.size()), "search", "%zu occurrences of a key of %zu instead of %zu", ok ? e - b : 0, key.size(), want.size());
		if (!ok) return; size_t k = b + choose((uint32_t)(e - b)); size_t p = f.convertPosition(k); SIM_CHECK(want.count(p), "search", "the key is not at %zu", p); Str prev; size_t len = 1 + choose(6); f.getPrevString(prev, k, len); SIM_CHECK(prev == s->t.substr(p < len ? 0 : p - len, std::min(p, len)), "previous", "text before %zu", p); }, 3);
	delete s->f; delete s;
}
typedef std::basic_string<char16_t> Str16;
SCENARIO(fmindex, 3) { switch (choose(4)) { case 0: fm<cybozu::FMindexT<uint8_t, true>, std::basic_string<uint8_t>, true>(255); break; case 1: fm<cybozu::FMindexT<uint16_t>, std::basic_string<uint16_t>, false>(2000); break; default: fm<cybozu::FMindex, Str, false>(127); } }
template<class E, class F> static void freqOf(F gen)
{
	typedef cybozu::Frequency<E, uint32_t> Fr; struct S { std::map<E, uint32_t> m; Fr *f; std::vector<E> v; }; S *s = new S; { Quiet q; int n = (int)range(1, 60); bool all = sizeof(E) == 1 && chance(0.1); if (all) for (int i = (int)choose(2); i < 256; i++) { E e = gen(i); s->v.push_back(e); s->m[e]++; } for (int i = 0; i < n; i++) { E e = gen(-1); s->v.push_back(e); s->m[e]++; } s->f = new Fr(s->v.begin(), s->v.end()); } s->f = reload(s->f);
	SIM_CHECK(s->f->size() == s->m.size(), "size", "%zu elements instead of %zu", s->f->size(), s->m.size());
	readers([=] { const Fr& f = *s->f; E e = chance(0.8) ? s->v[choose((uint32_t)s->v.size())] : gen(-1); uint32_t w; { Quiet q; auto i = s->m.find(e); w = i == s->m.end() ? 0 : i->second; } uint32_t g = f.getFrequency(e); SIM_CHECK(g == w, "frequency", "%u instead of %u", g, w); if (w) { size_t k = f.getIndex(e); SIM_CHECK(k < s->m.size() && f.getElement(k) == e, "index", "index %zu", k); size_t o = choose((uint32_t)s->m.size()); uint32_t fo = f.getFrequency(f.getElement(o)); SIM_CHECK(o < k ? fo >= w : fo <= w, "order", "element %zu occurs %u times, element %zu %u times", o, fo, k, w); } });
	delete s->f; delete s;
}
SCENARIO(frequency, 2) { switch (choose(4)) { case 0: freqOf<char>([](int k) { return (char)(k >= 0 ? k : choose(2) ? choose(256) : choose(4)); }); break; case 1: freqOf<uint8_t>([](int k) { return (uint8_t)(k >= 0 ? k : choose(2) ? choose(256) : choose(4)); }); break; case 2: freqOf<uint16_t>([](int) { return (uint16_t)(choose(2) ? choose(65536) : choose(4)); }); break; default: freqOf<Str>([](int) { Quiet q; return Str(1 + choose(3), (char)('a' + choose(3))); }); } }
template<class T> static void bitv()
{
	typedef cybozu::BitVectorT<T> BV; const size_t U = sizeof(T) * 8; Bits *b = randBits(); BV *v; { Quiet q; v = new BV(); size_t n = b->b.size(), p = 0; if (chance(0.5)) { v->init((const T *)&b->w[0], n); } else while (p < n) { size_t z = std::min(n - p, (size_t)range(1, U)); uint64_t x = 0; for (size_t i = 0; i < z; i++) if (b->b[p + i]) x |= 1ull << i; v->append(x, z); p += z; } }
	const BV& c = *v; readers([=, &c] {
		size_t n = b->b.size(), p = choose((uint32_t)n), z = 1 + choose((uint32_t)std::min<size_t>(n - p, 200)); if (p + z > n) z = n - p; SIM_CHECK(c.get(p) == (b->b[p] != 0) && c.size() == n, "get", "bit %zu", p); size_t y = std::min<size_t>(z, U);
		uint64_t x = c.extract(p, y), w = 0; for (size_t i = 0; i < y; i++) if (b->b[p + i]) w |= 1ull << i; SIM_CHECK(x == w, "extract", "%zu bits at %zu", y, p);
		BV d; c.extract(d, p, z); SIM_CHECK(d.size() == z, "extract", "size %zu", d.size()); for (size_t i = 0; i < z; i++) SIM_CHECK(d.get(i) == (b->b[p + i] != 0), "extract", "bit %zu of %zu bits at %zu", i, z, p); });
	delete v; delete b;
}
SCENARIO(bitvector, 2) { switch (choose(4)) { case 0: bitv<uint8_t>(); break; case 1: bitv<uint32_t>(); break; default: bitv<uint64_t>(); } }
template<class PT> static void sparse()
{
	typedef cybozu::nlp::SparseVector<int, PT> V; struct S { V a, b; std::map<size_t, int> ma, mb; }; S *s = new S; { Quiet q; auto fill = [](V& v, std::map<size_t, int>& m) { int n = choose(12); size_t p = 0; for (int i = 0; i < n; i++) { p += (i ? 1 : 0) + h::pickOf<size_t>({ 0, 1, 5, 62, 63, 64, 16383, 16384, 4194304, 5000000 }); int x = 1 + (int)choose(100); v.push_back(p, x); m[p] = x; } }; fill(s->a, s->ma); if (chance(0.5)) fill(s->b, s->mb); else { for (auto& i : s->ma) if (chance(0.7)) { s->b.push_back(i.first, i.second); s->mb[i.first] = i.second; } } }
	readers([=] {
		const V& a = s->a; const V& b = s->b; typedef typename V::const_iterator It; ev("sparse", (int64_t)s->ma.size(), (int64_t)s->mb.size());
		switch (choose(5)) {
		case 0: { auto j = s->ma.begin(); for (It i = a.begin(), e = a.end(); i != e; ++i, ++j) SIM_CHECK(j != s->ma.end() && i->pos() == j->first && i->val() == j->second, "sparse", "element %zu", i->pos()); SIM_CHECK(j == s->ma.end() && a.size() == s->ma.size(), "sparse", "size"); break; }
		case 1: { double n = 0; for (auto& i : s->ma) n += (double)i.second * i.second; SIM_CHECK(a.norm() == n, "sparse", "norm %f instead of %f", a.norm(), n); break; }
		case 2: SIM_CHECK((a == b) == (s->ma == s->mb), "sparse", "equality"); break;
		case 3: { typedef cybozu::nlp::Intersection<V, V> X; X x(a, b); std::map<size_t, std::pair<int, int>> m, g; for (auto& i : s->ma) if (s->mb.count(i.first)) m[i.first] = { i.second, s->mb[i.first] }; for (typename X::const_iterator i = x.begin(), e = x.end(); i != e; ++i) g[i->pos()] = { i->val1(), i->val2() }; SIM_CHECK(m == g, "sparse", "intersection of %zu elements instead of %zu", g.size(), m.size()); break; }
		default: { typedef cybozu::nlp::Union<V, V> X; X x(a, b); std::map<size_t, std::pair<int, int>> m, g; for (auto& i : s->ma) m[i.first].first = i.second; for (auto& i : s->mb) m[i.first].second = i.second; for (typename X::const_iterator i = x.begin(), e = x.end(); i != e; ++i) g[i->pos()] = { i->val1(), i->val2() }; SIM_CHECK(m == g, "sparse", "union of %zu elements instead of %zu", g.size(), m.size()); } } }, 3);
	delete s;
}
SCENARIO(sparse, 3) { if (chance(0.5)) sparse<cybozu::nlp::option::PositionTbl>(); else sparse<cybozu::nlp::option::CompressedPositionTbl>(); }
SCENARIO(topscore, 1)
{
	typedef cybozu::nlp::TopScore<int> T; size_t mx = 1 + choose(5); T *t = new T(chance(0.5) ? mx : 1 + choose(3)); t->setSize(mx); auto *all = new std::vector<std::pair<int, int>>(); int id = 0;
	auto same = [=] { const T::Table& r = static_cast<const T *>(t)->getTable(); size_t n = std::min(mx, all->size()); SIM_CHECK(r.size() == n, "top", "%zu scores instead of %zu", r.size(), n); for (size_t i = 0; i < n; i++) SIM_CHECK(r[i].score == (*all)[i].first && r[i].idx == (*all)[i].second, "top", "place %zu is %d with score %f", i, r[i].idx, r[i].score); };
	for (int p = 0, n = range(1, 3); p < n; p++) { { Quiet q; for (int i = 0, m = choose(8); i < m; i++) { int sc = (int)choose(20); t->add(sc, id); all->push_back({ sc, id++ }); std::stable_sort(all->begin(), all->end(), [](const std::pair<int, int>& x, const std::pair<int, int>& y) { return x.first > y.first; }); } } readers(same, 2); }
	delete t; delete all;
}
// parsed documents and settings
SCENARIO(documents, 3)
{
	struct S { std::map<Str, Str> kv; cybozu::Config *c; cybozu::MiniXml *x; Str xml; }; S *s = new S; s->c = 0; s->x = 0; { Quiet q; int n = (int)range(1, 6); for (int i = 0; i < n; i++) s->kv["k" + std::to_string(i)] = std::to_string(choose(100000)); Str t = "[sec]\n"; s->xml = "<?xml version=\"1.0\"?>\n<root>"; for (auto& i : s->kv) { t += i.first + "=" + i.second + "\n"; s->xml += "<" + i.first + " a=\"" + i.second + "\">b" + i.second + "</" + i.first + ">"; } s->xml += "</root>"; std::istringstream is(t); s->c = new cybozu::Config(); s->c->load(is); s->x = new cybozu::MiniXml(); s->x->parse(s->xml.data(), s->xml.data() + s->xml.size()); }
	readers([=] {
		auto i = s->kv.begin(); std::advance(i, choose((uint32_t)s->kv.size())); const cybozu::Config& c = *s->c; const cybozu::Config::Section *sec = c.querySection("sec"); SIM_CHECK(sec, "config", "section not found");
		if (chance(0.5)) { const Str *v = sec->queryValue(i->first); SIM_CHECK(v && *v == i->second, "config", "%s", i->first.c_str()); int k = sec->getValue(i->first); SIM_CHECK(k == atoi(i->second.c_str()), "config", "%s=%d", i->first.c_str(), k); bool none = chance(0.3); int g = sec->getValue(none ? Str("none") : i->first, 77); SIM_CHECK(g == (none ? 77 : k), "config", "%d instead of %d", g, k); }
		else { const cybozu::minixml::Node& r = s->x->get(); const cybozu::minixml::Node *p = r.getFirstTagByName(i->first); SIM_CHECK(p, "xml", "%s not found", i->first.c_str()); SIM_CHECK(p->attr["a"] == i->second && p->content == "b" + i->second, "xml", "%s", i->first.c_str()); } }, 4);
	delete s->c; delete s->x; delete s;
}
// a tree of tags and a JSON value, against a plain model
struct Tag { Str name, text; std::map<Str, Str> at; std::vector<Tag *> kid; ~Tag() { for (Tag *k : kid) delete k; } };
static Tag *randTag(int depth)
{
	Tag *t = new Tag; t->name = Str(1, (char)('a' + choose(5))) + (chance(0.3) ? "1" : ""); for (int i = 0, n = (int)choose(3); i < n; i++) t->at[Str(1, (char)('p' + choose(3)))] = std::to_string(choose(1000)) + (chance(0.2) ? " x" : "");
	if (chance(0.5)) t->text = "t" + std::to_string(choose(100)) + (chance(0.3) ? " y" : ""); if (depth) for (int i = 0, n = (int)choose(4); i < n; i++) t->kid.push_back(randTag(depth - 1)); return t;
}
static void xmlText(const Tag& t, Str& o, bool plain) // plain: as the library writes it (no text)
{
	o += "<" + t.name; for (auto& i : t.at) { char q = plain || chance(0.7) ? '"' : '\''; o += (plain || chance(0.8) ? " " : "\n\t") + i.first + (plain || chance(0.8) ? "=" : " = ") + q + i.second + q; }
	if (!plain && t.text.empty() && t.kid.empty() && chance(0.5)) { o += " />"; return; } o += ">"; if (!plain) { if (chance(0.3)) o += "\n "; o += t.text; } for (Tag *k : t.kid) { xmlText(*k, o, plain); if (!plain && chance(0.2)) o += "\n"; } o += "</" + t.name + ">";
}
static const Tag *firstTag(const Tag& t, const Str& n) { if (t.name == n) return &t; for (Tag *k : t.kid) if (const Tag *r = firstTag(*k, n)) return r; return 0; }
static bool sameTag(const cybozu::minixml::Node& n, const Tag& t, const cybozu::minixml::Node *parent)
{
	if (n.name != t.name || n.content != t.text || n.parent != parent || n.child.size() != t.kid.size()) return false; for (auto& i : t.at) { const Str *v = n.attr.query(i.first); if (!v || *v != i.second) return false; }
	if (n.attr.query("none")) return false; size_t k = 0; for (auto *c : n.child) if (!sameTag(*c, *t.kid[k++], &n)) return false; return true;
}
SCENARIO(tree, 1)
{
	struct S { Tag *t; cybozu::MiniXml *x; Str plain; }; S *s = new S; { Quiet q; s->t = randTag(3); Str d = "<?xml version=\"1.0\"?>\n"; xmlText(*s->t, d, false); s->x = new cybozu::MiniXml(); s->x->parse(d.data(), d.data() + d.size()); s->plain = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>"; xmlText(*s->t, s->plain, true); }
	readers([=] { switch (choose(3)) { case 0: SIM_CHECK(sameTag(s->x->get(), *s->t, 0), "xml", "tree"); break; case 1: { Str n(1, (char)('a' + choose(6))); const Tag *w = firstTag(*s->t, n); const cybozu::minixml::Node *g = s->x->get().getFirstTagByName(n); SIM_CHECK(!w == !g && (!w || sameTag(*g, *w, g->parent)), "xml", "first %s", n.c_str()); break; } default: { std::ostringstream os; os << *s->x; SIM_CHECK(os.str() == s->plain, "xml", "text form"); } } }, 2);
	delete s->t; delete s->x; delete s;
}
static Str jsonShow(const cybozu::Json::Value& v)
{
	if (v.isNull()) return "null"; if (v.isString()) return "'" + v.getString() + "'"; if (v.isNumber()) return std::to_string(v.getNumber()); if (v.isBool()) return v.getBool() ? "true" : "false"; Str r;
	if (v.isArray()) { r = "["; for (auto& i : v.getArray()) r += jsonShow(i) + ","; return r + "]"; } if (v.isObject()) { r = "{"; for (auto& i : v.getObject()) r += i.first + ":" + jsonShow(i.second) + ","; return r + "}"; } return "?";
}
static cybozu::Json::Value jsonMake(int d, Str& t)
{
	typedef cybozu::Json J; switch (choose(d ? 6 : 4)) { case 0: t += "null"; return J::Value(); case 1: { Str x = "s" + std::to_string(choose(50)); t += "'" + x + "'"; return chance(0.5) ? J::Value(x) : J::Value(x.c_str()); } case 2: { double x = (double)choose(1000) / 4; t += std::to_string(x); return J::Value(x); } case 3: { bool x = chance(0.5); t += x ? "true" : "false"; return J::Value(x); }
	case 4: { J::Array a; t += "["; for (int i = 0, n = (int)choose(6); i < n; i++) { a.push_back(jsonMake(d - 1, t)); t += ","; } t += "]"; return J::Value(a); } default: { J::Object o; t += "{"; for (int i = 0, n = (int)choose(4); i < n; i++) { Str k(1, (char)('a' + i)); t += k + ":"; o[k] = jsonMake(d - 1, t); t += ","; } t += "}"; return J::Value(o); } }
}
SCENARIO(json, 1)
{
	struct S { cybozu::Json::Value v; Str t; }; S *s = new S; { Quiet q; s->v = jsonMake(3, s->t); }
	readers([=] { Str g = jsonShow(s->v); SIM_CHECK(g == s->t, "json", "%s instead of %s", g.c_str(), s->t.c_str()); cybozu::Json::Value c(s->v); g = jsonShow(c); SIM_CHECK(g == s->t, "json", "copy %s instead of %s", g.c_str(), s->t.c_str()); }, 2);
	delete s;
}
SCENARIO(strings, 2)
{
	struct S { cybozu::String s; Str u; }; S *s = new S; { Quiet q; for (int i = 0, n = (int)range(1, 20); i < n; i++) { cybozu::Char c = h::pickOf<cybozu::Char>({ 'a', 'b', 0x3042, 0x10437, 0xe9 }); s->s += c; } s->u = s->s.toUtf8(); }
	readers([=] { const cybozu::String& c = s->s; switch (choose(4)) { case 0: SIM_CHECK(c.toUtf8() == s->u, "string", "UTF-8 form"); break; case 1: { size_t p = choose((uint32_t)c.size()); SIM_CHECK(c.find(c[p]) <= p && c[c.find(c[p])] == c[p], "string", "find"); break; } case 2: { size_t p = choose((uint32_t)c.size()); cybozu::String t = c.substr(p); SIM_CHECK(t.size() == c.size() - p && c.find(t) <= p, "string", "substr"); break; } default: { cybozu::String t(s->u); SIM_CHECK(t == c && t.compare(c) == 0, "string", "comparison"); } } });
	delete s;
}
SCENARIO(errors, 1)
{
	cybozu::Exception *e; Str *want; { Quiet q; int n = (int)choose(1000); e = new cybozu::Exception("test:name"); *e << n << "text" << Str("more"); want = new Str("test:name:" + std::to_string(n) + ":text:more"); }
	readers([=] { const cybozu::Exception& c = *e; if (chance(0.5)) SIM_CHECK(*want == c.what(), "exception", "%s", c.what()); else SIM_CHECK(*want == c.toString(), "exception", "%s", c.what()); cybozu::Exception d(c); SIM_CHECK(*want == d.what(), "exception", "copy"); });
	delete e; delete want;
}
