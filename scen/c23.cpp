#include "common.h"
#include <vector>
#include <sys/mman.h>
#include <cybozu/random_generator.hpp>
SIM_PROPERTY("C23", "cybozu/random_generator.hpp (RandomGenerator, shuffle)", "random device (contents, short reads, EINTR, EIO, end of file, open failures), thread scheduling")
using namespace sim;
typedef cybozu::RandomGenerator RG;
static uint64_t hard() { return fired("read.EIO") + fired("urandom.eof") + fired("read.EINTR") + fired("open.EMFILE") + fired("open.EACCES") + fired("open.EINTR"); }
static void faults()
{
	allow("read.short", 0.7);
	if (chance(0.6)) { allow("read.EINTR", 0.3, 10); allow("read.EIO", 0.3); allow("urandom.eof", 0.3); }
}
// one request; returns false when it reported failure
template<class T> static bool fill(RG& g, std::string& out, size_t num, char pat)
{
	out.assign(num * sizeof(T) + 16, pat);
	std::vector<T> v(num + 2); memset(v.data(), pat, v.size() * sizeof(T));
	uint64_t f0 = hard(); bool ok = true; T *p = v.data() + 1;
	switch (choose(2)) {
	case 0: { bool b = chance(0.5); g.read(&b, p, num); ok = b; break; }
	default: try { g.read(p, num); } catch (cybozu::Exception&) { ok = false; }
	}
	SIM_CHECK(ok || hard() > f0 || fired("urandom.eof"), "spurious-failure", "a request for %zu bytes failed although the source works", num * sizeof(T));
	for (size_t i = 0; i < sizeof(T); i++) SIM_CHECK(((char *)v.data())[i] == pat && ((char *)(p + num))[i] == pat, "overrun", "bytes outside the buffer were changed");
	out.assign((char *)p, num * sizeof(T));
	return ok;
}
static bool request(RG& g, std::string& out)
{
	char pat = (char)h::pickOf({ 0, 0xa5, 0xff }); size_t n = smallSize(h::pickOf({ 9, 64, 3000, 9000 }));
	switch (choose(6)) {
	case 0: return fill<uint8_t>(g, out, n, pat);
	case 1: return fill<uint16_t>(g, out, n / 2 + 1, pat);
	case 2: return fill<uint32_t>(g, out, n / 4 + 1, pat);
	case 3: return fill<uint64_t>(g, out, n / 8 + 1, pat);
	default: {
		uint64_t f0 = hard(); bool w = chance(0.5); uint64_t x = 0; size_t m = w ? 8 : 4;
		try { if (w) x = g.get64(); else { uint32_t y = chance(0.5) ? g.get32() : g(); memcpy(&x, &y, 4); } }
		catch (cybozu::Exception&) { SIM_CHECK((hard() > f0 || fired("urandom.eof")), "spurious-failure", "get failed although the source works"); return false; }
		out.assign((char *)&x, m); return true;
	}
	}
}
SCENARIO(sequential, 5)
{
	faults(); size_t pos = 0; int gens = range(1, 2);
	for (int k = 0; k < gens; k++) {
		RG g; int n = range(1, 12);
		for (int i = 0; i < n; i++) {
			std::string out; if (!request(g, out)) continue;
			size_t p = urandLog().find(out, pos);
			SIM_CHECK(p != std::string::npos, "not-random", "%zu bytes were returned that are not fresh bytes of the random source", out.size());
			pos = p + out.size();
		}
	}
	SIM_CHECK(fs::openFiles() == 0 && fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptor of the random device not released exactly once");
}
SCENARIO(shared, 4)
{
	allow("read.short", 0.7, 40); if (chance(0.5)) { allow("read.EIO", 0.2); allow("urandom.eof", 0.2); allow("read.EINTR", 0.2, 5); }
	RG *g = new RG(); int nt = range(2, 4), n = range(1, 6); auto *all = new std::vector<std::pair<std::string, uint64_t>>();
	for (int t = 0; t < nt; t++) spawn("reader", [=] {
		for (int i = 0; i < n; i++) {
			std::string out; uint64_t r0 = urandReads();
			size_t m = range(16, 48); { NoFault q; out.resize(m); } bool ok = true; uint64_t f0 = hard();
			g->read(&ok, &out[0], m);
			if (!ok) { SIM_CHECK((hard() > f0 || fired("urandom.eof")), "spurious-failure", "a request failed although the source works"); continue; }
			Quiet q; all->push_back({ out, urandReads() - r0 });
		}
	});
	joinAll(); Quiet q;
	const std::string& log = urandLog(); std::map<std::string, int> src, got;
	for (size_t i = 0; i + 6 <= log.size(); i++) src[log.substr(i, 6)]++;
	for (auto& o : *all) {
		size_t miss = 0;
		for (size_t i = 0; i + 6 <= o.first.size(); i++) { std::string w = o.first.substr(i, 6); auto it = src.find(w); if (it == src.end()) { miss++; continue; } SIM_CHECK(++got[w] <= it->second, "duplicate", "bytes of the random source were handed out twice"); }
		SIM_CHECK(miss <= 6 * (o.second + 1), "not-random", "a buffer of %zu bytes holds bytes that did not come from the source", o.first.size());
	}
	delete g; delete all;
	SIM_CHECK(fs::openFiles() == 0 && fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptor of the random device not released exactly once");
}
SCENARIO(open_failure, 1)
{
	allow("open.EMFILE", 0.6); allow("open.EACCES", 0.4);
	for (int i = range(1, 4); i > 0; i--) {
		uint64_t f0 = hard(); bool x = false; std::string out;
		try { RG g; if (hard() == f0) fill<uint8_t>(g, out, 20, 1); else { bool b = true; uint8_t c[8]; g.read(&b, c, 8); x = !b; } } catch (cybozu::Exception&) { x = true; }
		SIM_CHECK(x == (hard() > f0), "open-report", "no random device, but the generator %s", x ? "failed without reason" : "works");
	}
	SIM_CHECK(fs::openFiles() == 0 && fs::openCount() == 0, "descriptor", "descriptor leaked");
}
// sizes beyond 2 GB: reported or filled, never a wild read
SCENARIO(huge, 0.2)
{
	size_t n = h::pickOf({ (size_t)0x7fffffff, (size_t)0x80000000, (size_t)0x80000001, (size_t)0x100000008ull, (size_t)0xffffffff }) & ~(size_t)7;
	char *p = (char *)mmap(nullptr, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return;
	urandGiveUp(2000); // an implementation that reads in small pieces would take too long here
	RG g; bool ok = true; uint64_t *q = (uint64_t *)p; g.read(&ok, q, n / 8);
	if (ok) { bool z = true; for (int i = 0; i < 32; i++) if (p[n - 1 - i]) z = false; SIM_CHECK(!z, "not-random", "the end of a buffer of %zu bytes was not filled", n); }
	for (int i = 0; i < 64; i++) SIM_CHECK(p[n + i] == 0, "overrun", "bytes behind a buffer of %zu bytes were changed", n);
}
// shuffle yields a permutation
SCENARIO(permutation, 1)
{
	faults(); RG g; size_t n = smallSize(40); std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = (int)i;
	uint64_t f0 = hard();
	try { if (chance(0.5)) cybozu::shuffle(v, g); else cybozu::shuffle(v.data(), n, g); } catch (cybozu::Exception&) { SIM_CHECK((hard() > f0 || fired("urandom.eof")), "spurious-failure", "shuffle failed although the source works"); }
	std::sort(v.begin(), v.end()); for (size_t i = 0; i < n; i++) SIM_CHECK(v[i] == (int)i, "shuffle", "shuffle lost or repeated an element");
}
