#include "common.h"
#include <cybozu/atomic.hpp>
SIM_PROPERTY("C04", "cybozu/atomic.hpp (AtomicAdd, AtomicCompareExchange, AtomicExchange, mfence on 4- and 8-byte types)", "thread scheduling (preemption at every memory access)")
using namespace sim;

// history of one word, checked for linearizability against the documented sequential meaning
struct Op { int kind; uint64_t a, b, ret; uint64_t inv, res; };
static bool lin(const std::vector<Op>& h, uint32_t done, uint64_t v, uint64_t mask, uint64_t fin, std::set<std::pair<uint32_t, uint64_t>>& seen)
{
	if (done == (1u << h.size()) - 1) return v == fin;
	if (!seen.insert({ done, v }).second) return false;
	uint64_t minRes = ~0ull;
	for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minRes = std::min(minRes, h[i].res);
	for (size_t i = 0; i < h.size(); i++) {
		if ((done >> i & 1) || h[i].inv > minRes) continue;
		const Op& o = h[i];
		if (o.ret != v) continue;
		uint64_t nv = o.kind == 0 ? (v + o.a) & mask : o.kind == 1 ? (v == o.b ? o.a : v) : o.a;
		if (lin(h, done | 1u << i, nv, mask, fin, seen)) return true;
	}
	return false;
}
template<class T>
static void history()
{
	struct Sh { T pre; T x; T post; std::vector<Op> hist; } *s = new Sh();
	const uint64_t mask = sizeof(T) == 8 ? ~0ull : 0xffffffffull;
	auto val = [](uint32_t k) -> uint64_t { static const uint64_t t[] = { 0, 1, 2, 3, 0xffffffffffffffffull, 0x80000000ull, 0x100000000ull, 0x8000000000000001ull, 0x7fffffffffffffffull, 0x123456789abcdefull }; return t[k % 10]; };
	uint64_t init = val(choose(10)) & mask;
	s->pre = (T)0x5a5a5a5a5a5a5a5aull; s->post = (T)0xa5a5a5a5a5a5a5a5ull;
	s->x = (T)init;
	int nt = range(2, 3), per = range(1, 4);
	for (int t = 0; t < nt; t++) spawn("op", [=] {
		T last = (T)init;
		for (int i = 0; i < per; i++) {
			Op o; o.kind = (int)choose(3); o.a = val(choose(10)) & mask;
			o.b = chance(0.5) ? (uint64_t)last & mask : val(choose(10)) & mask;
			{ Quiet q; o.inv = seq(); }
			T r;
			if (o.kind == 0) r = cybozu::AtomicAdd(&s->x, (T)o.a);
			else if (o.kind == 1) r = cybozu::AtomicCompareExchange(&s->x, (T)o.a, (T)o.b);
			else r = cybozu::AtomicExchange(&s->x, (T)o.a);
			if (chance(0.2)) cybozu::mfence();
			Quiet q;
			o.ret = (uint64_t)r & mask; o.res = seq();
			last = o.kind == 0 ? (T)(r + (T)o.a) : o.kind == 2 ? (T)o.a : r;
			s->hist.push_back(o);
			ev("op", o.kind, (int64_t)o.ret);
		}
	});
	joinAll();
	Quiet q;
	std::set<std::pair<uint32_t, uint64_t>> seen;
	std::string d;
	for (auto& o : s->hist) { char b[160]; snprintf(b, sizeof(b), " [%llu-%llu %s %llx,%llx ->%llx]", (unsigned long long)o.inv, (unsigned long long)o.res, o.kind == 0 ? "add" : o.kind == 1 ? "cas" : "xchg", (unsigned long long)o.a, (unsigned long long)o.b, (unsigned long long)o.ret); d += b; }
	SIM_CHECK(lin(s->hist, 0, init, mask, (uint64_t)s->x & mask, seen), "linearizability", "init %llx final %llx history%s", (unsigned long long)init, (unsigned long long)((uint64_t)s->x & mask), d.c_str());
	SIM_CHECK(s->pre == (T)0x5a5a5a5a5a5a5a5aull && s->post == (T)0xa5a5a5a5a5a5a5a5ull, "neighbour", "an operation changed the neighbouring word");
	delete s;
}
// counters and ticket/spin protocols built on the operations
template<class T>
static void counter()
{
	struct Sh { T x; T owner; volatile int inside; std::vector<T> seen; } *s = new Sh();
	s->x = (T)range(0, 3); s->owner = 0; s->inside = 0;
	T x0 = s->x;
	int nt = range(2, 4), per = range(1, 6);
	bool spin = chance(0.5);
	for (int t = 0; t < nt; t++) spawn("c", [=] {
		for (int i = 0; i < per; i++) {
			T r = cybozu::AtomicAdd(&s->x, (T)1);
			{ Quiet q; s->seen.push_back(r); }
			if (!spin) continue;
			if (t % 2) while (cybozu::AtomicCompareExchange(&s->owner, (T)(t + 1), (T)0) != 0) stall("spin");
			else while (cybozu::AtomicExchange(&s->owner, (T)(t + 1)) != 0) { stall("spin"); }
			int in = s->inside; s->inside = in + 1;
			SIM_CHECK(in == 0, "spinlock", "two threads own the exchange-based lock");
			s->inside = 0;
			cybozu::AtomicExchange(&s->owner, (T)0);
		}
	});
	joinAll();
	Quiet q;
	std::sort(s->seen.begin(), s->seen.end());
	for (size_t i = 0; i < s->seen.size(); i++) SIM_CHECK(s->seen[i] == (T)(x0 + (T)i), "ticket", "tickets are not unique and dense");
	SIM_CHECK(s->x == (T)(x0 + (T)(nt * per)), "count", "counter %lld", (long long)s->x);
	delete s;
}
// Weak memory: a plain write is certain to be seen only by a thread that the atomic operations
// order after it; any other reader may still get the old value.
static bool g_opaque; // an operation the instrumentation cannot see (then memory is taken as strong)
struct Cell {
	int v, old, tid; uint32_t st;
	Cell() : v(0), old(0), tid(-1), st(0) {}
	void write(int x) { Quiet q; old = v; v = x; tid = self(); st = hb::stamp(); }
	int read() const { Quiet q; return g_opaque || hb::sees(tid, st) || choose(2) ? v : old; }
};
template<class T> static T add(T *p, T y) { return cybozu::AtomicAdd(p, y); }
template<class T> static T xchg(T *p, T y) { return cybozu::AtomicExchange(p, y); }
template<class T> static T cas(T *p, T n, T o) { return cybozu::AtomicCompareExchange(p, n, o); }
template<class T>
static void weakMemory()
{
	hb::start();
	T x = 0;
	g_opaque = false;
	uint64_t n = hb::ops(); add(&x, (T)1); g_opaque |= hb::ops() == n;
	n = hb::ops(); xchg(&x, (T)3); g_opaque |= hb::ops() == n;
	n = hb::ops(); cas(&x, (T)4, (T)3); g_opaque |= hb::ops() == n;
	n = hb::ops(); cas(&x, (T)4, (T)3); g_opaque |= hb::ops() == n;
	hb::start();
}
template<class T>
static void message()
{
	struct Sh { Cell d; T flag[3]; } *s = new Sh();
	for (int i = 0; i < 3; i++) s->flag[i] = 0;
	weakMemory<T>();
	int hops = range(1, 3), extra = range(0, 2);
	auto publish = [=](T *f, int k) { // 0 -> 1
		if (k == 0) add(f, (T)1); else if (k == 1) xchg(f, (T)1); else cas(f, (T)1, (T)0);
	};
	auto poll = [=](T *f, int k) -> bool {
		if (k == 0) return add(f, (T)0) == 1;
		if (k == 1) return cas(f, (T)5, (T)9) == 1;          // never matches
		return cas(f, (T)1, (T)1) == 1;
	};
	for (int h = 0; h <= hops; h++) {
		int how = (int)choose(3), look = (int)choose(3);
		spawn("hop", [=] {
			if (h == 0) s->d.write(42);
			else {
				while (!poll(&s->flag[h - 1], look)) stall("poll");
				int got = s->d.read();
				SIM_CHECK(got == 42, "visible", "hop %d observed the operation but read %d, not what was written before it", h, got);
			}
			if (h < hops) publish(&s->flag[h], how);
		});
	}
	for (int i = 0; i < extra; i++) { int f = (int)choose(hops); spawn("look", [=] {
		for (int k = 0; k < 3; k++) if (cas(&s->flag[f], (T)7, (T)8) == 1) { int got = s->d.read(); SIM_CHECK(got == 42, "visible", "an observer of flag %d read %d", f, got); }
	}); }
	joinAll();
	delete s;
}
template<class T>
static void guarded()
{
	struct Sh { Cell n, m; T owner; } *s = new Sh();
	s->owner = 0;
	weakMemory<T>();
	int nt = range(2, 3), per = range(1, 4);
	for (int t = 0; t < nt; t++) {
		int in = (int)choose(2), out = (int)choose(3);
		spawn("g", [=] {
			for (int i = 0; i < per; i++) {
				if (in) { while (cas(&s->owner, (T)1, (T)0) != 0) stall("spin"); } else { while (xchg(&s->owner, (T)1) != 0) stall("spin"); }
				int a = s->n.read();
				s->n.write(a + 1);
				int b = s->m.read();
				SIM_CHECK(a == b, "visible", "inside the section %d and %d, written together", a, b);
				s->m.write(b + 1);
				if (out == 0) xchg(&s->owner, (T)0); else if (out == 1) cas(&s->owner, (T)0, (T)1); else add(&s->owner, (T)-1);
			}
		});
	}
	joinAll();
	Quiet q;
	SIM_CHECK(s->n.v == nt * per, "visible", "%d increments counted of %d", s->n.v, nt * per);
	delete s;
}
SCENARIO(message_u32, 1) { message<uint32_t>(); }
SCENARIO(message_i64, 1) { message<int64_t>(); }
SCENARIO(guarded_i32, 1) { guarded<int32_t>(); }
SCENARIO(guarded_u64, 1) { guarded<uint64_t>(); }
SCENARIO(hist_i32, 2) { history<int32_t>(); }
SCENARIO(hist_u32, 2) { history<uint32_t>(); }
SCENARIO(hist_i64, 2) { history<int64_t>(); }
SCENARIO(hist_u64, 2) { history<uint64_t>(); }
SCENARIO(count_int, 1) { counter<int>(); }
SCENARIO(count_size, 1) { counter<size_t>(); }
