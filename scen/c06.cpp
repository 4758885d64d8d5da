#include "common.h"
#include <cybozu/parallel.hpp>
SIM_PROPERTY("C06", "cybozu/parallel.hpp (parallel_for), cybozu/thread.hpp, cybozu/array.hpp", "pthread create/join (with creation failure), thread scheduling, operator new failure")
using namespace sim;

struct MyErr : std::exception { std::string m; MyErr(const std::string& s) : m(s) {} ~MyErr() throw() {} const char *what() const throw() { return m.c_str(); } };
enum { OK, FALSE_, THROW, THROW_EMPTY, THROW_INT };
template<class N>
struct Body {
	size_t n, tn;
	std::vector<int> act, hits, byThread; std::vector<int> last;
	std::vector<int> workerOf; // simulated thread per worker index
	volatile bool closed = false; volatile int inside = 0;
	bool operator()(N i, N th)
	{
		{
			Quiet q;
			SIM_CHECK(!closed, "call-after-return", "the body was called after parallel_for returned");
			SIM_CHECK(i >= 0 && (size_t)i < n, "index-range", "index %lld of %zu", (long long)i, n);
			SIM_CHECK(th >= 0 && (size_t)th < tn, "worker-range", "worker %lld of %zu", (long long)th, tn);
			hits[(size_t)i]++;
			SIM_CHECK(hits[(size_t)i] == 1, "index-twice", "index %lld visited twice", (long long)i);
			if (workerOf[(size_t)th] == -1) workerOf[(size_t)th] = self();
			SIM_CHECK(workerOf[(size_t)th] == self(), "worker-shared", "worker index %lld used by two threads at once", (long long)th);
			byThread[(size_t)i] = (int)th;
			inside = inside + 1;
		}
		if (n < 200) yield("body");
		{ Quiet q; inside = inside - 1; }
		switch (act[(size_t)i]) {
		case FALSE_: return false;
		case THROW: throw MyErr("boom" + std::to_string((long long)i));
		case THROW_EMPTY: throw MyErr("");
		case THROW_INT: throw 42;
		default: return true;
		}
	}
};
template<class N>
static void run(size_t maxN, size_t fix = 0)
{
	allow("pthread_create.EAGAIN", 0.4);
	allow("pthread_attr_init.ENOMEM", 0.1);
	Body<N> *b = new Body<N>();
	{
		Quiet q;
		b->n = fix ? fix : smallSize((uint32_t)maxN);
		b->tn = range(0, chance(0.2) ? 12 : 5);
		b->act.assign(b->n, OK); b->hits.assign(b->n, 0); b->byThread.assign(b->n, -1); b->workerOf.assign(b->tn + 1, -1);
		if (b->n && chance(0.6)) { int k = range(1, 3); for (int j = 0; j < k; j++) b->act[choose((uint32_t)b->n)] = (int)range(FALSE_, THROW_INT); }
	}
	allow("alloc", 0.2);
	uint64_t f0 = firedTotal();
	bool threw = false; std::string msg;
	try {
		cybozu::parallel_for(*b, (N)b->n, (N)b->tn);
	} catch (std::exception& e) { threw = true; Quiet q; msg = e.what(); }
	b->closed = true;
	{
		Quiet q;
		bool faulted = firedTotal() > f0;
		SIM_CHECK(b->inside == 0, "worker-alive", "a worker is still in the body after return");
		SIM_CHECK(liveThreads() == 0, "worker-alive", "%d worker threads alive after parallel_for returned", liveThreads());
		SIM_CHECK(attrBalance() == 0, "attr-leak", "thread attributes leaked");
		if (b->n == 0) { SIM_CHECK(!threw, "empty-range", "n = 0 threw %s", msg.c_str()); delete b; return; }
		if (b->tn == 0) { SIM_CHECK(threw, "zero-threads", "threadNum 0 accepted"); for (int x : b->hits) SIM_CHECK(x == 0, "zero-threads", "body ran"); delete b; return; }
		if (!faulted) {
			// a worker covers its own indices in increasing order and stops after false or an exception
			bool expectThrow = false; bool anyStop = false; std::set<int> used;
			std::vector<int> stopped(b->tn + 1, -1);
			for (size_t i = 0; i < b->n; i++) if (b->hits[i]) {
				used.insert(b->byThread[i]);
				SIM_CHECK(stopped[b->byThread[i]] < 0, "ran-after-stop", "worker %d went on after index %d asked to stop", b->byThread[i], stopped[b->byThread[i]]);
				if (b->act[i] != OK) { stopped[b->byThread[i]] = (int)i; anyStop = true; if (b->act[i] >= THROW) expectThrow = true; }
			}
			SIM_CHECK(threw == expectThrow, "error-report", expectThrow ? "a worker failed and parallel_for returned normally" : "parallel_for threw (%s) although no worker failed", msg.c_str());
			if (!anyStop) for (size_t i = 0; i < b->n; i++) SIM_CHECK(b->hits[i] == 1, "index-missed", "index %zu of %zu never visited (threads %zu)", i, b->n, b->tn);
			// every skipped index lies behind a stop of some worker: skipped runs directly follow a stopping index
			for (size_t i = 0; i < b->n; i++) if (!b->hits[i]) SIM_CHECK(i > 0 && (!b->hits[i - 1] || b->act[i - 1] != OK), "index-missed", "index %zu skipped although index %zu went fine", i, i - 1);
			if (threw) { bool named = false; for (size_t i = 0; i < b->n; i++) if (b->hits[i] && b->act[i] == THROW && msg.find("boom" + std::to_string(i)) != std::string::npos) named = true; bool other = false; for (size_t i = 0; i < b->n; i++) if (b->hits[i] && b->act[i] > THROW) other = true; SIM_CHECK(named || other, "error-text", "the error text %s names no failing call", msg.c_str()); }
		} else if (fired("pthread_create.EAGAIN") + fired("pthread_attr_init.ENOMEM") > 0) SIM_CHECK(threw, "create-failure", "a worker could not be started and parallel_for returned normally");
		if (!threw && !faulted) {}
		delete b;
	}
}
SCENARIO(par_int, 3) { run<int>(40); }
SCENARIO(par_size, 3) { run<size_t>(60); }
SCENARIO(par_u32, 1) { run<uint32_t>(300); }
SCENARIO(par_i64, 1) { run<int64_t>(300); }
SCENARIO(par_u8, 1) { run<uint8_t>(255, chance(0.3) ? 250 + choose(6) : 0); }
SCENARIO(par_i16, 1) { run<int16_t>(300); }
SCENARIO(par_big, 0.05)
{
	preemptOff(); size_t n = (size_t)h::pickOf({ 1000, 65530, 131070, 200000 }) + choose(10);
	switch (choose(4)) { case 0: run<int>(0, n); break; case 1: run<uint32_t>(0, n); break; case 2: run<int64_t>(0, n); break; default: run<size_t>(0, n); }
}
