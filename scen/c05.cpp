#include "common.h"
#include <cybozu/thread.hpp>
#include <limits.h>
SIM_PROPERTY("C05", "cybozu/thread.hpp (ThreadBase, thread::Begin/Join/Detach), cybozu/atomic.hpp", "pthread create/join/detach (with creation failure), thread scheduling, clock")
using namespace sim;

struct Work : cybozu::ThreadBase {
	volatile int started = 0, ended = 0; volatile int tid = -1; int work; int data = 0; bool longRun;
	Work() : work((int)range(0, 4)), longRun(chance(0.1)) {}
	~Work() { joinThread(); }
	void threadEntry()
	{
		started = started + 1;
		tid = self();
		for (int i = 0; i < work; i++) { int d = data; yield("work"); data = d + 1; }
		if (longRun) h::pause(3600 * SEC);
		ended = ended + 1;
	}
};
static void failing()
{
	allow("pthread_create.EAGAIN", 0.6);
	allow("pthread_attr_init.ENOMEM", 0.3);
}
// begin/join cycles on one object
SCENARIO(cycle, 4)
{
	failing();
	Work *w = new Work();
	int n = range(1, 4);
	int ok = 0;
	for (int i = 0; i < n; i++) {
		int c0 = createdThreads(); uint64_t f0 = firedTotal();
		int ss = (int)h::pickOf({ 0, 0, 65536, 1 << 20, 8 << 20 });
		bool b = ss ? w->beginThread(ss) : w->beginThread();
		int made = createdThreads() - c0;
		SIM_CHECK(made == (b ? 1 : 0), "begin-result", "beginThread returned %d and %d threads were created", b, made);
		SIM_CHECK(b || firedTotal() > f0, "begin-result", "beginThread failed without a failing call");
		if (b) ok++;
		if (chance(0.7)) {
			bool timed = chance(0.15); int msec = timed ? (int)h::pickOf({ 0, 1, 50, 100000 }) : 0; // a time limit is not supported here: it waits for the end all the same
			SIM_CHECK(timed ? w->joinThread(msec) : w->joinThread(), "join-result", "joinThread returned false");
			SIM_CHECK(w->started == ok && w->ended == ok, "join-early", "after joinThread: started %d ended %d of %d", w->started, w->ended, ok);
			SIM_CHECK(w->data == ok * w->work, "join-visibility", "effects of the thread are missing after join");
			if (b) SIM_CHECK(w->tid != 0, "same-thread", "the entry ran in the caller");
			if (chance(0.3)) SIM_CHECK(w->joinThread(), "join-result", "a second joinThread must be a no-op returning true");
			if (chance(0.2)) SIM_CHECK(!w->detachThread(), "detach-result", "detachThread without a thread must return false");
		} else break; // the destructor joins
	}
	bool destroy = chance(0.8);
	if (!destroy) w->joinThread();
	volatile int *e = &w->ended; (void)e;
	delete w;
	SIM_CHECK(liveThreads() == 0, "thread-leak", "%d threads alive after the object was destroyed", liveThreads());
	SIM_CHECK(attrBalance() == 0, "attr-leak", "thread attributes initialised %d more times than destroyed", attrBalance());
}
// join, detach and another join race: the thread is released exactly once
SCENARIO(race, 4)
{
	Work *w = new Work();
	w->longRun = false;
	SIM_CHECK(w->beginThread(), "begin-result", "beginThread failed");
	int nd = choose(2), nj = range(1, 2);
	volatile int detached = 0;
	volatile int *pd = &detached;
	for (int i = 0; i < nd; i++) spawn("det", [=] { if (w->detachThread()) { Quiet q; *pd = *pd + 1; } });
	for (int i = 0; i < nj; i++) spawn("join", [=] { bool b = w->joinThread(); SIM_CHECK(b, "join-result", "joinThread returned false"); });
	joinAll();
	SIM_CHECK(detached <= 1, "double-detach", "%d detaches succeeded", detached);
	if (!detached) SIM_CHECK(w->ended == 1, "join-early", "join returned before the entry ended");
	h::until([=] { return w->ended == 1; });
	SIM_CHECK(w->started == 1, "entry-count", "entry ran %d times", w->started);
	h::until([] { return liveThreads() == 0; });
	delete w;
}
SCENARIO(detach, 2)
{
	failing();
	Work *w = new Work();
	bool b = w->beginThread();
	bool d = w->detachThread();
	SIM_CHECK(b == d, "detach-result", "beginThread %d but detachThread %d", b, d);
	SIM_CHECK(w->joinThread(), "join-result", "joinThread after detach must be a no-op returning true");
	if (b) h::until([=] { return w->ended == 1; });
	h::until([] { return liveThreads() == 0; });
	SIM_CHECK(w->started == (b ? 1 : 0), "entry-count", "entry ran %d times", w->started);
	delete w;
}
struct FArg { volatile int n = 0; volatile int fin = 0; };
static void *entry(void *p) { FArg *a = (FArg *)p; a->n = a->n + 1; yield("work"); yield("work"); a->fin = 1; return (void *)7; }
// the free functions
SCENARIO(functions, 2)
{
	failing();
	FArg *a = new FArg();
	cybozu::thread::ThreadHandle hd = 0;
	int c0 = createdThreads();
	int ss = (int)h::pickOf({ 0, 65536, 17, 8 << 20 }); // 17 is below the minimum: refused
	bool b = cybozu::thread::Begin(hd, entry, a, ss);
	SIM_CHECK((createdThreads() - c0 == 1) == b, "begin-result", "Begin returned %d", b);
	if (ss == 17) SIM_CHECK(!b, "begin-result", "Begin accepted an impossible stack size");
	if (b) {
		if (chance(0.6)) { SIM_CHECK(cybozu::thread::Join(hd, chance(0.2) ? (int)h::pickOf({ 0, 1, 1000 }) : cybozu::thread::Infinite), "join-result", "Join failed"); SIM_CHECK(a->fin == 1, "join-early", "Join returned early"); }
		else { SIM_CHECK(cybozu::thread::Detach(hd), "detach-result", "Detach failed"); h::until([=] { return a->fin == 1; }); }
	}
	h::until([] { return liveThreads() == 0; });
	SIM_CHECK(a->n == (b ? 1 : 0), "entry-count", "entry ran %d times", a->n);
	SIM_CHECK(attrBalance() == 0, "attr-leak", "thread attributes leaked");
	delete a;
}
// many objects at once
SCENARIO(group, 2)
{
	failing();
	int n = range(1, 4);
	std::vector<Work *> v; std::vector<bool> ok;
	for (int i = 0; i < n; i++) { v.push_back(new Work()); ok.push_back(v[i]->beginThread()); }
	for (int i = 0; i < n; i++) {
		int k = n - 1 - i;
		SIM_CHECK(v[k]->joinThread(), "join-result", "joinThread returned false");
		SIM_CHECK(v[k]->ended == (ok[k] ? 1 : 0) && v[k]->started == v[k]->ended, "join-early", "thread %d not finished after join", k);
	}
	for (auto p : v) delete p;
	SIM_CHECK(liveThreads() == 0, "thread-leak", "threads alive");
}
// the destructor of the base class waits for a thread that runs
struct Ext { volatile int started = 0, ended = 0; };
struct Plain : cybozu::ThreadBase { Ext *x; explicit Plain(Ext *e) : x(e) {} void threadEntry() { Ext *e = x; e->started = 1; int n = (int)range(0, 3); for (int i = 0; i < n; i++) yield("work"); e->ended = 1; } };
SCENARIO(destructor, 1)
{
	Ext *x = new Ext(); Plain *p = new Plain(x);
	bool b = chance(0.9); if (b) { SIM_CHECK(p->beginThread(), "begin-result", "beginThread failed"); h::until([=] { return x->started == 1; }); }
	delete p;
	SIM_CHECK(x->ended == (b ? 1 : 0), "join-early", "the thread object was destroyed while its entry was running");
	SIM_CHECK(liveThreads() == 0, "thread-leak", "%d threads alive after the object was destroyed", liveThreads());
	delete x;
}
