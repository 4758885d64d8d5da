#include "common.h"
#include <cybozu/inttype.hpp>
#ifdef EVENT_PIPE
#undef CYBOZU_CPP_VERSION
#define CYBOZU_CPP_VERSION CYBOZU_CPP_VERSION_CPP03
#endif
#include <cybozu/event.hpp>
#include <signal.h>
SIM_PROPERTY("C03", "cybozu/event.hpp (mutex/condition-variable and pipe implementations)", "std::mutex/std::condition_variable primitives, pipe, signals, thread scheduling, clock")
using namespace sim;

static void faults()
{
	allow("cond.spurious", 0.4);
	allow("read.EINTR", 0.5, 20);
	allow("write.EINTR", 0.5, 20);
}
static void onSig(int) {}
static void signalsMaybe()
{
	if (!chance(0.4)) return;
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onSig;
	{ NoFault nf; sigaction(SIGUSR1, &sa, nullptr); }
	int n = range(1, 4);
	for (int i = 0; i < n; i++) after((int64_t)range(1, 60) * 50000, [] { raiseSignal(SIGUSR1); });
}
struct Sh {
	cybozu::Event e, f;
	volatile int calls = 0;    // wakeup() invoked
	volatile int done = 0;     // wakeup() returned
	volatile int returns = 0;  // wait() returned
	volatile int waiting = 0;
	int data = 0;
};
static void wake(Sh *s) { { Quiet q; s->calls = s->calls + 1; } s->e.wakeup(); { Quiet q; s->done = s->done + 1; } }
static void waitOne(Sh *s)
{
	{ Quiet q; s->waiting = s->waiting + 1; }
	s->e.wait();
	Quiet q;
	s->waiting = s->waiting - 1;
	s->returns = s->returns + 1;
	SIM_CHECK(s->returns <= s->calls, "phantom-wakeup", "wait() returned %d times after %d wakeups", s->returns, s->calls);
}
// strict hand-over between two threads
SCENARIO(handover, 3)
{
	faults(); signalsMaybe();
	Sh *s = new Sh();
	int rounds = range(1, 8);
	spawn("b", [=] { for (int i = 0; i < rounds; i++) { s->e.wait(); SIM_CHECK(s->data == 2 * i + 1, "handover", "round %d saw %d", i, s->data); s->data++; s->f.wakeup(); } });
	for (int i = 0; i < rounds; i++) { SIM_CHECK(s->data == 2 * i, "handover", "round %d saw %d before wakeup", i, s->data); s->data++; s->e.wakeup(); s->f.wait(); }
	SIM_CHECK(s->data == 2 * rounds, "handover", "data %d", s->data);
	joinAll();
	delete s;
}
// several wakers, several waiters
SCENARIO(many, 4)
{
	faults(); signalsMaybe();
	Sh *s = new Sh();
	int nw = range(1, 3), nt = range(1, 3), per = range(1, 4);
	std::vector<int> ws;
	for (int i = 0; i < nt; i++) ws.push_back(spawn("wait", [=] { for (int k = 0; k < per; k++) waitOne(s); }));
	std::vector<int> ks;
	for (int i = 0; i < nw; i++) { int n = range(0, 3); ks.push_back(spawn("wake", [=] { for (int k = 0; k < n; k++) { wake(s); if (chance(0.3)) h::pause(MS / 4); } })); }
	for (int k : ks) join(k);
	// quiescence: with a wakeup pending nobody stays blocked; each further wakeup releases exactly one
	for (int guard = 0; s->returns < nt * per; guard++) {
		SIM_CHECK(guard < 200, "lost-wakeup", "no progress");
		for (int i = 0; i < 40; i++) { h::pause(10 * MS); }
		{
			Quiet q;
			int blocked = 0;
			for (int w : ws) if (!finished(w)) { SIM_CHECK(*blockedOn(w), "not-blocked", "a waiter is neither finished nor blocked"); blocked++; }
			SIM_CHECK(s->calls == 0 || s->returns > 0 || blocked == 0, "lost-wakeup", "%d wakeups and no wait() returned", s->calls);
		}
		if (s->returns == nt * per) break;
		int before = s->returns;
		wake(s);
		for (int i = 0; i < 40; i++) { h::pause(10 * MS); }
		SIM_CHECK(s->returns >= before + 1, "lost-wakeup", "a wakeup with all waiters blocked released nobody");
		SIM_CHECK(s->returns <= before + 1, "phantom-wakeup", "one wakeup released %d waits", s->returns - before);
	}
	joinAll();
	delete s;
}
// a wakeup given before wait() is remembered; after it is consumed wait() blocks again
SCENARIO(remembered, 2)
{
	faults(); signalsMaybe();
	Sh *s = new Sh();
	int n = range(1, 3);
	for (int i = 0; i < n; i++) wake(s);
	waitOne(s);
	int w = spawn("w", [=] { for (int i = 0; i < 4; i++) waitOne(s); });
	int guard = 0;
	while (!finished(w)) {
		h::pause(100 * MS);
		SIM_CHECK(++guard < 100, "lost-wakeup", "no progress");
		if (!finished(w) && *blockedOn(w)) { SIM_CHECK(s->returns <= s->calls, "phantom-wakeup", "returns %d calls %d", s->returns, s->calls); wake(s); }
	}
	joinAll();
	delete s;
}
