#include "common.h"
#include <cybozu/thread.hpp>
#include <signal.h>
SIM_PROPERTY("C08", "cybozu/thread.hpp (Sleep)", "nanosleep/clock_nanosleep and clocks (jumps, EINTR), signals, thread scheduling")
using namespace sim;
static void onSig(int) { errno = 77; }
static void one(int ms)
{
	int64_t t0 = now(); uint64_t st0 = steps();
	cybozu::Sleep(ms);
	int64_t el = now() - t0;
	SIM_CHECK(el >= (int64_t)ms * MS, "too-short", "Sleep(%d) returned after %lld us", ms, (long long)(el / 1000));
	int64_t slack = 2 * MS + (int64_t)(steps() - st0) * 2000;
	SIM_CHECK(el <= (int64_t)ms * MS + slack, "too-long", "Sleep(%d) returned after %lld us", ms, (long long)(el / 1000));
}
static int pickMs() { switch (choose(5)) { case 0: return (int)choose(4); case 1: return (int)choose(2000); case 2: return 999 + (int)choose(4); case 3: return (int)choose(100000); default: return (int)h::pickOf({ 1000, 60000, 2147, 2148, 4295, 86400000, 2147483647 }); } }
static void setup(int ms)
{
	allow("sleep.EINTR", 0.8, 30);
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onSig; if (chance(0.3)) sa.sa_flags = SA_RESTART;
	{ NoFault nf; sigaction(SIGUSR1, &sa, nullptr); }
	int n = chance(0.5) ? (int)range(1, 5) : 0;
	for (int i = 0; i < n; i++) after((int64_t)((double)ms * MS * (1 + choose(100)) / 90), [] { raiseSignal(SIGUSR1); });
	int j = chance(0.3) ? (int)range(1, 3) : 0;
	for (int i = 0; i < j; i++) { int64_t d = (int64_t)h::pickOf({ -100000, -1000, -1, 1, 1000, 1000000 }) * MS; after((int64_t)((double)ms * MS * (1 + choose(100)) / 110), [d] { jumpRealtime(d); }); }
}
SCENARIO(sleep_one, 3) { noTimeSkips(); int ms = pickMs(); setup(ms); int n = range(1, 3); one(ms); for (int i = 1; i < n; i++) one(pickMs()); }
SCENARIO(sleep_many, 2)
{
	noTimeSkips();
	int ms = pickMs(); setup(ms);
	int n = range(1, 3);
	for (int i = 0; i < n; i++) { int m = pickMs(); spawn("s", [=] { one(m); }); }
	one(ms);
	joinAll();
}
