#include "common.h"
#include <sstream>
#include <cybozu/time.hpp>
#include <cybozu/benchmark.hpp>
SIM_PROPERTY("C31", "cybozu/time.hpp (Time, GetCurrentTimeSec), cybozu/benchmark.hpp (CpuClock on a system clock)", "system clock (any value, jumps), thread scheduling")
using namespace sim;
typedef cybozu::Time Time;
// days to civil date, independent of the C library
static std::string text(int64_t sec, int ms, bool msec)
{
	int64_t days = sec / 86400, r = sec % 86400; int64_t z = days + 719468, era = z / 146097; int64_t doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9); int y = (int)(yoe + era * 400 + (m <= 2));
	char b[64]; snprintf(b, sizeof(b), "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60)); std::string s = b; if (msec) { snprintf(b, sizeof(b), ".%03d", ms); s += b; } return s;
}
// the text form is in universal time wherever the program runs; half a day apart, odd minutes and daylight saving included
static void zone() { Quiet q; static const char *z[] = { "UTC0", "JST-9", "PST8PDT", "NST3:30NDT", "XXX+12", "YYY-14", "CET-1CEST,M3.5.0,M10.5.0/3" }; setenv("TZ", z[choose(7)], 1); tzset(); }
static int64_t randClock() { int64_t s = h::pickOf<int64_t>({ 0, 1, 59, 86399, 951782399, 951782400, 1078012800, 1234567890, 2147483647ll, 2147483648ll, 4102444799ll, 8000000000ll }); if (chance(0.5)) s = (int64_t)choose(2000000000) + choose(2000000000); return s * SEC + (chance(0.5) ? h::pickOf<int64_t>({ 0, 1, 999999, 1000000, 999000000, 999999999, 500000000 }) : (int64_t)choose(1000000000)); }
static void setClock(int64_t v) { jumpRealtime(v - realtime()); }
struct Rd { int64_t lo, hi; Time t; double d; };
static Rd readNow()
{
	Rd r; r.d = -1; { Quiet q; r.lo = realtime(); }
	switch (choose(4)) { case 0: { Time t(true); r.t = t; break; } case 1: r.t.setCurrentTime(); break; case 2: { Time t(12345, 678); r.t = t.setCurrentTime(); break; } default: r.d = cybozu::GetCurrentTimeSec(); }
	{ Quiet q; r.hi = realtime(); }
	return r;
}
static void judge(const Rd& r, bool jumped)
{
	if (r.d >= 0) { if (!jumped) SIM_CHECK(r.d >= r.lo / MS * 1e-3 - 1e-5 && r.d <= r.hi * 1e-9 + 1e-5, "wrong-time", "current time %.4f, clock %.9f .. %.9f", r.d, r.lo * 1e-9, r.hi * 1e-9); return; }
	int ms = r.t.getMsec(); SIM_CHECK(ms >= 0 && ms <= 999, "bad-msec", "%d milliseconds", ms); int64_t v = (int64_t)r.t.getTime() * 1000 + ms;
	if (!jumped) SIM_CHECK(v >= r.lo / MS && v <= r.hi / MS, "wrong-time", "current time %lld ms, clock %lld .. %lld ms", (long long)v, (long long)(r.lo / MS), (long long)(r.hi / MS));
}
SCENARIO(current, 4)
{
	zone(); setClock(randClock()); int n = range(1, 6);
	for (int i = 0; i < n; i++) { if (chance(0.3)) setClock(realtime() / SEC * SEC + SEC - range(1, 5) * 400); if (chance(0.3)) setClock(randClock()); judge(readNow(), false); if (chance(0.3)) h::pause((int64_t)choose(1000000)); }
}
// the clock jumps while it is read: the value is one the clock had
SCENARIO(jumping, 2)
{
	int64_t a = randClock(), b = randClock(); setClock(a); auto *stop = new bool(false); int64_t *j = new int64_t[2](); spawn("admin", [=] { for (int i = 0; i < 3; i++) { { Quiet q; setClock(i % 2 ? a : b); j[0]++; } h::pause((int64_t)choose(300) * 1000); } *stop = true; });
	for (int i = 0; i < 4; i++) { int64_t j0; { Quiet q; j0 = j[0]; } Rd r = readNow(); bool jumped; { Quiet q; jumped = j[0] != j0; } judge(r, jumped);
		if (jumped && r.d < 0) { int64_t v = (int64_t)r.t.getTime() * 1000 + r.t.getMsec(); auto near = [&](int64_t c) { return v >= c / MS - 1 && v <= c / MS + 60000; }; SIM_CHECK(near(a) || near(b), "torn", "current time %lld ms is a mixture of %lld and %lld", (long long)v, (long long)(a / MS), (long long)(b / MS)); } }
	joinAll(); delete stop; delete[] j;
}
// the text form denotes the instant, also when several threads format at once
SCENARIO(texts, 3)
{
	zone(); setClock(randClock()); int th = range(1, 3);
	for (int t = 0; t < th; t++) spawn("fmt", [=] {
		for (int i = 0; i < 3; i++) {
			int64_t sec = chance(0.1) ? 32503679999ll : chance(0.5) ? randClock() / SEC : (int64_t)choose(2000000000); int ms = (int)choose(1000); Time x(sec, ms); bool cur = chance(0.3); if (cur) { x.setCurrentTime(); sec = x.getTime(); ms = x.getMsec(); }
			bool m = chance(0.7); std::string s, want = text(sec, ms, m); switch (choose(5)) { case 0: s = x.toString(m); break; case 1: s = "old"; x.toString(s, m); break; case 2: s = "old "; x.toString(s, m, false); want = "old " + want; break; case 3: { std::ostringstream os; os << x; s = os.str(); m = true; want = text(sec, ms, true); break; } default: x.toString(s, m ? "%Y-%m-%d %H:%M:%S." : "%Y-%m-%d %H:%M:%S", m); }
			SIM_CHECK(s == want, "text", "%s instead of %s", s.c_str(), want.c_str());
			if (s.compare(0, 4, "old ") == 0) s.erase(0, 4);
			if (m && sec < 32503680000ll) { Time y(s); SIM_CHECK(y.getTime() == sec && y.getMsec() == ms, "text", "%s was read back as %lld.%03d", s.c_str(), (long long)y.getTime(), y.getMsec()); }
		} });
	joinAll();
}
// stop watch on a system clock
SCENARIO(stopwatch, 2)
{
	cybozu::CpuClock c; int64_t lo = 0, hi = 0; int n = range(1, 4); setClock(1700000000 * SEC + choose(1000000000));
	auto t = [] { Quiet q; return now(); };
	for (int i = 0; i < n; i++) { int64_t a = t(); c.begin(); int64_t b = t(); if (chance(0.7)) h::pause((int64_t)choose(3000) * MS); int64_t d = t(); c.end(); int64_t e = t(); lo += d - b; hi += e - a; if (chance(0.5)) h::pause(SEC); if (chance(0.1)) { c.clear(); lo = hi = 0; SIM_CHECK(c.getClock() == 0 && c.getCount() == 0, "stopwatch", "not cleared"); n -= i + 1; i = -1; } }
	int64_t v = (int64_t)c.getClock(); SIM_CHECK(c.getCount() == n || n <= 0, "stopwatch", "count %d instead of %d", c.getCount(), n); SIM_CHECK(v >= lo - 2000 * (n + 1) && v <= hi + 2000 * (n + 1) && v >= 0 - 2000 * (n + 1), "stopwatch", "measured %lld ns instead of %lld .. %lld", (long long)v, (long long)lo, (long long)hi);
}
