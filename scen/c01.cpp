#include "common.h"
#include <cybozu/mutex.hpp>
#include <cybozu/critical_section.hpp>
SIM_PROPERTY("C01", "cybozu/mutex.hpp, cybozu/critical_section.hpp (Mutex, CriticalSection, AutoLock, AutoLockCs)", "pthread mutex and thread scheduling, clock")
using namespace sim;

struct Boom {};
template<class L, class G>
static void exclusion()
{
	struct Sh { L lk[3]; volatile int inside[3] = { 0, 0, 0 }; volatile int cnt[3] = { 0, 0, 0 }; int expect[3] = { 0, 0, 0 }; } *s = new Sh();
	int nt = range(2, 4), it = range(1, 5), nl = range(1, 3);
	double longHold = h::pickOf({ 0.0, 0.0, 0.2 });
	auto section = [=](int k) {
		int x = s->inside[k];
		s->inside[k] = x + 1;
		SIM_CHECK(x == 0 && s->inside[k] == 1, "exclusion", "two threads are inside the section of one lock");
		int v = s->cnt[k];
		switch (choose(3)) {
		case 0: break;
		case 1: yield("work"); break;
		default: if (longHold > 0 && chance(longHold)) h::pause((int64_t)h::pickOf({ 5, 200, 3000, 70000, 4000000 }) * MS); else yield("work"); break;
		}
		SIM_CHECK(s->inside[k] == 1, "exclusion", "another thread entered the section of a lock that is held");
		s->cnt[k] = v + 1;
		s->inside[k] = 0;
	};
	for (int t = 0; t < nt; t++) {
		spawn("w", [=] {
			for (int i = 0; i < it; i++) {
				int k = (int)choose(nl);
				{ Quiet q; s->expect[k]++; }
				switch (choose(5)) {
				case 0: s->lk[k].lock(); section(k); s->lk[k].unlock(); break;
				case 1: { G g(s->lk[k]); section(k); break; }
				case 2: try { G g(s->lk[k]); section(k); throw Boom(); } catch (Boom&) {} break;
				case 3: if (k + 1 < nl) { G a(s->lk[k]); G b(s->lk[k + 1]); section(k); { Quiet q; s->expect[k + 1]++; } section(k + 1); } else { G g(s->lk[k]); section(k); } break;
				default: for (int z = 0; z < 1; z++) { G g(s->lk[k]); section(k); if (z == 0) continue; } break;
				}
			}
		});
	}
	joinAll();
	for (int k = 0; k < 3; k++) SIM_CHECK(s->cnt[k] == s->expect[k], "lost-update", "%d updates under the lock, %d made", s->cnt[k], s->expect[k]);
	{ Quiet q; for (int k = 0; k < 3; k++) { s->lk[k].lock(); s->lk[k].unlock(); } }
	delete s;
}
// a lock blocks only users of the same lock, and only while it is held
template<class L>
static void independent()
{
	struct Sh { L a, b; volatile bool held = false, passed = false; volatile int order = 0; } *s = new Sh();
	spawn("holder", [=] { s->a.lock(); s->held = true; h::until([=] { return (bool)s->passed; }); s->a.unlock(); });
	h::until([=] { return (bool)s->held; });
	int w = spawn("waiter", [=] { s->a.lock(); SIM_CHECK(s->passed, "exclusion", "lock() returned while another thread held the lock"); s->a.unlock(); });
	h::pause((int64_t)h::pickOf({ 1, 3000, 100000, 10000000 }) * MS);
	SIM_CHECK(!finished(w), "exclusion", "lock() returned while another thread held the lock");
	s->b.lock(); s->b.unlock();
	s->passed = true;
	joinAll();
	s->a.lock(); s->a.unlock();
	delete s;
}
SCENARIO(mutex_sections, 4) { exclusion<cybozu::Mutex, cybozu::AutoLock>(); }
SCENARIO(cs_sections, 4) { exclusion<cybozu::CriticalSection, cybozu::AutoLockCs>(); }
SCENARIO(mutex_independent, 1) { independent<cybozu::Mutex>(); }
SCENARIO(cs_independent, 1) { independent<cybozu::CriticalSection>(); }
