#ifdef LIBC_PREEMPT
#include "libc_preempt.h"
#endif
#include "common.h"
SIM_PROPERTY("C35", "all value and parser classes of cybozu (see the list of jobs in the scenario file), zlib", "thread scheduling")
using namespace sim;
#include "jobs.h"
struct Task { int job; uint32_t seed; Str got, want; };
static Str runJob(const Task& t) { R r(t.seed); return g_jobs[t.job].fn(r); }
static void play(bool sameJob)
{
	int th = range(2, 3), focus = (int)choose(JN); auto *ts = new std::vector<std::vector<Task>>(th); bool before = chance(0.5);
	{ Quiet q; for (auto& l : *ts) { l.resize(1 + choose(sameJob ? 3 : 4)); for (auto& t : l) { t.job = sameJob ? focus : (int)choose(JN); t.seed = choose(100000); ev(g_jobs[t.job].name, t.seed); if (before) t.want = runJob(t); } } }
	for (int i = 0; i < th; i++) spawn("job", [=] { for (auto& t : (*ts)[i]) t.got = runJob(t); });
	joinAll();
	Quiet q; for (auto& l : *ts) for (auto& t : l) { if (!before) t.want = runJob(t); if (t.got != t.want) fail((Str("interference:") + g_jobs[t.job].name).c_str(), "job %s with seed %u delivers another result when other threads work at the same time", g_jobs[t.job].name, t.seed); }
	delete ts;
}
SCENARIO(same, 3) { play(true); } // all threads do the same kind of work on their own objects
SCENARIO(mixed, 2) { play(false); }
