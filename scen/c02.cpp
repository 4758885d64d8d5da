#include "common.h"
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
SIM_PROPERTY("C02", "cybozu/condition_variable.hpp, condition_variable_cs.hpp, mutex.hpp, critical_section.hpp", "pthread mutex/condition variable (with spurious wakeups), thread scheduling, clock")
using namespace sim;

// ownership of the lock as the users see it
struct Own {
	volatile int who = -1;
	void in() { int o = who; who = self(); SIM_CHECK(o == -1, "wait-without-lock", "thread T%d runs under the lock while T%d does (wait() returned without the lock, or did not keep it)", self(), o); }
	void out() { SIM_CHECK(who == self(), "wait-without-lock", "the lock was taken by another thread"); who = -1; }
};
static void maybeHold() { switch (choose(4)) { case 0: yield("work"); break; case 1: if (chance(0.15)) h::pause((int64_t)h::pickOf({ 20, 2000, 100000 }) * MS); break; default: break; } }

template<class L, class CV, class G>
static void buffer()
{
	allow("cond.spurious", 0.4);
	struct Sh { L m; CV notEmpty, notFull; std::deque<int> q; Own own; std::map<int, int> got; int consumed = 0; } *s = new Sh();
	int np = range(1, 3), nc = range(1, 3), per = range(1, 4);
	size_t cap = range(1, 3);
	int total = np * per;
	bool outside = chance(0.4), all = chance(0.3);
	auto notify = [=](CV& c) { if (all) c.notifyAll(); else c.notifyOne(); };
	for (int p = 0; p < np; p++) spawn("prod", [=] {
		for (int i = 0; i < per; i++) {
			{
				G g(s->m);
				s->own.in();
				while (s->q.size() >= cap) { s->own.out(); s->notFull.wait(s->m); s->own.in(); }
				{ Quiet q; s->q.push_back(p * 100 + i); }
				maybeHold();
				s->own.out();
				if (!outside) notify(s->notEmpty);
			}
			if (outside) notify(s->notEmpty);
		}
	});
	for (int c = 0; c < nc; c++) spawn("cons", [=] {
		for (;;) {
			bool last = false;
			{
				G g(s->m);
				s->own.in();
				while (s->q.empty() && s->consumed < total) { s->own.out(); s->notEmpty.wait(s->m); s->own.in(); }
				if (s->q.empty()) { s->own.out(); return; }
				{ Quiet q; s->got[s->q.front()]++; s->q.pop_front(); last = ++s->consumed == total; }
				maybeHold();
				s->own.out();
				if (!outside) { notify(s->notFull); if (last) s->notEmpty.notifyAll(); }
			}
			if (outside) { notify(s->notFull); if (last) s->notEmpty.notifyAll(); }
			if (last) return;
		}
	});
	joinAll();
	SIM_CHECK((int)s->got.size() == total, "lost-item", "%zu of %d items arrived", s->got.size(), total);
	for (auto& e : s->got) SIM_CHECK(e.second == 1, "duplicate-item", "item %d arrived %d times", e.first, e.second);
	delete s;
}
// every token put with one notifyOne releases one waiter; notifyAll releases every waiter
template<class L, class CV, class G>
static void tokens(bool all)
{
	if (chance(0.5)) allow("cond.spurious", 0.3);
	struct Sh { L m; CV c; Own own; int tok = 0, taken = 0; bool open = false; volatile int arrived = 0; } *s = new Sh();
	int n = range(1, 4);
	for (int i = 0; i < n; i++) spawn("wait", [=] {
		G g(s->m);
		s->own.in();
		{ Quiet q; s->arrived = s->arrived + 1; }
		while (all ? !s->open : s->tok == 0) { s->own.out(); s->c.wait(s->m); s->own.in(); }
		if (!all) { Quiet q; s->tok--; }
		{ Quiet q; s->taken++; }
		maybeHold();
		s->own.out();
	});
	if (chance(0.6)) h::until([=] { return s->arrived == n; });
	if (all) {
		{ G g(s->m); s->own.in(); s->open = true; s->own.out(); if (chance(0.5)) { s->c.notifyAll(); goto done; } }
		s->c.notifyAll();
done:;
	} else {
		for (int i = 0; i < n; i++) {
			bool in = chance(0.5);
			{ G g(s->m); s->own.in(); s->tok++; maybeHold(); s->own.out(); if (in) s->c.notifyOne(); }
			if (!in) s->c.notifyOne();
			if (chance(0.3)) h::pause(MS);
		}
	}
	joinAll(); // a lost wakeup leaves a waiter blocked for ever: "deadlock"
	SIM_CHECK(s->taken == n && s->tok == 0, "tokens", "taken %d of %d, left %d", s->taken, n, s->tok);
	delete s;
}
// one CV per mutex pair must not wake or starve users of another
template<class L, class CV, class G>
static void pingpong()
{
	struct Sh { L m; CV a, b; int turn = 0; Own own; int n[2] = { 0, 0 }; } *s = new Sh();
	int rounds = range(1, 6);
	for (int k = 0; k < 2; k++) spawn("pp", [=] {
		for (int i = 0; i < rounds; i++) {
			G g(s->m);
			s->own.in();
			while (s->turn != k) { s->own.out(); (k ? s->b : s->a).wait(s->m); s->own.in(); }
			s->n[k]++;
			s->turn = 1 - k;
			s->own.out();
			(k ? s->a : s->b).notifyOne();
		}
	});
	joinAll();
	SIM_CHECK(s->n[0] == rounds && s->n[1] == rounds, "pingpong", "rounds %d %d of %d", s->n[0], s->n[1], rounds);
	delete s;
}
#define BOTH(name, w, call) \
	SCENARIO(cv_##name, w) { typedef cybozu::Mutex L; typedef cybozu::ConditionVariable CV; typedef cybozu::AutoLock G; call; } \
	SCENARIO(cs_##name, w) { typedef cybozu::CriticalSection L; typedef cybozu::ConditionVariableCs CV; typedef cybozu::AutoLockCs G; call; }
BOTH(buffer, 4, (buffer<L, CV, G>()))
BOTH(tokens, 3, (tokens<L, CV, G>(false)))
BOTH(gate, 2, (tokens<L, CV, G>(true)))
BOTH(pingpong, 1, (pingpong<L, CV, G>()))
