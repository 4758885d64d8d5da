#include "common.h"
#include <cybozu/tls.hpp>
SIM_PROPERTY("C07", "cybozu/tls.hpp (Tls)", "pthread keys (numbers, exhaustion, failures), thread scheduling")
using namespace sim;

struct Slot { cybozu::Tls *t; };
SCENARIO(isolation, 4)
{
	setKeyBase((int)h::pickOf({ 0, 0, 1, 5, 1015 }));
	allow("pthread_key_create.EAGAIN", 0.4, 6);
	allow("pthread_setspecific.ENOMEM", 0.3, 10);
	int nk = range(1, 4);
	struct Sh { std::vector<cybozu::Tls *> v; std::vector<bool> ok; } *s = new Sh();
	for (int k = 0; k < nk; k++) {
		uint64_t f0 = fired("pthread_key_create.EAGAIN"); int live = keysLive();
		cybozu::Tls *t = new cybozu::Tls();
		Quiet q;
		s->v.push_back(t);
		bool ok = keysLive() == live + 1;
		SIM_CHECK(ok == (fired("pthread_key_create.EAGAIN") == f0) || !ok, "key-count", "a Tls object must own exactly one key");
		s->ok.push_back(ok);
	}
	int nt = range(1, 4), ops = range(1, 8);
	auto body = [=](int id) {
		std::vector<void *> model(nk, nullptr);
		for (int i = 0; i < ops; i++) {
			int k = (int)choose(nk);
			if (chance(0.5)) {
				void *p = chance(0.15) ? nullptr : (void *)(uintptr_t)(id * 1000 + i + 1);
				uint64_t f0 = fired("pthread_setspecific.ENOMEM"); (void)f0;
				bool b = s->v[k]->set(p);
				if (!s->ok[k]) SIM_CHECK(!b, "set-without-key", "set() on a Tls without a key reported success");
				if (b) model[k] = p;
				else SIM_CHECK(!s->ok[k] || fired("pthread_setspecific.ENOMEM") > 0, "set-failed", "set() failed without reason");
			}
			void *g = s->v[k]->get();
			SIM_CHECK(g == model[k], "isolation", "thread %d key %d: get() = %p, expected %p", id, k, g, model[k]);
		}
		for (int k = 0; k < nk; k++) SIM_CHECK(s->v[k]->get() == model[k], "isolation", "thread %d key %d: value changed", id, k);
	};
	for (int t = 0; t < nt; t++) spawn("t", [=] { body(t + 1); });
	body(100);
	joinAll();
	for (int k = 0; k < nk; k++) delete s->v[k];
	SIM_CHECK(keysLive() == 0, "key-leak", "%d keys left after all Tls objects are gone", keysLive());
	delete s;
}
// keys are recycled: a new Tls starts empty in every thread, also when it reuses the number of a dead one
SCENARIO(recycle, 3)
{
	setKeyBase((int)h::pickOf({ 0, 1, 7, 1020 }));
	allow("pthread_setspecific.ENOMEM", 0.2, 5);
	int rounds = range(1, 5);
	struct Sh { cybozu::Tls *t = nullptr; volatile int round = 0, ready = 0; } *s = new Sh();
	int nt = range(1, 2);
	for (int t = 0; t < nt; t++) spawn("t", [=] {
		for (int r = 1; r <= rounds; r++) {
			h::until([=] { return s->round >= r; });
			SIM_CHECK(s->t->get() == nullptr, "fresh", "a fresh Tls is not empty");
			void *p = (void *)(uintptr_t)(r * 10 + t + 1);
			if (s->t->set(p)) SIM_CHECK(s->t->get() == p, "isolation", "value lost");
			{ Quiet q; s->ready = s->ready + 1; }
			h::until([=] { return s->round >= r + 1 || s->round < 0; });
		}
	});
	for (int r = 1; r <= rounds; r++) {
		cybozu::Tls *n = new cybozu::Tls();
		if (chance(0.7)) n->set((void *)(uintptr_t)(r + 500));
		cybozu::Tls *old = s->t;
		s->t = n;
		{ Quiet q; s->ready = 0; s->round = r; }
		delete old;
		h::until([=] { return s->ready == nt; });
	}
	{ Quiet q; s->round = rounds + 1; }
	joinAll();
	delete s->t;
	SIM_CHECK(keysLive() == 0, "key-leak", "%d keys left", keysLive());
	delete s;
}
SCENARIO(exhaustion, 0.3)
{
	preemptOff();
	setKeyBase(0);
	std::vector<cybozu::Tls *> v;
	int n = 1024 + (int)range(0, 8) - 4;
	for (int i = 0; i < n; i++) { cybozu::Tls *t; { Quiet q; t = new cybozu::Tls(); v.push_back(t); } }
	for (int i = 0; i < n; i += (i % 200 == 0 ? 37 : 111)) { bool b = v[i]->set(&v[i]); SIM_CHECK(b == (i < 1024), "exhaustion", "object %d set() = %d", i, b); }
	bool lb = v[n - 1]->set(&v);
	SIM_CHECK(lb == (n <= 1024), "exhaustion", "last object (%d) set() = %d", n, lb);
	SIM_CHECK(v[n - 1]->get() == (lb ? (void *)&v : nullptr), "exhaustion", "last object get()");
	{ Quiet q; for (auto t : v) delete t; }
	SIM_CHECK(keysLive() == 0, "key-leak", "%d keys left", keysLive());
}
