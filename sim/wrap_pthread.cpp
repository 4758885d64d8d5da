// Simulated pthread synchronisation, thread creation and C++ static-init guards.
#include "internal.h"
#include <unordered_map>
#include <semaphore.h>
#include <stdlib.h>
#include <limits.h>
#include <sched.h>
#include <time.h>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real_pthread_key_create(pthread_key_t *, void (*)(void *));
int __real_pthread_key_delete(pthread_key_t);
int __real_pthread_setspecific(pthread_key_t, const void *);
void *__real_pthread_getspecific(pthread_key_t);
int __real_pthread_attr_init(pthread_attr_t *);
int __real_pthread_attr_destroy(pthread_attr_t *);
int __real_pthread_attr_setstacksize(pthread_attr_t *, size_t);
int __real_sched_yield();
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
}

namespace sim {

struct Mtx { int owner = -1; int count = 0; };
struct Cnd { std::deque<int> waiters; std::set<int> signaled; };
struct Rw { int writer = -1; int readers = 0; };
static std::unordered_map<void *, Mtx> g_mtx __attribute__((init_priority(101)));
static std::unordered_map<void *, Cnd> g_cnd;
static std::unordered_map<void *, Rw> g_rw __attribute__((init_priority(101)));
static std::unordered_map<void *, int> g_sem;
static std::unordered_map<void *, int> g_once __attribute__((init_priority(101))); // 1 running 2 done
static std::unordered_map<void *, int> g_guard; // owner thread
static std::set<void *> g_deadMtx;
static int g_attrs;

static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool errcheck(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }

static int lockMtx(pthread_mutex_t *m, int64_t deadline = -1)
{
	if (g_deadMtx.count(m)) fail("sync:lock-destroyed-mutex", "lock of a mutex that was destroyed");
	Mtx& x = g_mtx[m];
	if (x.owner == t_self->id) {
		if (recursive(m)) { x.count++; return 0; }
		if (errcheck(m)) return EDEADLK;
	}
	if (x.owner != -1) probe("mutex contention");
	Wake w = block("mutex", [m] { return g_mtx[m].owner == -1; }, deadline);
	if (w == TIMEOUT) return ETIMEDOUT;
	Mtx& y = g_mtx[m];
	y.owner = t_self->id; y.count = 1;
	return 0;
}
static int unlockMtx(pthread_mutex_t *m)
{
	Mtx& x = g_mtx[m];
	if (x.owner != t_self->id) {
		if (errcheck(m)) return EPERM;
		fail("sync:unlock-not-owner", "thread T%d unlocks a mutex owned by %d", t_self->id, x.owner);
	}
	if (--x.count == 0) x.owner = -1;
	return 0;
}
static int64_t absToSim(const struct timespec *ts, clockid_t c)
{
	int64_t t = ts->tv_sec * SEC + ts->tv_nsec;
	if (c == CLOCK_MONOTONIC) return t;
	return t - (realtime() - now());
}

bool mutexLocked(void *m) { auto it = g_mtx.find(m); return it != g_mtx.end() && it->second.owner != -1; }

Thr *findThread(pthread_t h)
{
	for (auto it = S.thr.rbegin(); it != S.thr.rend(); ++it) {
		Thr *t = *it;
		if (t->id == 0 || !t->started) continue;
		if (t->joined || (t->detached && t->done)) continue;
		if (pthread_equal(t->pt, h)) return t;
	}
	return nullptr;
}
void resetPthread() {}
int attrBalance() { return g_attrs; }
int keysLive();

} // sim
using namespace sim;
#define ON (active() && g_eng == 0)

struct SimKey { uint64_t seq; void (*dtor)(void *); };
static std::map<pthread_key_t, SimKey> g_keys;
static std::set<pthread_key_t> g_realKeys __attribute__((init_priority(101)));
static uint64_t g_keySeq;
static int g_keyBase;
static std::map<std::pair<int, pthread_key_t>, std::pair<uint64_t, void *>> g_vals;
namespace sim {
int keysLive() { return (int)g_keys.size(); }
void setKeyBase(int b) { g_keyBase = b; }
static void yieldFromEngine(const char *w) { g_eng--; yield(w); g_eng++; }
void threadKeyDtors()
{
	for (int pass = 0; pass < 4; pass++) {
		std::vector<std::pair<void (*)(void *), void *>> run;
		{
			ENGINE
			for (auto& e : g_vals) if (e.first.first == t_self->id && e.second.second) {
				auto k = g_keys.find(e.first.second);
				void *v = e.second.second;
				if (k == g_keys.end() || k->second.seq != e.second.first) continue;
				e.second.second = nullptr;
				if (k->second.dtor) run.push_back({ k->second.dtor, v });
			}
		}
		if (run.empty()) return;
		for (auto& r : run) r.first(r.second);
	}
}
}

extern "C" {

int __wrap_pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	if (!ON) return __real_pthread_create(pt, attr, fn, arg);
	yield("pthread_create");
	ENGINE
	if (fault("pthread_create.EAGAIN")) {
		// the handle is unspecified after a failure; glibc leaves the address of the torn-down thread
		*pt = (pthread_t)0x7f00dead0000ull;
		ev("pthread_create", -EAGAIN);
		return EAGAIN;
	}
	Thr *t = newThread("pthread");
	t->fn = fn; t->arg = arg;
	int det = PTHREAD_CREATE_JOINABLE;
	if (attr) pthread_attr_getdetachstate(attr, &det);
	t->detached = det == PTHREAD_CREATE_DETACHED;
	size_t ss = 0;
	if (attr && pthread_attr_getstacksize(attr, &ss) == 0) t->stackSize = ss;
	int r = startThread(t, nullptr); // default (large) real stack: instrumented code needs more than the caller may ask for
	if (r) return r;
	if (t->detached) __real_pthread_detach(t->pt);
	*pt = t->pt;
	ev("pthread_create", t->id);
	g_eng--; yield("pthread_create.ret"); g_eng++;
	return 0;
}
int __wrap_pthread_join(pthread_t h, void **ret)
{
	if (!ON) return __real_pthread_join(h, ret);
	yield("pthread_join");
	ENGINE
	Thr *t = findThread(h);
	if (!t) fail("sync:join-invalid-handle", "pthread_join of a handle that names no joinable thread (never created, already joined or detached)");
	if (t->detached) fail("sync:join-detached", "pthread_join of a detached thread T%d", t->id);
	if (t == t_self) return EDEADLK;
	t->joined = true; // claims it: a second join is a violation even while this one waits
	block("pthread_join", [t] { return t->done; });
	void *r = nullptr;
	__real_pthread_join(t->pt, &r);
	if (ret) *ret = r;
	ev("joined", t->id);
	return 0;
}
int __wrap_pthread_detach(pthread_t h)
{
	if (!ON) return __real_pthread_detach(h);
	yield("pthread_detach");
	ENGINE
	Thr *t = findThread(h);
	if (!t) fail("sync:detach-invalid-handle", "pthread_detach of a handle that names no joinable thread");
	if (t->detached) fail("sync:double-detach", "pthread_detach of an already detached thread T%d", t->id);
	t->detached = true;
	ev("detached", t->id);
	return __real_pthread_detach(h);
}
int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (ON && fault("pthread_attr_init.ENOMEM")) return ENOMEM;
	if (ON) g_attrs++;
	return __real_pthread_attr_init(a);
}
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { if (ON) g_attrs--; return __real_pthread_attr_destroy(a); }
int __wrap_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { return __real_pthread_attr_setstacksize(a, n); }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	int r = __real_pthread_mutex_init(m, a);
	if (!ON) return r;
	ENGINE
	g_mtx[m] = Mtx(); g_deadMtx.erase(m);
	return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!ON) return __real_pthread_mutex_destroy(m);
	ENGINE
	auto it = g_mtx.find(m);
	if (it != g_mtx.end()) {
		if (it->second.owner != -1) fail("sync:destroy-locked-mutex", "mutex destroyed while locked by T%d", it->second.owner);
		g_mtx.erase(it);
	}
	return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!active() || g_eng > 0) return active() ? 0 : __real_pthread_mutex_lock(m);
	yield("mutex_lock");
	ENGINE
	ev("lock");
	return lockMtx(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!active() || g_eng > 0) return active() ? 0 : __real_pthread_mutex_trylock(m);
	yield("mutex_trylock");
	ENGINE
	Mtx& x = g_mtx[m];
	if (x.owner == t_self->id && recursive(m)) { x.count++; return 0; }
	if (x.owner != -1) return EBUSY;
	x.owner = t_self->id; x.count = 1;
	return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	yield("mutex_timedlock");
	ENGINE
	return lockMtx(m, absToSim(ts, CLOCK_REALTIME));
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
	yield("mutex_clocklock");
	ENGINE
	return lockMtx(m, absToSim(ts, c));
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!active() || g_eng > 0) return active() ? 0 : __real_pthread_mutex_unlock(m);
	int r;
	{
		ENGINE
		r = unlockMtx(m);
		ev("unlock");
	}
	yield("mutex_unlock");
	return r;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	int r = __real_pthread_cond_init(c, a);
	if (!ON) return r;
	ENGINE
	g_cnd[c] = Cnd();
	return r;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	if (!ON) return __real_pthread_cond_destroy(c);
	ENGINE
	auto it = g_cnd.find(c);
	if (it != g_cnd.end()) {
		if (!it->second.waiters.empty()) fail("sync:destroy-cond-with-waiters", "condition variable destroyed with %zu unsignalled waiters", it->second.waiters.size());
		g_cnd.erase(it);
	}
	return __real_pthread_cond_destroy(c);
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
	yield("cond_wait");
	ENGINE
	int me = t_self->id;
	Mtx& mx = g_mtx[m];
	if (mx.owner != me) fail("sync:cond-wait-unlocked", "condition wait without holding the mutex");
	int cnt = mx.count;
	mx.owner = -1; mx.count = 0;
	g_cnd[c].waiters.push_back(me);
	ev("cwait");
	bool spurious = fault("cond.spurious");
	int64_t dl = deadline;
	if (spurious) { int64_t s = now() + (int64_t)choose(50) * 100000; if (dl < 0 || s < dl) dl = s; else spurious = false; }
	Wake w = block("cond", [c, me] { return g_cnd[c].signaled.count(me) != 0; }, dl);
	Cnd& x = g_cnd[c];
	int r = 0;
	if (w == READY) x.signaled.erase(me);
	else {
		for (auto it = x.waiters.begin(); it != x.waiters.end(); ++it) if (*it == me) { x.waiters.erase(it); break; }
		r = spurious ? 0 : ETIMEDOUT;
		if (spurious) probe("spurious wakeup delivered");
	}
	block("mutex", [m] { return g_mtx[m].owner == -1; });
	Mtx& y = g_mtx[m];
	y.owner = me; y.count = cnt;
	ev("cwoke", r);
	return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!ON) return __real_pthread_cond_wait(c, m);
	return condWait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	return condWait(c, m, absToSim(ts, CLOCK_REALTIME));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
	return condWait(c, m, absToSim(ts, k));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	if (!ON) return __real_pthread_cond_signal(c);
	yield("cond_signal");
	{
		ENGINE
		Cnd& x = g_cnd[c];
		if (!x.waiters.empty()) {
			uint32_t k = choose((uint32_t)x.waiters.size());
			x.signaled.insert(x.waiters[k]);
			ev("csignal", x.waiters[k]);
			x.waiters.erase(x.waiters.begin() + k);
		} else ev("csignal", -1);
	}
	yield("cond_signal.ret");
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!ON) return __real_pthread_cond_broadcast(c);
	yield("cond_broadcast");
	{
		ENGINE
		Cnd& x = g_cnd[c];
		ev("cbroadcast", (int64_t)x.waiters.size());
		for (int w : x.waiters) x.signaled.insert(w);
		x.waiters.clear();
	}
	yield("cond_broadcast.ret");
	return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)())
{
	if (!ON) return __real_pthread_once(o, fn);
	{ ENGINE if (*o && g_once.find(o) == g_once.end()) return 0; } // done before the simulation started
	yield("once");
	{
		ENGINE
		int& st = g_once[o];
		if (st == 2) return 0;
		if (st == 1) { block("once", [o] { return g_once[o] == 2; }); return 0; }
		st = 1;
	}
	fn();
	ENGINE
	g_once[o] = 2;
	return 0;
}
// rwlock: only libraries below the code under test use them, so they are scheduling points only when contended
int __wrap_pthread_rwlock_init(pthread_rwlock_t *r, const pthread_rwlockattr_t *) { ENGINE g_rw[r] = Rw(); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *r) { ENGINE g_rw.erase(r); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *r)
{
	if (!ON) return 0;
	ENGINE
	if (g_rw[r].writer != -1) block("rdlock", [r] { return g_rw[r].writer == -1; });
	g_rw[r].readers++;
	return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *r)
{
	if (!ON) return 0;
	ENGINE
	if (g_rw[r].writer != -1 || g_rw[r].readers) block("wrlock", [r] { return g_rw[r].writer == -1 && g_rw[r].readers == 0; });
	g_rw[r].writer = t_self->id;
	return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *r)
{
	if (!ON) return 0;
	{ ENGINE Rw& x = g_rw[r]; if (x.writer == t_self->id) x.writer = -1; else x.readers--; }
	return 0;
}
// spin
int __wrap_pthread_spin_init(pthread_spinlock_t *s, int) { ENGINE g_mtx[(void *)s] = Mtx(); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *s) { ENGINE g_mtx.erase((void *)s); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *s)
{
	if (!ON) return 0;
	yield("spin_lock"); ENGINE
	void *p = (void *)s;
	block("spin", [p] { return g_mtx[p].owner == -1; });
	g_mtx[p].owner = t_self->id;
	return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t *s)
{
	if (!ON) return 0;
	{ ENGINE g_mtx[(void *)s].owner = -1; }
	yield("spin_unlock");
	return 0;
}
// semaphores
int __wrap_sem_init(sem_t *s, int, unsigned v) { ENGINE g_sem[s] = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { ENGINE g_sem.erase(s); return 0; }
int __wrap_sem_post(sem_t *s)
{
	if (ON) yield("sem_post");
	{ ENGINE g_sem[s]++; }
	if (ON) yield("sem_post.ret");
	return 0;
}
int __wrap_sem_wait(sem_t *s)
{
	if (!ON) return 0;
	yield("sem_wait");
	ENGINE
	if (fault("sem_wait.EINTR")) { errno = EINTR; return -1; }
	block("sem", [s] { return g_sem[s] > 0; });
	g_sem[s]--;
	return 0;
}
int __wrap_sem_trywait(sem_t *s)
{
	if (ON) yield("sem_trywait");
	ENGINE
	if (g_sem[s] > 0) { g_sem[s]--; return 0; }
	errno = EAGAIN;
	return -1;
}
int __wrap_sched_yield()
{
	if (!ON) return __real_sched_yield();
	stall("sched_yield");
	return 0;
}
// thread specific data: simulated keys, so that key numbers, exhaustion and failures are under control
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
	if (!ON) { int r = __real_pthread_key_create(k, d); if (r == 0) g_realKeys.insert(*k); return r; }
	yield("key_create");
	ENGINE
	if (fault("pthread_key_create.EAGAIN")) { *k = 0xdead; ev("key_create", -EAGAIN); return EAGAIN; }
	pthread_key_t id = (pthread_key_t)g_keyBase;
	int tries = 0;
	while (g_keys.count(id) || g_realKeys.count(id)) { id = (id + 1) % 1024; if (++tries > 1024) { *k = 0xdead; return EAGAIN; } }
	if (g_keys.size() >= 1024) { *k = 0xdead; return EAGAIN; }
	g_keys[id] = SimKey{ ++g_keySeq, d };
	*k = id;
	ev("key_create", id);
	return 0;
}
int __wrap_pthread_key_delete(pthread_key_t k)
{
	if (!ON) return __real_pthread_key_delete(k);
	yield("key_delete");
	ENGINE
	if (!g_keys.count(k)) { fail("tls:delete-invalid-key", "pthread_key_delete of a key that is not live"); }
	g_keys.erase(k);
	ev("key_delete", k);
	return 0;
}
int __wrap_pthread_setspecific(pthread_key_t k, const void *v)
{
	if (!active()) return __real_pthread_setspecific(k, v);
	ENGINE
	auto it = g_keys.find(k);
	if (it == g_keys.end()) { if (g_realKeys.count(k)) return __real_pthread_setspecific(k, v); return EINVAL; }
	if (g_eng == 1) yieldFromEngine("setspecific");
	it = g_keys.find(k);
	if (it == g_keys.end()) return EINVAL;
	if (v && fault("pthread_setspecific.ENOMEM")) return ENOMEM;
	g_vals[{ t_self->id, k }] = { it->second.seq, (void *)v };
	return 0;
}
void *__wrap_pthread_getspecific(pthread_key_t k)
{
	if (!active()) return __real_pthread_getspecific(k);
	ENGINE
	auto it = g_keys.find(k);
	if (it == g_keys.end()) return g_realKeys.count(k) ? __real_pthread_getspecific(k) : nullptr;
	auto v = g_vals.find({ t_self->id, k });
	return v == g_vals.end() || v->second.first != it->second.seq ? nullptr : v->second.second;
}
// function-local statics
int __wrap___cxa_guard_acquire(uint64_t *g)
{
	if (!ON) return __real___cxa_guard_acquire(g);
	if (*(volatile char *)g) return 0;
	yield("guard");
	ENGINE
	if (g_guard.count(g)) block("guard", [g] { return !g_guard.count(g); });
	if (*(volatile char *)g) return 0;
	g_guard[g] = t_self->id;
	return 1;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
	if (!active() || !g_guard.count(g)) { __real___cxa_guard_release(g); return; }
	{ ENGINE *(char *)g = 1; g_guard.erase(g); }
	yield("guard.release");
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
	if (!active() || !g_guard.count(g)) { __real___cxa_guard_abort(g); return; }
	ENGINE
	g_guard.erase(g);
}

} // extern C
