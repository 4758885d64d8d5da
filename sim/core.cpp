#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include <algorithm>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
void __real__exit(int) __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
pid_t __real_fork();
pid_t __real_waitpid(pid_t, int *, int);
int __real_execv(const char *, char *const[]);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_close(int);
int __real_open(const char *, int, ...);
int __real_dup2(int, int);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_vfprintf(FILE *, const char *, va_list);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_unlink(const char *);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __real_fflush(FILE *);
}

namespace sim {

State S;
thread_local Thr *t_self = nullptr;
thread_local int g_quiet = 0;
thread_local int g_nofault = 0;
thread_local int g_eng = 0;
thread_local int g_noyield = 0;
void noTimeSkips() { S.pAdv = 0; S.noSkip = true; }

static long futex(std::atomic<int> *a, int op, int v)
{
	return syscall(SYS_futex, (int *)a, op, v, nullptr, nullptr, 0);
}
static void park(Thr *t)
{
	for (;;) {
		int v = t->go.load(std::memory_order_acquire);
		if (v) break;
		futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	}
	t->go.store(0, std::memory_order_relaxed);
}
static void unpark(Thr *t)
{
	t->go.store(1, std::memory_order_release);
	futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

// ---------------------------------------------------------------- random
static uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t rnd() { return splitmix(S.rng); }
double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

[[noreturn]] static void endChild(int status)
{
	S.slot->steps = S.steps; S.slot->mem = S.mem; S.slot->simTime = S.now; S.slot->evs = S.evs;
	S.slot->nfault = 0;
	for (auto& f : S.faults) {
		if (S.slot->nfault >= MAXKIND) break;
		if (!f.fired) continue;
		NameCount& c = S.slot->fault[S.slot->nfault++];
		snprintf(c.name, sizeof(c.name), "%s", f.name.c_str());
		c.n = f.fired;
	}
	S.slot->status = status;
	__real__exit(status == 1 ? 0 : status == 2 ? 77 : 79);
}

void record(uint32_t v)
{
	if (S.slot->ntrace >= MAXTRACE) endChild(3);
	S.slot->trace[S.slot->ntrace++] = v;
}
// one entry of the choice stream; gen() is called only in generating mode
template<class G>
static uint32_t draw(uint32_t n, G gen)
{
	uint32_t v;
	if (S.replay) {
		v = S.pos < S.nin ? S.in[S.pos++] : 0;
		if (n && v >= n) v = v % n;
	} else {
		v = gen();
	}
	record(v);
	return v;
}
uint32_t choose(uint32_t n)
{
	if (n <= 1) return 0;
	return draw(n, [&] { return (uint32_t)(rnd() % n); });
}
uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t biased(uint32_t n, double p0)
{
	if (n <= 1) return 0;
	return draw(n, [&] { return rnd01() < p0 ? 0u : 1u + (uint32_t)(rnd() % (n - 1)); });
}
bool chance(double p) { return draw(2, [&] { return rnd01() < p ? 1u : 0u; }) != 0; }
uint32_t pick(const std::vector<double>& w)
{ ENGINE
	return draw((uint32_t)w.size(), [&] {
		double s = 0; for (double x : w) s += x;
		double r = rnd01() * s;
		for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (uint32_t)i; r -= w[i]; }
		return (uint32_t)(w.size() - 1);
	});
}
uint32_t smallSize(uint32_t max)
{
	return draw(max + 1, [&] {
		switch (rnd() % 4) {
		case 0: return (uint32_t)(rnd() % (std::min<uint32_t>(max, 4) + 1));
		case 1: return (uint32_t)(rnd() % (std::min<uint32_t>(max, 40) + 1));
		case 2: return max - (uint32_t)(rnd() % (std::min<uint32_t>(max, 4) + 1));
		default: return (uint32_t)(rnd() % (max + 1));
		}
	});
}
std::string bytesFrom(uint32_t tag, size_t n)
{
	std::string s(n, 0);
	uint64_t x = tag;
	for (size_t i = 0; i < n; i++) { if (i % 8 == 0) splitmix(x); s[i] = (char)(splitmix(x) & 0xff); }
	return s;
}
std::string bytes(size_t n) { return bytesFrom(choose(1u << 20), n); }

// ---------------------------------------------------------------- faults
static FaultKind *findKind(const char *k)
{
	for (auto& f : S.faults) if (f.name == k) return &f;
	return nullptr;
}
void allow(const char *kind, double maxRate, int maxCount)
{ ENGINE
	FaultKind *f = findKind(kind);
	if (!f) { S.faults.push_back(FaultKind{ kind, true, maxRate, maxCount, 0, false, 0 }); return; }
	f->allowed = true; f->maxRate = maxRate; f->maxCount = maxCount;
}
// the next n calls all fail
void failNext(const char *kind, int n)
{
	allow(kind, 1, 0); ENGINE
	FaultKind *f = findKind(kind);
	f->maxCount = (int)f->fired + n; f->drawn = true; f->rate = 2;
}
void disallow(const char *kind) { if (FaultKind *f = findKind(kind)) f->allowed = false; }
void disallowAll() { for (auto& f : S.faults) f.allowed = false; }
bool fault(const char *kind)
{
	if (!active() || g_quiet > 0 || g_nofault > 0) return false; ENGINE
	FaultKind *f = findKind(kind);
	if (!f || !f->allowed) return false;
	if (f->maxCount >= 0 && (int)f->fired >= f->maxCount) return false;
	if (!f->drawn) {
		f->drawn = true;
		static const double lv[8] = { 0, 0, 0, 0.05, 0.15, 0.35, 0.7, 1.0 };
		f->rate = lv[choose(8)] * f->maxRate;
	}
	if (f->rate <= 0) return false;
	if (f->rate <= 1 && !chance(f->rate)) return false;
	f->fired++;
	S.slot->nontrivial |= 1;
	ev("fault");
	ev(kind, (int64_t)f->fired);
	return true;
}
void noteFault(const char *kind)
{ ENGINE
	FaultKind *f = findKind(kind);
	if (!f) { S.faults.push_back(FaultKind{ kind, false, 0, -1, 0, true, 0 }); f = &S.faults.back(); }
	f->fired++;
	S.slot->nontrivial |= 1;
	ev(kind, (int64_t)f->fired);
}
uint64_t fired(const char *kind) { FaultKind *f = findKind(kind); return f ? f->fired : 0; }
uint64_t firedTotal() { uint64_t n = 0; for (auto& f : S.faults) n += f.fired; return n; }

// ---------------------------------------------------------------- log
static void logText(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	uint32_t room = LOGCAP - S.slot->nlog;
	if (room > 300) {
		int n = vsnprintf(S.slot->log + S.slot->nlog, 280, fmt, ap);
		if (n > 279) n = 279;
		if (n > 0) S.slot->nlog += n;
		S.slot->log[S.slot->nlog++] = '\n';
		S.slot->log[S.slot->nlog] = 0;
	}
	va_end(ap);
}
void ev(const char *tag, int64_t a, int64_t b, int64_t c)
{ ENGINE
	if (!S.slot) return;
	uint64_t h = S.slot->hash;
	for (const char *p = tag; *p; p++) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
	int64_t v[4] = { a, b, c, active() ? t_self->id : -1 };
	for (int i = 0; i < 4; i++) { h ^= (uint64_t)v[i]; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
	S.slot->hash = h;
	S.evs++;
	if (S.verbose) logText("%8lld.%03lld T%d %s %lld %lld %lld", (long long)(S.now / 1000000), (long long)(S.now / 1000 % 1000), active() ? t_self->id : -1, tag, (long long)a, (long long)b, (long long)c);
}
void note(const char *fmt, ...)
{
	if (!S.verbose) return;
	char buf[260];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
	logText("# %s", buf);
}
void probe(const char *name)
{ ENGINE
	Slot *s = S.slot;
	for (int i = 0; i < s->nprobe; i++) if (!strcmp(s->probe[i].name, name)) { s->probe[i].n++; return; }
	if (s->nprobe >= MAXKIND) return;
	NameCount& c = s->probe[s->nprobe++];
	snprintf(c.name, sizeof(c.name), "%s", name);
	c.n = 1;
}
void fail(const char *key, const char *fmt, ...)
{
	S.on = false;
	va_list ap; va_start(ap, fmt);
	snprintf(S.slot->key, sizeof(S.slot->key), "%s", key);
	vsnprintf(S.slot->msg, sizeof(S.slot->msg), fmt, ap);
	va_end(ap);
	for (char *p = S.slot->msg; *p; p++) if ((unsigned char)*p < 0x20) *p = ' ';
	ev("FAIL");
	endChild(2);
}

// ---------------------------------------------------------------- time
int64_t now() { return S.now; }
int64_t realtime() { return 1600000000ll * SEC + S.now + S.rtOffset; }
void jumpRealtime(int64_t d) { S.rtOffset += d; ev("clockjump", d); }
void at(int64_t when, std::function<void()> fn)
{ ENGINE
	if (when < S.now) when = S.now;
	S.heap.push_back(Event{ when, S.seq++, fn });
	std::push_heap(S.heap.begin(), S.heap.end(), EventCmp());
}
uint64_t steps() { return S.steps; }
uint64_t seq() { return S.seq++; }
int self() { return t_self ? t_self->id : -1; }

// ---------------------------------------------------------------- scheduler
static bool enabled(Thr *t)
{
	if (t->done || !t->started) return false;
	if (!t->blocked) return true;
	if (t->pred) {
		ENGINE
		Thr *sv = t_self;
		t_self = t; // predicates look at the descriptors of their own process
		bool r = t->pred();
		t_self = sv;
		if (r) return true;
	}
	if (t->deadline >= 0 && S.now >= t->deadline) return true;
	if (t->interruptible && t->role == 0 && sigWanted(t)) return true;
	return false;
}
static void runDue()
{
	while (!S.heap.empty() && S.heap.front().at <= S.now) {
		std::pop_heap(S.heap.begin(), S.heap.end(), EventCmp());
		Event e = S.heap.back();
		S.heap.pop_back();
		g_quiet++;
		e.fn();
		g_quiet--;
	}
}
static int64_t nextTime()
{
	int64_t t = -1;
	if (!S.heap.empty()) t = S.heap.front().at;
	for (Thr *x : S.thr) {
		if (x->done || !x->blocked || x->deadline < 0) continue;
		if (t < 0 || x->deadline < t) t = x->deadline;
	}
	return t;
}
static void stepBudget()
{
	if (++S.steps > S.stepLimit) {
		std::string who;
		for (Thr *t : S.thr) if (!t->done) { who += " T" + std::to_string(t->id) + (t->blocked ? "(blocked:" : "(running:") + t->why + ")"; }
		fail("livelock", "no termination within %llu steps; threads:%s", (unsigned long long)S.stepLimit, who.c_str());
	}
}
void schedule(bool preferOther)
{
	Thr *cur = t_self;
	for (;;) {
		runDue();
		Thr *cand[64]; int n = 0;
		bool curOk = enabled(cur);
		if (curOk && !preferOther) cand[n++] = cur;
		for (Thr *t : S.thr) if (t != cur && enabled(t) && n < 62) cand[n++] = t;
		if (curOk && preferOther) cand[n++] = cur;
		int64_t nt = nextTime();
		bool canAdv = nt >= 0 && nt > S.now && !S.noSkip;
		if (n == 0) {
			if (nt >= 0) { stepBudget(); if (nt > S.now) S.now = nt; continue; }
			if (S.deadlockFn) { auto f = S.deadlockFn; S.deadlockFn = nullptr; g_quiet++; f(); g_quiet--; continue; }
			std::string who;
			for (Thr *t : S.thr) if (!t->done) { who += " T" + std::to_string(t->id) + "(" + t->name + ":" + t->why + ")"; }
			fail("deadlock", "no thread can run:%s", who.c_str());
		}
		int opts = n + (canAdv ? 1 : 0);
		uint32_t v = 0;
		if (opts > 1) {
			v = draw(opts, [&]() -> uint32_t {
				if (canAdv && rnd01() < S.pAdv) return n;
				if (n == 1) return 0;
				if (S.policy == 0) {
					if (preferOther) return rnd() % (curOk ? n - 1 : n);
					if (curOk && rnd01() < S.pStay) return 0;
					if (curOk) return 1 + rnd() % (n - 1);
					return rnd() % n;
				}
				if ((rnd01() < S.pctChange) || preferOther) { cur->prio = --S.lowPrio; }
				int best = 0;
				for (int i = 1; i < n; i++) if (cand[i]->prio > cand[best]->prio) best = i;
				return best;
			});
		}
		if ((int)v == n) { stepBudget(); S.now = nt; S.slot->nontrivial |= 2; ev("advance", S.now / 1000); continue; }
		Thr *t = cand[v];
		if (t != cur) {
			S.slot->switches++;
			S.slot->nontrivial |= 4;
			S.sinceSwitch = 0;
			ev("sw", t->id);
			S.cur = t;
			if (cur->done) { unpark(t); return; }
			unpark(t);
			park(cur);
		}
		return;
	}
}
static void yieldImpl(const char *why, bool other)
{
	if (!active() || g_quiet > 0 || g_noyield > 0) return; ENGINE
	t_self->why = why;
	stepBudget();
	S.seq++;
	S.now += 1000;
	schedule(other);
	if (!S.pendingSig.empty() && g_quiet == 0) deliverSignals();
}
void yield(const char *why) { yieldImpl(why, false); }
void stall(const char *why) { yieldImpl(why, true); }
Wake block(const char *why, std::function<bool()> ready, int64_t deadline, bool interruptible)
{ ENGINE
	if (!active()) { if (ready()) return READY; fprintf(stderr, "sim: block(%s) outside the simulation\n", why); abort(); }
	Thr *t = t_self;
	for (;;) {
		if (ready()) return READY;
		if (interruptible && !S.pendingSig.empty() && g_quiet == 0 && deliverSignals()) return SIGNALED;
		if (deadline >= 0 && S.now >= deadline) return TIMEOUT;
		stepBudget();
		t->why = why; t->pred = ready; t->deadline = deadline; t->interruptible = interruptible; t->blocked = true;
		schedule();
		t->blocked = false; t->pred = nullptr; t->deadline = -1; t->interruptible = false;
	}
}
static void drawGap()
{
	if (S.gapMean <= 0) { S.gap = -1; return; }
	uint32_t g = draw(0, [&]() -> uint32_t {
		double u = rnd01();
		double x = -__builtin_log(1 - u) * S.gapMean;
		return 1 + (uint32_t)std::min(x, 1e6);
	});
	S.gap = g == 0 ? -1 : (int64_t)g;
}
void preemptOff() { S.gapMean = 0; S.gap = -1; }
// called by the compiler-inserted hooks before every memory access of code under test
void memAccess()
{
	if (!S.on || !t_self || g_quiet > 0 || g_eng > 0) return;
	if (++S.mem > S.memLimit) fail("livelock", "no termination within %llu memory accesses (thread T%d %s)", (unsigned long long)S.memLimit, t_self->id, t_self->why);
	if (++S.sinceSwitch > 20000) { S.sinceSwitch = 0; stall("spin"); return; }
	if (S.gap < 0) return;
	if (--S.gap > 0) return;
	drawGap();
	// preempt: prefer another thread
	Thr *cur = t_self;
	int n = 0;
	for (Thr *t : S.thr) if (t != cur && enabled(t)) n++;
	if (n == 0) return;
	stall("preempt");
}
void setStepLimit(uint64_t s, uint64_t m) { S.stepLimit = s; S.memLimit = m; }
void onDeadlock(std::function<void()> fn) { ENGINE S.deadlockFn = fn; }

// ---------------------------------------------------------------- threads
static void finishThread(Thr *t)
{
	t->done = true;
	t->why = "done";
	ev("exit", t->id);
	schedule(); // hands the baton over; returns at once because t->done
}
void finishCurrent() { finishThread(t_self); }
static void *trampoline(void *p)
{
	Thr *t = (Thr *)p;
	t_self = t;
	g_quiet = 0; g_nofault = 0; g_eng = 0;
	park(t);
	if (t->body) t->body(); else t->ret = t->fn(t->arg);
	void *r = t->ret;
	threadKeyDtors();
	g_quiet = 0;
	g_eng = 1;
	finishThread(t);
	return r;
}
static const int PRIO_RANGE = 1000;
Thr *newThread(const char *name)
{ ENGINE
	Thr *t = new Thr();
	t->id = (int)S.thr.size();
	t->name = name;
	t->prio = PRIO_RANGE + (int64_t)(rnd() % PRIO_RANGE);
	if (t_self) t->role = t_self->role;
	sigemptyset(&t->mask);
	S.thr.push_back(t);
	if (S.thr.size() > 60) fail("harness:too-many-threads", "more than 60 threads in one run");
	return t;
}
int startThread(Thr *t, const pthread_attr_t *attr)
{
	g_quiet++;
	int r = __real_pthread_create(&t->pt, attr, trampoline, t);
	g_quiet--;
	if (r) { t->done = true; return r; }
	t->started = true;
	return 0;
}
int spawn(const char *name, std::function<void()> fn)
{ ENGINE
	Thr *t = newThread(name);
	t->harness = true;
	t->body = fn;
	if (startThread(t, nullptr)) { fail("harness:pthread_create", "cannot create a thread"); }
	ev("spawn", t->id);
	yield("spawn");
	return t->id;
}
void join(int id)
{
	Thr *t = S.thr[id];
	block("join", [t] { return t->done; });
	if (!t->joined) { t->joined = true; __real_pthread_join(t->pt, nullptr); }
}
void joinAll() { for (size_t i = 1; i < S.thr.size(); i++) if (S.thr[i]->harness) join((int)i); }
bool finished(int id) { return S.thr[id]->done; }
bool runnable(int id) { return enabled(S.thr[id]); }
int liveThreads() { int n = 0; for (Thr *t : S.thr) if (t->id && !t->done && !t->harness) n++; return n; }
int createdThreads() { return (int)S.thr.size() - 1; }
int blockedCount() { int n = 0; for (Thr *t : S.thr) if (!t->done && t->blocked && !enabled(t)) n++; return n; }
const char *blockedOn(int id) { Thr *t = S.thr[id]; return t->blocked && !enabled(t) ? t->why : ""; }

// ---------------------------------------------------------------- crash
void crashPointMaybe()
{
	if (!S.crashArmed || t_self != S.crashThr || g_quiet > 0) return;
	if (S.crashCountdown < 0) return;
	if (S.crashCountdown-- > 0) return;
	S.crashArmed = false;
	FaultKind *f = findKind("crash");
	if (!f) { allow("crash"); f = findKind("crash"); }
	f->fired++;
	S.slot->nontrivial |= 1;
	ev("CRASH");
	longjmp(S.crashJmp, 1);
}
bool crashable(std::function<void()> fn, bool enable)
{
	if (!enable) { fn(); return false; }
	static thread_local int q, nf, ge;
	q = g_quiet; nf = g_nofault; ge = g_eng;
	if (setjmp(S.crashJmp) == 0) {
		S.crashArmed = true;
		S.crashThr = t_self;
		uint32_t k = draw(0, [&]() -> uint32_t { return rnd() % 4 == 0 ? 0 : 1 + rnd() % (rnd() % 2 ? 8 : 60); });
		S.crashCountdown = k == 0 ? -1 : (long)k;
		fn();
		S.crashArmed = false;
		return false;
	}
	g_quiet = q; g_nofault = nf; g_eng = ge;
	S.crashArmed = false;
	g_quiet++;
	crashIo();
	g_quiet--;
	return true;
}

// ---------------------------------------------------------------- registry and runner
static std::vector<Scenario>& scen() { static std::vector<Scenario> v; return v; }
void reg(const char *n, void (*f)(), double w) { scen().push_back(Scenario{ n, f, w }); }

static void onTerminate()
{
	const char *what = "unknown exception";
	std::string w;
	if (std::type_info *ti = abi::__cxa_current_exception_type()) {
		w = ti->name();
		try { throw; } catch (std::exception& e) { w += ":"; w += e.what(); } catch (...) {}
		what = w.c_str();
	}
	fail("terminate", "std::terminate called: %s", what);
}

static const char *g_only = nullptr;
static const Scenario *pickScenario(uint64_t seed)
{
	uint64_t x = seed ^ 0x5ce9a10ull;
	double s = 0;
	for (auto& c : scen()) if (!g_only || !strcmp(g_only, c.name)) s += c.weight;
	double r = (splitmix(x) >> 11) * (1.0 / 9007199254740992.0) * s;
	const Scenario *last = nullptr;
	for (auto& c : scen()) {
		if (g_only && strcmp(g_only, c.name)) continue;
		last = &c;
		if (r < c.weight) return &c;
		r -= c.weight;
	}
	return last;
}

struct RunSpec { uint64_t seed; const Scenario *sc; bool replay; const uint32_t *in; uint32_t nin; bool verbose; };

static void childMain(const RunSpec& r, Slot *slot)
{
	S.slot = slot;
	S.replay = r.replay; S.in = r.in; S.nin = r.nin; S.pos = 0;
	S.verbose = r.verbose;
	S.rng = r.seed;
	slot->hash = 0xcbf29ce484222325ull;
	std::set_terminate(onTerminate);
	for (int s : { SIGALRM, SIGXCPU }) { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = SIG_DFL; __real_sigaction(s, &sa, nullptr); }
	alarm(20);
	struct rlimit rl; rl.rlim_cur = 8; rl.rlim_max = 8;
	setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	Thr *t = newThread("main");
	t->started = true;
	t->pt = pthread_self();
	t->harness = true;
	t_self = t;
	S.cur = t;
	runtimeInitChild();
	S.on = true;
	// per-run policy (swarm)
	static const double stay[] = { 0.2, 0.5, 0.8, 0.9, 0.97 };
	static const double adv[] = { 0, 0, 0.02, 0.1, 0.3 };
	static const double gaps[] = { 0, 3, 10, 40, 200, 1000 };
	S.pStay = stay[rnd() % 5];
	S.pAdv = adv[rnd() % 5];
	S.policy = rnd() % 3 == 0 ? 1 : 0;
	S.pctChange = (rnd() % 2) ? 0.02 : 0.1;
	uint32_t gi = draw(6, [&]() -> uint32_t { return rnd() % 6; });
	S.gapMean = gaps[gi];
	drawGap();
	r.sc->fn();
	S.on = false;
	ev("END", (int64_t)S.thr.size());
	endChild(1);
}

void giveUp(const char *why) { S.on = false; ev("GIVEUP"); (void)why; endChild(1); }

static int g_errfd = -1;

// returns status: 1 ok, 2 violation (slot->key set), 3 budget, 4 harness error
static int runChild(const RunSpec& r, Slot *slot)
{
	slot->status = 0; slot->key[0] = 0; slot->msg[0] = 0; slot->hash = 0; slot->steps = slot->mem = slot->switches = slot->evs = 0;
	slot->simTime = 0; slot->nontrivial = 0; slot->nfault = slot->nprobe = 0; slot->ntrace = 0; slot->nlog = 0; slot->log[0] = 0;
	pid_t pid = __real_fork();
	if (pid < 0) { snprintf(slot->msg, sizeof(slot->msg), "fork failed"); return 4; }
	if (pid == 0) {
		if (g_errfd >= 0) { __real_dup2(g_errfd, 2); __real_dup2(g_errfd, 1); }
		childMain(r, slot);
		__real__exit(80);
	}
	int st = 0;
	struct rusage ru; memset(&ru, 0, sizeof(ru));
	while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) {
		int c = WEXITSTATUS(st);
		if (c == 0) return 1;
		if (c == 77) return 2;
		if (c == 79) return 3;
		if (c == 78) {
			if (!slot->key[0]) snprintf(slot->key, sizeof(slot->key), "asan");
			return 2;
		}
		snprintf(slot->key, sizeof(slot->key), "exit:%d", c);
		snprintf(slot->msg, sizeof(slot->msg), "process exited with status %d inside the run", c);
		return 2;
	}
	int sig = WTERMSIG(st);
	if (sig == SIGALRM || sig == SIGXCPU || sig == SIGKILL) {
		snprintf(slot->key, sizeof(slot->key), "hang");
		snprintf(slot->msg, sizeof(slot->msg), "run did not terminate (killed by signal %d after %.1f s user and %.1f s system time, %llu steps)", sig, (double)ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6, (double)ru.ru_stime.tv_sec + ru.ru_stime.tv_usec * 1e-6, (unsigned long long)slot->steps);
		return 2;
	}
	snprintf(slot->key, sizeof(slot->key), "crash:sig%d", sig);
	snprintf(slot->msg, sizeof(slot->msg), "process killed by signal %d inside the run", sig);
	return 2;
}

struct Viol { uint64_t idx; char key[160]; uint64_t hash; };
struct Shared {
	std::atomic<uint64_t> next;
	std::atomic<int> stop;
	std::atomic<uint64_t> done, budget, herr, nontriv;
	std::atomic<uint64_t> steps, mem, switches, evs;
	std::atomic<int64_t> simTime;
	std::atomic<int> nviol;
	Viol viol[64];
	std::atomic<int> lock;
	int nfault, nprobe, nscen;
	NameCount fault[MAXKIND], probe[MAXKIND], scen[MAXKIND];
	char herrMsg[400];
	std::atomic<uint64_t> stalls; char stallMsg[300];
};
static void mergeCounts(NameCount *dst, int& nd, const NameCount *src, int ns)
{
	for (int i = 0; i < ns; i++) {
		int j = 0;
		for (; j < nd; j++) if (!strcmp(dst[j].name, src[i].name)) break;
		if (j == nd) { if (nd >= MAXKIND) continue; memcpy(dst[j].name, src[i].name, sizeof(dst[j].name)); dst[j].n = 0; nd++; }
		dst[j].n += src[i].n;
	}
}
static double wall()
{
	struct timespec ts;
	__real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t mixSeed(uint64_t seed, uint64_t idx)
{
	uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	splitmix(x);
	x ^= idx * 0xd6e8feb86659fd93ull;
	splitmix(x);
	return splitmix(x);
}
static void *shmap(size_t n)
{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); __real_exit(3); }
	return p;
}
static std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}
static void out(FILE *f, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); __real_vfprintf(f, fmt, ap); va_end(ap);
}

static bool writeReplay(const std::string& path, const Scenario *sc, uint64_t seed, uint64_t idx, const std::vector<uint32_t>& tr, const Slot *sl, bool unstable)
{
	FILE *f = __real_fopen(path.c_str(), "w");
	if (!f) return false;
	out(f, "# deterministic-simulation replay file\nproperty %s\nscenario %s\nverif_seed %llu\nrun %llu\nkey %s\nmessage %s\nhash %016llx\n%strace %zu", PROPERTY, sc->name, (unsigned long long)seed, (unsigned long long)idx, sl->key, sl->msg, (unsigned long long)sl->hash, unstable ? "unstable 1\n" : "", tr.size());
	for (uint32_t v : tr) out(f, " %u", v);
	out(f, "\n# ---- minimised schedule and fault trace (time in ms, thread, event, arguments)\n");
	__real_fwrite(sl->log, 1, sl->nlog, f);
	__real_fclose(f);
	return true;
}

static std::vector<uint32_t> shrink(const Scenario *sc, uint64_t rseed, std::vector<uint32_t> tr, const std::string& key, Slot *slot, double budget, int *execs)
{
	double t0 = wall();
	auto ok = [&](const std::vector<uint32_t>& t) {
		(*execs)++;
		RunSpec r{ rseed, sc, true, t.data(), (uint32_t)t.size(), false };
		int st = runChild(r, slot);
		return st == 2 && key == slot->key;
	};
	auto time = [&] { return wall() - t0 > budget; };
	auto trim = [](std::vector<uint32_t>& t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
	trim(tr);
	bool progress = true;
	while (progress && !time()) {
		progress = false;
		// truncate
		for (size_t cut = tr.size() / 2; cut >= 1 && !time(); cut /= 2) {
			while (tr.size() > cut) {
				std::vector<uint32_t> t(tr.begin(), tr.end() - cut);
				if (time() || !ok(t)) break;
				tr = t; trim(tr); progress = true;
			}
		}
		// delete chunks
		for (size_t len = std::max<size_t>(1, tr.size() / 4); len >= 1 && !time(); len /= 2) {
			for (size_t i = 0; i + len <= tr.size() && !time();) {
				std::vector<uint32_t> t(tr); t.erase(t.begin() + i, t.begin() + i + len);
				if (ok(t)) { tr = t; trim(tr); progress = true; } else i += len;
			}
			if (len == 1) break;
		}
		// zero chunks
		for (size_t len = std::max<size_t>(1, tr.size() / 4); len >= 1 && !time(); len /= 2) {
			for (size_t i = 0; i + len <= tr.size() && !time(); i += len) {
				bool nz = false;
				for (size_t j = i; j < i + len; j++) nz |= tr[j] != 0;
				if (!nz) continue;
				std::vector<uint32_t> t(tr);
				for (size_t j = i; j < i + len; j++) t[j] = 0;
				if (ok(t)) { tr = t; progress = true; }
			}
			if (len == 1) break;
		}
		trim(tr);
		// lower values
		for (size_t i = 0; i < tr.size() && !time(); i++) {
			for (uint32_t v : { tr[i] / 2, tr[i] - 1 }) {
				if (tr[i] == 0 || v >= tr[i]) continue;
				std::vector<uint32_t> t(tr); t[i] = v;
				if (ok(t)) { tr = t; progress = true; }
			}
		}
	}
	return tr;
}

static int doReplay(const char *path, Slot *slot)
{
	FILE *f = __real_fopen(path, "r");
	if (!f) { fprintf(stderr, "cannot open %s\n", path); return 3; }
	std::string all; char buf[65536]; size_t n;
	while ((n = __real_fread(buf, 1, sizeof(buf), f)) > 0) all.append(buf, n);
	__real_fclose(f);
	std::string scn, key; std::vector<uint32_t> tr; uint64_t seed = 0, idx = 0; std::string hash; bool unstable = false;
	size_t p = 0;
	while (p < all.size()) {
		size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
		std::string l = all.substr(p, e - p); p = e + 1;
		auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return l.compare(0, n, k) == 0 && l[n] == ' ' ? l.c_str() + n + 1 : nullptr; };
		if (const char *v = val("scenario")) scn = v;
		else if (const char *v = val("key")) key = v;
		else if (const char *v = val("verif_seed")) seed = strtoull(v, 0, 10);
		else if (const char *v = val("run")) idx = strtoull(v, 0, 10);
		else if (const char *v = val("hash")) hash = v;
		else if (val("unstable")) unstable = true;
		else if (const char *v = val("trace")) {
			char *q; size_t cnt = strtoull(v, &q, 10);
			for (size_t i = 0; i < cnt; i++) tr.push_back((uint32_t)strtoul(q, &q, 10));
			break;
		}
	}
	const Scenario *sc = nullptr;
	for (auto& c : scen()) if (scn == c.name) sc = &c;
	if (!sc) { fprintf(stderr, "unknown scenario %s\n", scn.c_str()); return 3; }
	RunSpec r{ mixSeed(seed, idx), sc, true, tr.data(), (uint32_t)tr.size(), true };
	int st = runChild(r, slot);
	// undefined behaviour in the code under test: the schedule repeats, its outcome need not
	for (int i = 0; unstable && !(st == 2 && key == slot->key) && i < 30; i++) st = runChild(r, slot);
	char h[20]; snprintf(h, sizeof(h), "%016llx", (unsigned long long)slot->hash);
	if (st == 2 && key == slot->key) {
		printf("%.*s", (int)slot->nlog, slot->log);
		printf("REPRODUCED key=%s hash=%s%s\n%s\n", slot->key, h, hash == h ? "" : " (event log differs from the file)", slot->msg);
		printf("VIOLATION property=%s replay=%s\n", PROPERTY, path);
		return hash == h || key == "hang" || unstable ? 1 : 4;
	}
	printf("NOT-REPRODUCED status=%d key=%s (expected %s) %s\n", st, slot->key, key.c_str(), slot->msg);
	return 0;
}

static void pin(int cpu)
{
	cpu_set_t all, one;
	CPU_ZERO(&all);
	if (sched_getaffinity(0, sizeof(all), &all)) return;
	int n = CPU_COUNT(&all);
	if (n <= 0) return;
	int k = cpu % n;
	for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof(one), &one); return; }
}

int simMain(int argc, char **argv)
{
	if (!getenv("SIM_NOASLR_DONE")) {
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_NOASLR_DONE", "1", 1);
			__real_execv("/proc/self/exe", argv);
		}
	}
	uint64_t seed = 1, runs = 1000, startIdx = 0; double maxWall = 60; int workers = 8; std::string outp, replay, replayDir = "."; std::vector<std::string> known; int selfcheck = 0; int samples = 3; double shrinkBudget = 20; uint64_t minRuns = 0;
	std::string dump; uint64_t dumpIdx = 0; bool hashes = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") seed = strtoull(nx(), 0, 10);
		else if (a == "--runs") runs = strtoull(nx(), 0, 10);
		else if (a == "--start") startIdx = strtoull(nx(), 0, 10);
		else if (a == "--max-wall") maxWall = atof(nx());
		else if (a == "--min-runs") minRuns = strtoull(nx(), 0, 10);
		else if (a == "--workers") workers = atoi(nx());
		else if (a == "--out") outp = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--replay-dir") replayDir = nx();
		else if (a == "--known") known.push_back(nx());
		else if (a == "--scenario") g_only = nx();
		else if (a == "--selfcheck") selfcheck = atoi(nx());
		else if (a == "--shrink") shrinkBudget = atof(nx());
		else if (a == "--dump") { dump = "1"; dumpIdx = strtoull(nx(), 0, 10); }
		else if (a == "--hashes") hashes = true;
		else if (a == "--list") { for (auto& c : scen()) printf("%s %g\n", c.name, c.weight); return 0; }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
	}
	g_errfd = __real_open("/dev/null", O_RDWR);
	if (getenv("SIM_STDERR")) g_errfd = -1;
	if (workers < 1) workers = 1;
	Slot *slot0 = (Slot *)shmap(sizeof(Slot));
	if (!replay.empty()) { pin(0); return doReplay(replay.c_str(), slot0); }
	if (!dump.empty()) {
		pin(0);
		uint64_t rs = mixSeed(seed, dumpIdx);
		RunSpec r{ rs, pickScenario(rs), false, nullptr, 0, true };
		int st = runChild(r, slot0);
		printf("%.*s", (int)slot0->nlog, slot0->log);
		printf("scenario=%s status=%d key=%s msg=%s hash=%016llx steps=%llu mem=%llu trace=%u\n", r.sc->name, st, slot0->key, slot0->msg, (unsigned long long)slot0->hash, (unsigned long long)slot0->steps, (unsigned long long)slot0->mem, slot0->ntrace);
		return 0;
	}
	double t0 = wall();
	Shared *sh = new (shmap(sizeof(Shared))) Shared();
	sh->next = startIdx;
	uint64_t endIdx = startIdx + runs;
	uint64_t *hv = (uint64_t *)shmap(sizeof(uint64_t) * (runs + 1) * 2);
	std::vector<Slot *> slots;
	for (int w = 0; w < workers; w++) slots.push_back((Slot *)shmap(sizeof(Slot)));
	std::vector<pid_t> pids;
	__real_fflush(stdout);
	for (int w = 0; w < workers; w++) {
		pid_t pid = __real_fork();
		if (pid == 0) {
			pin(w);
			Slot *sl = slots[w];
			for (;;) {
				if (sh->stop) break;
				double el = wall() - t0;
				if (el > maxWall && (sh->next.load() - startIdx >= minRuns || el > maxWall * 4)) break;
				uint64_t idx = sh->next.fetch_add(1);
				if (idx >= endIdx) break;
				uint64_t rs = mixSeed(seed, idx);
				RunSpec r{ rs, pickScenario(rs), false, nullptr, 0, false };
				int st = runChild(r, sl);
				if (st == 2 && !strcmp(sl->key, "hang")) { // a stall of the machine is not a hang
					if (sh->stalls++ == 0) snprintf(sh->stallMsg, sizeof(sh->stallMsg), "run %llu: %.200s", (unsigned long long)idx, sl->msg);
					st = runChild(r, sl);
				}
				sh->done++;
				hv[(idx - startIdx) * 2] = sl->hash;
				hv[(idx - startIdx) * 2 + 1] = sl->nontrivial ? 1 : 0;
				if (sl->nontrivial) sh->nontriv++;
				sh->steps += sl->steps; sh->mem += sl->mem; sh->switches += sl->switches; sh->simTime += sl->simTime; sh->evs += sl->evs;
				int z = 0;
				while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; sched_yield(); }
				mergeCounts(sh->fault, sh->nfault, sl->fault, sl->nfault);
				mergeCounts(sh->probe, sh->nprobe, sl->probe, sl->nprobe);
				NameCount nc; memset(&nc, 0, sizeof(nc)); snprintf(nc.name, sizeof(nc.name), "%s", r.sc->name); nc.n = 1;
				mergeCounts(sh->scen, sh->nscen, &nc, 1);
				sh->lock = 0;
				if (st == 3) sh->budget++;
				if (st == 4) { sh->herr++; snprintf(sh->herrMsg, sizeof(sh->herrMsg), "%s", sl->msg); sh->stop = 1; }
				if (st == 2) {
					bool k = false;
					for (auto& s : known) if (s == sl->key) k = true;
					int i = -1;
					if (k) { // one record per known key is enough
						bool have = false;
						for (int j = 0; j < std::min(sh->nviol.load(), 64); j++) if (!strcmp(sh->viol[j].key, sl->key)) have = true;
						if (!have) i = sh->nviol.fetch_add(1);
					} else i = sh->nviol.fetch_add(1);
					if (i >= 0 && i < 64) {
						sh->viol[i].idx = idx; sh->viol[i].hash = sl->hash;
						memcpy(sh->viol[i].key, sl->key, sizeof(sl->key));
					}
					if (!k) sh->stop = 1;
				}
			}
			__real__exit(0);
		}
		pids.push_back(pid);
	}
	for (pid_t p : pids) { int st; while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
	double explore = wall() - t0;
	pin(0);
	int rc = 0;
	std::string violKey, violMsg, replayPath, err; int nviol = std::min(sh->nviol.load(), 64); int execs = 0; size_t shrunkFrom = 0, shrunkTo = 0;
	std::vector<std::string> knownHit;
	if (sh->herr) { err = std::string("harness error: ") + sh->herrMsg; rc = 3; }
	std::vector<Viol> vs(sh->viol, sh->viol + nviol);
	std::sort(vs.begin(), vs.end(), [](const Viol& a, const Viol& b) { return a.idx < b.idx; });
	bool gateFailed = false;
	for (auto& v : vs) {
		bool k = false;
		for (auto& s : known) if (s == v.key) k = true;
		if (k) { knownHit.push_back(v.key); continue; }
		if (!violKey.empty()) continue;
		uint64_t rs = mixSeed(seed, v.idx);
		const Scenario *sc = pickScenario(rs);
		RunSpec r{ rs, sc, false, nullptr, 0, false };
		bool hang = !strcmp(v.key, "hang"), unstable = false; std::vector<uint32_t> tr; std::string m;
		auto hit = [&](int st) { return st == 2 && !strcmp(slot0->key, v.key); };
		for (int i = 0; i < 2 && !unstable; i++) {
			int st = runChild(r, slot0);
			if (!hit(st) || (slot0->hash != v.hash && !hang)) { unstable = true; m = std::string("idx ") + std::to_string(v.idx) + " first " + v.key + " then " + slot0->key + " status " + std::to_string(st); }
			tr.assign(slot0->trace, slot0->trace + slot0->ntrace);
		}
		if (unstable) {
			// The schedule is the same every time, the outcome is not: the code under test read or wrote memory it may
			// not (or the machine stalled). It is reported only if the violation itself comes back.
			bool again = false;
			for (int i = 0; i < (hang ? 2 : 30) && !again; i++) again = hit(runChild(r, slot0));
			tr.assign(slot0->trace, slot0->trace + slot0->ntrace);
			if (!again) { if (!hang) { gateFailed = true; err = "violation did not repeat with its seed: " + m; } continue; }
		}
		shrunkFrom = tr.size();
		std::vector<uint32_t> mn = tr;
		if (!unstable) {
			mn = shrink(sc, rs, tr, v.key, slot0, hang ? 0.0 : shrinkBudget, &execs);
			RunSpec rr{ rs, sc, true, mn.data(), (uint32_t)mn.size(), true };
			if (!hit(runChild(rr, slot0))) { unstable = true; mn = tr; m = "minimised trace did not repeat"; }
		}
		shrunkTo = mn.size();
		bool got = false;
		for (int round = 0; round < 3 && !got; round++) {
			if (round >= 1) { if (hang) break; unstable = true; mn = tr; shrunkTo = mn.size(); }
			RunSpec rr{ rs, sc, true, mn.data(), (uint32_t)mn.size(), true };
			if (round == 2) { // memory is damaged and the damage shows in another way in the replay
				bool other = runChild(rr, slot0) == 2 && strcmp(slot0->key, "hang");
				for (auto& s : known) if (s == slot0->key) other = false;
				if (!other) break;
				memcpy(v.key, slot0->key, sizeof(v.key));
			}
			int st = 0;
			for (int i = 0; i < (unstable && !hang ? 30 : 1) && !hit(st); i++) st = runChild(rr, slot0);
			if (!hit(st)) { err = "trace did not repeat: " + m; continue; }
			std::string kk = v.key;
			for (char& c : kk) if (!isalnum((unsigned char)c) && c != '-' && c != '_') c = '_';
			std::string path = replayDir + "/" + PROPERTY + "-" + kk.substr(0, 60) + ".replay";
			if (!writeReplay(path, sc, seed, v.idx, mn, slot0, unstable)) { err = "cannot write " + path; break; }
			std::string msg = slot0->msg;
			// fresh-process replay
			pid_t p = __real_fork();
			if (p == 0) {
				int dn = __real_open("/dev/null", O_RDWR);
				__real_dup2(dn, 1);
				char *av[] = { argv[0], (char *)"--replay", (char *)path.c_str(), nullptr };
				__real_execv("/proc/self/exe", av);
				__real__exit(99);
			}
			int wst; while (__real_waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
			if (!WIFEXITED(wst) || WEXITSTATUS(wst) != 1) { err = "fresh-process replay did not reproduce " + path + " (status " + std::to_string(wst) + ")"; m = err; continue; }
			violKey = v.key; violMsg = msg; replayPath = path; got = true;
		}
		if (!got) { if (!hang) gateFailed = true; continue; }
		if (unstable) violMsg += " (the outcome of this schedule varies: the code under test has undefined behaviour here; the replay retries)";
		err.clear();
	}
	if (!violKey.empty()) rc = 1;
	else if (gateFailed) rc = 3;
	// determinism self-check on a sample of run indices
	int scDone = 0, scBad = 0;
	uint64_t total = sh->done.load();
	if (rc == 0 && selfcheck > 0 && total > 0) {
		Shared *s2 = new (shmap(sizeof(Shared))) Shared();
		std::vector<pid_t> ps;
		for (int w = 0; w < workers; w++) {
			pid_t pid = __real_fork();
			if (pid == 0) {
				pin(workers - 1 - w);
				for (int i = w; i < selfcheck; i += workers) {
					uint64_t k = (uint64_t)i * total / selfcheck;
					if (hv[k * 2] == 0) continue;
					uint64_t rs = mixSeed(seed, startIdx + k);
					RunSpec r{ rs, pickScenario(rs), false, nullptr, 0, false };
					runChild(r, slots[w]);
					s2->done++;
					if (slots[w]->hash != hv[k * 2]) { s2->budget++; if (s2->nviol.fetch_add(1) == 0) s2->viol[0].idx = startIdx + k; }
				}
				__real__exit(0);
			}
			ps.push_back(pid);
		}
		for (pid_t p : ps) { int st; while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
		scDone = (int)s2->done; scBad = (int)s2->budget;
		if (scBad) { err = "determinism self-check: different outcome for run " + std::to_string(s2->viol[0].idx); }
	}
	std::vector<uint64_t> hs, hn;
	for (uint64_t i = 0; i < runs; i++) if (hv[i * 2]) { hs.push_back(hv[i * 2]); if (hv[i * 2 + 1]) hn.push_back(hv[i * 2]); }
	std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
	std::sort(hn.begin(), hn.end()); hn.erase(std::unique(hn.begin(), hn.end()), hn.end());
	if (hashes) { uint64_t x = 0; for (uint64_t i = 0; i < runs; i++) { x ^= hv[i * 2] + i; x *= 0x100000001b3ull; } printf("HASHES %016llx\n", (unsigned long long)x); }
	if (!outp.empty()) {
		FILE *f = __real_fopen(outp.c_str(), "w");
		if (!f) { fprintf(stderr, "cannot write %s\n", outp.c_str()); return 3; }
		out(f, "{\"property\":\"%s\",\"seed\":%llu,\"rc\":%d,\"error\":\"%s\",\n", PROPERTY, (unsigned long long)seed, rc, jesc(err).c_str());
		out(f, "\"runs\":%llu,\"planned\":%llu,\"explore_wall\":%.3f,\"wall\":%.3f,\"workers\":%d,\"budget_stopped\":%llu,\"nontrivial\":%llu,\n", (unsigned long long)total, (unsigned long long)runs, explore, wall() - t0, workers, (unsigned long long)sh->budget.load(), (unsigned long long)sh->nontriv.load());
		out(f, "\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"steps\":%llu,\"mem_accesses\":%llu,\"switches\":%llu,\"events\":%llu,\"sim_seconds\":%.3f,\n", hs.size(), hn.size(), (unsigned long long)sh->steps.load(), (unsigned long long)sh->mem.load(), (unsigned long long)sh->switches.load(), (unsigned long long)sh->evs.load(), (double)sh->simTime.load() / 1e9);
		auto tbl = [&](const char *nm, NameCount *c, int n) { out(f, "\"%s\":{", nm); for (int i = 0; i < n; i++) out(f, "%s\"%s\":%llu", i ? "," : "", jesc(c[i].name).c_str(), (unsigned long long)c[i].n); out(f, "},\n"); };
		tbl("faults", sh->fault, sh->nfault); tbl("probes", sh->probe, sh->nprobe); tbl("scenarios", sh->scen, sh->nscen);
		out(f, "\"stalls\":%llu,\"stall\":\"%s\",\"selfcheck\":%d,\"selfcheck_bad\":%d,\"real\":\"%s\",\"stub\":\"%s\",\n", (unsigned long long)sh->stalls.load(), jesc(sh->stallMsg).c_str(), scDone, scBad, jesc(REAL_COMPONENTS).c_str(), jesc(STUB_COMPONENTS).c_str());
		out(f, "\"known_hit\":["); for (size_t i = 0; i < knownHit.size(); i++) out(f, "%s\"%s\"", i ? "," : "", jesc(knownHit[i]).c_str()); out(f, "],\n");
		out(f, "\"violation\":{\"key\":\"%s\",\"msg\":\"%s\",\"replay\":\"%s\",\"shrink_execs\":%d,\"trace_from\":%zu,\"trace_to\":%zu},\n", jesc(violKey).c_str(), jesc(violMsg).c_str(), jesc(replayPath).c_str(), execs, shrunkFrom, shrunkTo);
		out(f, "\"samples\":[");
		int ns = 0;
		for (uint64_t k = 0; k < total && ns < samples; k += std::max<uint64_t>(1, total / 7)) {
			if (!hv[k * 2 + 1]) continue;
			uint64_t rs = mixSeed(seed, startIdx + k);
			RunSpec r{ rs, pickScenario(rs), false, nullptr, 0, true };
			runChild(r, slot0);
			std::string lg(slot0->log, std::min<uint32_t>(slot0->nlog, 1200));
			out(f, "%s{\"run\":%llu,\"scenario\":\"%s\",\"steps\":%llu,\"switches\":%llu,\"choices\":%u,\"hash\":\"%016llx\",\"log_head\":\"%s\"}", ns ? "," : "", (unsigned long long)(startIdx + k), r.sc->name, (unsigned long long)slot0->steps, (unsigned long long)slot0->switches, slot0->ntrace, (unsigned long long)slot0->hash, jesc(lg).c_str());
			ns++;
		}
		out(f, "]}\n");
		__real_fclose(f);
	}
	if (rc == 1) printf("VIOLATION property=%s replay=%s\n  key=%s\n  %s\n", PROPERTY, replayPath.c_str(), violKey.c_str(), violMsg.c_str());
	if (rc == 3) printf("CHECK-ERROR property=%s %s\n", PROPERTY, err.c_str());
	return rc;
}

} // sim

#if defined(SIM_ASAN)
extern "C" {
void __asan_set_error_report_callback(void (*)(const char *));
const char *__asan_default_options() { return "exitcode=78:detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:max_allocation_size_mb=2000:print_legend=0:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=2:handle_abort=0:strict_string_checks=0:verify_asan_link_order=0"; }
}
static void asanReport(const char *r)
{
	if (!sim::S.slot) return;
	std::string s(r);
	std::string kind = "unknown";
	size_t p = s.find("AddressSanitizer: ");
	if (p != std::string::npos) { size_t e = s.find_first_of(" \n", p + 18); kind = s.substr(p + 18, e - p - 18); }
	snprintf(sim::S.slot->key, sizeof(sim::S.slot->key), "memory:%s", kind.c_str());
	snprintf(sim::S.slot->msg, sizeof(sim::S.slot->msg), "%.600s", s.c_str());
	for (char *q = sim::S.slot->msg; *q; q++) if ((unsigned char)*q < 0x20) *q = ' ';
}
#endif

int main(int argc, char **argv)
{
#if defined(SIM_ASAN)
	__asan_set_error_report_callback(asanReport);
#endif
	int r = sim::simMain(argc, argv);
	__real_fflush(stdout);
	__real__exit(r);
}

// allocation failure injection
namespace sim { namespace mem {
static const size_t TN = 1 << 17; // open addressing; 1 marks a removed entry
static uintptr_t *g_tab; static size_t *g_len; static size_t g_used; static bool g_track, g_planned; static uint64_t g_first, g_num, g_idx, g_failed;
static size_t slot(uintptr_t p) { return (p >> 4) * 0x9e3779b97f4a7c15ull >> 47; }
static void add(void *q, size_t n) { if (g_used > TN / 2) return; size_t i = slot((uintptr_t)q) % TN; while (g_tab[i] > 1) i = (i + 1) % TN; if (g_tab[i] == 0) g_used++; g_tab[i] = (uintptr_t)q; g_len[i] = n; }
static void del(void *q) { size_t i = slot((uintptr_t)q) % TN; while (g_tab[i]) { if (g_tab[i] == (uintptr_t)q) { g_tab[i] = 1; return; } i = (i + 1) % TN; } }
void track() { if (!g_tab) { g_tab = (uintptr_t *)malloc(TN * 8); g_len = (size_t *)malloc(TN * 8); } memset(g_tab, 0, TN * 8); g_used = 0; g_track = true; }
void untrack() { g_track = false; }
size_t live(size_t *b) { size_t n = 0, s = 0; if (g_tab) for (size_t i = 0; i < TN; i++) if (g_tab[i] > 1) { n++; s += g_len[i]; } if (b) *b = s; return n; }
void plan(uint64_t f, uint64_t n) { g_first = f; g_num = n; g_idx = g_failed = 0; g_planned = true; }
uint64_t endPlan() { g_planned = false; return g_idx; }
uint64_t failed() { return g_failed; }
static bool planned() { if (!g_planned || g_quiet > 0 || g_nofault > 0) return false; uint64_t i = g_idx++; if (i < g_first || i - g_first >= g_num) return false; g_failed++; noteFault("alloc.planned"); return true; }
bool failNow() { return g_eng == 0 && planned(); }
static inline void onFree(void *p) { if (g_track && p) del(p); free(p); }
} }
void *operator new(size_t n)
{
	if (sim::g_eng == 0 && (sim::mem::planned() || sim::fault("alloc"))) throw std::bad_alloc();
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (sim::mem::g_track && sim::g_eng == 0) sim::mem::add(p, n);
	return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
void operator delete(void *p, const std::nothrow_t&) noexcept { sim::mem::onFree(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { sim::mem::onFree(p); }
void operator delete(void *p) noexcept { sim::mem::onFree(p); }
void operator delete[](void *p) noexcept { sim::mem::onFree(p); }
void operator delete(void *p, size_t) noexcept { sim::mem::onFree(p); }
void operator delete[](void *p, size_t) noexcept { sim::mem::onFree(p); }
