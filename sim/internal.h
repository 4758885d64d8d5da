#pragma once
#include "sim.h"
#include <pthread.h>
#include <setjmp.h>
#include <atomic>
#include <signal.h>
#include <string.h>
#include <errno.h>

namespace sim {

const int MAXKIND = 96;
const uint32_t MAXTRACE = 1u << 18;
const uint32_t LOGCAP = 1u << 18;

struct NameCount { char name[48]; uint64_t n; };
struct Slot { // shared memory, one per worker
	volatile int status;      // 0 running, 1 ok, 2 violation, 3 budget, 4 harness error
	char key[160];
	char msg[1500];
	uint64_t hash;
	uint64_t steps, mem, switches, evs;
	int64_t simTime;
	int nontrivial;
	int nfault, nprobe;
	NameCount fault[MAXKIND];
	NameCount probe[MAXKIND];
	uint32_t ntrace;
	uint32_t trace[MAXTRACE];
	uint32_t nlog;
	char log[LOGCAP];
};

struct Thr {
	int id = 0;
	std::string name;
	pthread_t pt{};
	bool started = false, done = false, detached = false, joined = false, harness = false;
	bool blocked = false;
	bool interruptible = false;
	std::function<bool()> pred;
	int64_t deadline = -1;
	const char *why = "";
	std::atomic<int> go{0};
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	std::function<void()> body;
	void *ret = nullptr;
	int64_t prio = 0;
	sigset_t mask;
	size_t stackSize = 0;
	int role = 0; // simulated process id (0 = parent)
};

struct Event { int64_t at; uint64_t seq; std::function<void()> fn; };
struct EventCmp { bool operator()(const Event& a, const Event& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };

struct FaultKind { std::string name; bool allowed; double maxRate; int maxCount; double rate; bool drawn; uint64_t fired; };

struct State {
	Slot *slot = nullptr;
	bool on = false;
	bool replay = false;
	bool verbose = false;
	const uint32_t *in = nullptr; uint32_t nin = 0, pos = 0;
	uint64_t rng = 0;
	int64_t now = 0;
	int64_t rtOffset = 0;
	uint64_t steps = 0, mem = 0, seq = 0, evs = 0;
	uint64_t stepLimit = 60000, memLimit = 30000000;
	int64_t gap = -1; // memory accesses until next preemption, -1: none
	uint64_t sinceSwitch = 0;
	double pStay = 0.5, pAdv = 0.05; int policy = 0; double gapMean = 0; double pctChange = 0.05;
	int64_t lowPrio = 0; bool noSkip = false;
	std::vector<Thr*> thr;
	Thr *cur = nullptr;
	std::vector<Event> heap;
	std::function<void()> deadlockFn;
	std::vector<FaultKind> faults;
	std::vector<int> pendingSig;
	jmp_buf crashJmp; bool crashArmed = false; bool crashing = false; Thr *crashThr = nullptr; long crashCountdown = -1;
};
extern State S;
extern thread_local Thr *t_self;

inline bool active() { return S.on && t_self != nullptr; }
extern thread_local int g_eng; // >0: inside the simulator itself
extern thread_local int g_noyield; // >0: no scheduling point (libc holds a lock), faults still fire
void finishCurrent();
void threadKeyDtors();
struct PrefixRec { const char *name; long ret; int err; int a, b; };
struct PrefixLog { std::vector<PrefixRec> rec; bool replay = false; size_t pos = 0; };
extern thread_local PrefixLog *t_prefix;
void logCall(const char *name, long ret, int e, int a = 0, int b = 0);
bool replayCall(const char *name, long *ret, int *a = nullptr, int *b = nullptr);
bool sigWanted(Thr *t);
struct Eng { Eng() { g_eng++; } ~Eng() { g_eng--; } };
#define ENGINE ::sim::Eng eng_guard_;
// a call made by code under test inside a simulated thread
inline bool quiet() { return !active() || g_quiet > 0; }

void schedule(bool preferOther = false);
void memAccess();
void resetIo();
void resetPthread();
void resetNet();
void resetProc();
void crashIo();
bool deliverSignals();
uint64_t rnd();
double rnd01();
void record(uint32_t v);
void runtimeInitChild();
Thr *newThread(const char *name);
int startThread(Thr *t, const pthread_attr_t *attr);
int procOf();

typedef void (*SigHandler)(int);
struct sigaction *sigTable();
bool sigIgnored(int sig);
void raiseSync(int sig); // synchronous signal such as SIGPIPE

} // sim
