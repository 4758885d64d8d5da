// Deterministic simulator: public interface used by the scenario files.
// Nothing in sim/ depends on /repo.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <memory>
#include <functional>
#include <set>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run is one entry of a single choice stream.  Value 0 is
// always the benign one (keep running, no fault, smallest operation).
uint32_t choose(uint32_t n);                 // uniform in [0,n)
uint32_t range(uint32_t lo, uint32_t hi);    // uniform in [lo,hi]
uint32_t biased(uint32_t n, double p0);      // 0 with probability p0, else uniform in [1,n)
bool chance(double p);                       // 1 with probability p
uint32_t pick(const std::vector<double>& w); // weighted index
uint32_t smallSize(uint32_t max);            // size skewed to small values and to max
std::string bytes(size_t n);                 // n bytes, content derived from ONE choice (cheap in the trace)
std::string bytesFrom(uint32_t tag, size_t n);

// ---------------------------------------------------------------- faults
// A fault kind can fire only after allow().  Its rate is itself drawn per run
// (swarm): about half of the runs have a given kind switched off.
void allow(const char *kind, double maxRate = 0.3, int maxCount = -1);
void failNext(const char *kind, int n);      // the next n calls all fail
void disallow(const char *kind);
void disallowAll();
bool fault(const char *kind);                // true: inject now (counted)
void noteFault(const char *kind);             // count a fault that a configured limit produced
uint64_t fired(const char *kind);            // how often it fired in this run
uint64_t firedTotal();

// ---------------------------------------------------------------- log, verdict
void ev(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // replay text only, never hashed
void probe(const char *name);
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, key, ...) do { if (!(cond)) ::sim::fail(key, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- time
int64_t now();                               // simulated monotonic ns
int64_t realtime();                          // simulated wall clock ns (may jump)
void jumpRealtime(int64_t delta);
void at(int64_t when, std::function<void()> fn);
inline void after(int64_t d, std::function<void()> fn) { at(now() + d, fn); }
const int64_t MS = 1000000;
const int64_t SEC = 1000000000;

// ---------------------------------------------------------------- threads
enum Wake { READY, TIMEOUT, SIGNALED };
Wake block(const char *why, std::function<bool()> ready, int64_t deadline = -1, bool interruptible = false);
void yield(const char *why);                 // scheduling point
void stall(const char *why);                 // scheduling point that prefers somebody else
int self();
uint64_t steps();
uint64_t seq();                              // global event sequence number
int spawn(const char *name, std::function<void()> fn); // harness thread running SUT calls
void join(int id);
void joinAll();
bool runnable(int id);
bool finished(int id);
int blockedCount();                          // threads parked in a blocking call
const char *blockedOn(int id);               // "" when runnable
int liveThreads();                           // created and not finished (excluding main)
int createdThreads();
void onDeadlock(std::function<void()> fn);   // default: violation "deadlock"
void setStepLimit(uint64_t steps, uint64_t mem);
extern thread_local int g_quiet;             // >0: no preemption and no fault in this thread
extern thread_local int g_nofault;           // >0: preemption but no fault
struct Quiet { Quiet() { g_quiet++; } ~Quiet() { g_quiet--; } };
struct NoFault { NoFault() { g_nofault++; } ~NoFault() { g_nofault--; } };
void preemptOff();                           // no memory-level preemption in this run
bool exits(std::function<void()> fn, int *code);
void giveUp(const char *why);                // ends the run without a verdict (it would take too long)
void urandGiveUp(uint64_t calls);            // give up when the random device was read that often
void leave();                                // the calling (really forked) process continues outside of the simulation
void noTimeSkips();                          // time moves only when nothing can run
int keysLive();
void setKeyBase(int b);
int attrBalance();

// ---------------------------------------------------------------- weak memory (T builds)
// A plain write is certain to be seen only by threads the atomic operations order after it.
namespace hb {
void start();
uint64_t ops();                              // atomic operations the instrumented code did
uint32_t stamp();                            // a write by this thread, now
bool sees(int tid, uint32_t stamp);          // is that write visible to this thread
}

// ---------------------------------------------------------------- signals
void raiseSignal(int sig);                   // asynchronous signal to the simulated process
bool signalPending();
void deliverNow();                           // deliver pending signals in this thread

// ---------------------------------------------------------------- crash
// Runs fn; a crash may be injected at any simulated system call inside it.
// Returns true if the process "crashed": only durable state survives.
bool crashable(std::function<void()> fn, bool enable);
void crashPointMaybe();

// ---------------------------------------------------------------- virtual file system
namespace fs {
void put(const std::string& path, const std::string& data);       // durable
void mkdir(const std::string& path);
bool exists(const std::string& path);
std::string get(const std::string& path);
std::string durable(const std::string& path, bool *exists);
void remove(const std::string& path);
std::vector<std::string> list(const std::string& dir);
void setDType(const std::string& path, int dtype);
bool fullySynced(const std::string& path);                        // no pending change
void diskLimit(int64_t bytes);
void cap(const std::string& path, size_t maxPerCall);
// "/sim/huge": a file whose content is never touched; transfers are only recorded
void hugeSize(uint64_t n);                   // size of /sim/huge; a run that reads or writes it in very many small pieces is given up
std::vector<std::pair<const void *, size_t>>& hugeLog();
int openCount();                                                   // open sim descriptors
int openDirs();
int openMaps();
int openFiles();                                                   // FILE*
int badCloses();
std::string describeOpen();
int64_t ioCalls();
}
void setFdBase(int base);
std::string& urandLog();                     // all bytes the random device delivered, in order
uint64_t urandReads();
std::string& capturedStderr();
std::string& capturedStdout();
struct SyslogEntry { int pri; std::string msg; };
std::vector<SyslogEntry>& syslogEntries();

// ---------------------------------------------------------------- network
namespace net {
struct Opt { bool isSock; int nonblock; int64_t rcvtimeo_us, sndtimeo_us; int rcvbuf, sndbuf, lingerOn, lingerSec; bool lingerSet; int reuse, v6only, nodelay, keepalive; int family; };
Opt opts(int fd);
void delays(int64_t minNs, int64_t maxNs);
void bufs(int sndCap, int rcvCap);
void reset(int fd);                 // abort the connection from this end (RST)
int sutFdCount();
size_t pendingTo(int fd);           // bytes queued (in flight + buffered) towards fd
void blackhole(uint16_t port, bool on);
void setHost(const std::string& name, const std::vector<std::string>& addrs);
int addrinfoLive();
int64_t bytesSentBy(int fd);
std::string peekRx(int fd);
bool finReceived(int fd);
void cut(uint16_t port);
void huge(int fd);                   // transfers of any size that touch no memory, recorded in fs::hugeLog()
int newest();                        // descriptor of the newest socket of the code under test
int state(int fd);
bool connected(int fd);
extern thread_local int g_peer;        // >0: sockets made now belong to the harness
struct PeerScope { NoFault n; PeerScope() { g_peer++; } ~PeerScope() { g_peer--; } };
}

// ---------------------------------------------------------------- processes
namespace proc {
struct Child {
	int pid; std::string exe; std::vector<std::string> argv; bool execed; bool exited; int status; bool reaped;
	std::map<int, std::string> fds; // inherited descriptors at exec
	bool failedExec;
	bool usedExit;
};
std::vector<Child>& children();
void exitChild(int pid, int code);      // program terminates
void killChild(int pid, int sig);
void setExecutable(const std::string& path, bool ok);
void setOpenMax(int n);
void call(std::function<void()> fn);     // fn may fork once; the child repeats fn up to its fork
}

// ---------------------------------------------------------------- allocation
// operator new fails (std::bad_alloc) when the fault kind "alloc" fires.
// A plan fails the calls of operator new with index first <= i < first + n (counted from mem::plan); mem::live tells how many
// blocks allocated since mem::track are not yet freed.
namespace mem {
void track();                                // forget all blocks, count from now on
void untrack();
size_t live(size_t *bytes = nullptr);
void plan(uint64_t first, uint64_t n);
uint64_t endPlan();                          // number of allocations since plan()
uint64_t failed();                           // failed allocations since plan()
bool failNow();                              // counts an allocation made in another way than by operator new; true: it has to fail
}

// ---------------------------------------------------------------- scenario registry
struct Scenario { const char *name; void (*fn)(); double weight; };
void reg(const char *name, void (*fn)(), double weight);
struct Reg { Reg(const char *n, void (*f)(), double w) { reg(n, f, w); } };
#define SCENARIO(name, weight) \
	static void scen_##name(); \
	static ::sim::Reg reg_##name(#name, scen_##name, weight); \
	static void scen_##name()

// property id and text for the evidence, defined by the scenario file
extern const char *PROPERTY;
extern const char *REAL_COMPONENTS;
extern const char *STUB_COMPONENTS;

} // sim
