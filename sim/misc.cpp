#include <setjmp.h>
// Simulated clocks, sleeping, signals, processes, randomness and process exit.
#include "io.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <algorithm>

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
int __real_raise(int);
int __real_kill(pid_t, int);
int __real_pthread_sigmask(int, const sigset_t *, sigset_t *);
int __real_sigprocmask(int, const sigset_t *, sigset_t *);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
pid_t __real_fork();
pid_t __real_waitpid(pid_t, int *, int);
int __real_execv(const char *, char *const[]);
int __real_pause();
long __real_sysconf(int);
pid_t __real_getpid();
ssize_t __real_getrandom(void *, size_t, unsigned);
}

namespace sim {

// ---------------------------------------------------------------- signals
static struct sigaction g_sig[65];
static bool g_sigSet[65];
struct sigaction *sigTable() { return g_sig; }
bool sigIgnored(int s) { return g_sigSet[s] && !(g_sig[s].sa_flags & SA_SIGINFO) && g_sig[s].sa_handler == SIG_IGN; }
bool sigDefault(int s) { return !g_sigSet[s] || (!(g_sig[s].sa_flags & SA_SIGINFO) && g_sig[s].sa_handler == SIG_DFL); }
static void runHandler(int sig)
{
	struct sigaction sa = g_sig[sig];
	sigset_t old = t_self->mask;
	for (int i = 1; i < 65; i++) if (sigismember(&sa.sa_mask, i) == 1) sigaddset(&t_self->mask, i);
	if (!(sa.sa_flags & SA_NODEFER)) sigaddset(&t_self->mask, sig);
	if (sa.sa_flags & SA_RESETHAND) { g_sig[sig].sa_handler = SIG_DFL; g_sig[sig].sa_flags = 0; }
	ev("handler", sig);
	probe("signal handler ran");
	int e = g_eng, q = g_quiet, ny = g_noyield;
	g_eng = 0;
	if (sa.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof(si)); si.si_signo = sig; sa.sa_sigaction(sig, &si, nullptr); }
	else sa.sa_handler(sig);
	g_eng = e; g_quiet = q; g_noyield = ny;
	t_self->mask = old;
}
void raiseSync(int sig)
{
	if (sigIgnored(sig)) return;
	if (sigDefault(sig)) fail("signal:killed", "process killed by signal %d (default action)", sig);
	runHandler(sig);
}
void raiseSignal(int sig) { ENGINE S.pendingSig.push_back(sig); ev("signal", sig); }
bool signalPending() { return !S.pendingSig.empty(); }
bool sigWanted(Thr *t) { for (int s : S.pendingSig) if (sigismember(&t->mask, s) != 1) return true; return false; }
// returns true when a handler ran that makes a blocking call fail with EINTR
bool deliverSignals()
{
	bool intr = false;
	for (size_t i = 0; i < S.pendingSig.size();) {
		int sig = S.pendingSig[i];
		if (t_self->role != 0 || sigismember(&t_self->mask, sig) == 1) { i++; continue; }
		S.pendingSig.erase(S.pendingSig.begin() + i);
		if (sigIgnored(sig)) continue;
		if (sigDefault(sig)) { if (sig == SIGCHLD || sig == SIGWINCH || sig == SIGURG) continue; fail("signal:killed", "process killed by signal %d (default action)", sig); }
		bool restart = (g_sig[sig].sa_flags & SA_RESTART) != 0;
		runHandler(sig);
		if (!restart) intr = true;
		i = 0;
	}
	return intr;
}
void deliverNow() { if (!active()) return; ENGINE deliverSignals(); }

// ---------------------------------------------------------------- processes
static std::vector<proc::Child> g_children;
static std::map<std::string, bool> g_exec;
static int g_nextPid = 1000;
static thread_local const std::function<void()> *t_start = nullptr;
thread_local PrefixLog *t_prefix = nullptr; // being recorded (parent) or replayed (child)
static int g_openMax = 1024;

namespace proc {
std::vector<Child>& children() { return g_children; }
static Child *find(int pid) { for (auto& c : g_children) if (c.pid == pid) return &c; return nullptr; }
static void finish(Child *c, int status)
{
	if (c->exited) return;
	c->exited = true; c->status = status;
	FdTable& t = fdtOf(c->pid);
	while (!t.t.empty()) dropFd(t, t.t.begin()->first);
	ev("child.exit", c->pid, status);
	if (!sigDefault(SIGCHLD) && !sigIgnored(SIGCHLD)) S.pendingSig.push_back(SIGCHLD);
}
void exitChild(int pid, int code) { ENGINE if (Child *c = find(pid)) finish(c, (code & 255) << 8); }
void killChild(int pid, int sig) { ENGINE if (Child *c = find(pid)) finish(c, sig); }
void setExecutable(const std::string& p, bool ok) { ENGINE g_exec[p] = ok; }
void setOpenMax(int n) { g_openMax = n; }
void call(std::function<void()> fn)
{
	PrefixLog log;
	t_start = &fn; t_prefix = &log;
	struct Clear { ~Clear() { t_start = nullptr; t_prefix = nullptr; } } c;
	fn();
}
}
static thread_local jmp_buf *t_exitJmp = nullptr;
static thread_local int t_exitCode = 0;
// runs fn; returns true and the code when fn ends the program by exit()
void leave() { S.on = false; t_self = nullptr; }
bool exits(std::function<void()> fn, int *code)
{
	jmp_buf jb; static thread_local int q, nf, ge;
	q = g_quiet; nf = g_nofault; ge = g_eng;
	t_exitJmp = &jb;
	if (setjmp(jb) == 0) { fn(); t_exitJmp = nullptr; return false; }
	g_quiet = q; g_nofault = nf; g_eng = ge; t_exitJmp = nullptr;
	if (code) *code = t_exitCode;
	return true;
}
[[noreturn]] static void parkForever()
{
	g_eng = 1; g_quiet = 0;
	finishCurrent();
	for (;;) __real_pause();
}
void logCall(const char *name, long ret, int e, int a, int b)
{
	if (t_prefix && !t_prefix->replay) t_prefix->rec.push_back(PrefixRec{ name, ret, e, a, b });
}
bool replayCall(const char *name, long *ret, int *a, int *b)
{
	if (!t_prefix || !t_prefix->replay) return false;
	if (t_prefix->pos >= t_prefix->rec.size() || strcmp(t_prefix->rec[t_prefix->pos].name, name)) fail("harness:prefix", "the child did not repeat the calls before fork (%s)", name);
	PrefixRec& r = t_prefix->rec[t_prefix->pos++];
	*ret = r.ret; errno = r.err;
	if (a) *a = r.a;
	if (b) *b = r.b;
	return true;
}

} // sim
using namespace sim;

extern "C" {
// ---------------------------------------------------------------- time
static void toTs(int64_t ns, struct timespec *ts) { ts->tv_sec = ns / SEC; ts->tv_nsec = ns % SEC; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!active()) return __real_clock_gettime(c, ts);
	yield("clock_gettime");
	toTs(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? realtime() : now(), ts);
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (!active()) return __real_gettimeofday(tv, tz);
	yield("gettimeofday");
	int64_t t = realtime(); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000;
	return 0;
}
time_t __wrap_time(time_t *p)
{
	if (!active()) return __real_time(p);
	yield("time");
	time_t t = realtime() / SEC;
	if (p) *p = t;
	return t;
}
int __wrap_clock_getres(clockid_t, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
static int sleepTo(int64_t deadline, struct timespec *rem)
{
	ENGINE
	ev("sleep", (deadline - now()) / 1000);
	int64_t dl = deadline;
	bool cut = false;
	if (deadline > now() && fault("sleep.EINTR")) { cut = true; dl = now() + (deadline - now()) / 8 * choose(8); }
	Wake w = dl <= now() ? TIMEOUT : block("sleep", [] { return false; }, dl, true);
	if (w == SIGNALED || cut) {
		if (rem) toTs(std::max<int64_t>(0, deadline - now()), rem);
		ev("sleep.EINTR");
		return EINTR;
	}
	return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem)
{
	if (!active()) return __real_nanosleep(t, rem);
	yield("nanosleep");
	if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) return (int)err(EINVAL);
	int e = sleepTo(now() + t->tv_sec * SEC + t->tv_nsec, rem);
	return e ? (int)err(e) : 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
	if (!active()) return __real_clock_nanosleep(c, fl, t, rem);
	yield("clock_nanosleep");
	if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) return EINVAL;
	int64_t d = t->tv_sec * SEC + t->tv_nsec;
	if (fl & TIMER_ABSTIME) return sleepTo(c == CLOCK_REALTIME ? d - (realtime() - now()) : d, nullptr);
	return sleepTo(now() + d, rem);
}
int __wrap_usleep(useconds_t us)
{
	if (!active()) return __real_usleep(us);
	yield("usleep");
	int e = sleepTo(now() + (int64_t)us * 1000, nullptr);
	return e ? (int)err(e) : 0;
}
unsigned __wrap_sleep(unsigned s)
{
	if (!active()) return __real_sleep(s);
	yield("sleep");
	struct timespec r = { 0, 0 };
	if (sleepTo(now() + (int64_t)s * SEC, &r)) return (unsigned)((r.tv_sec * SEC + r.tv_nsec + SEC / 2) / SEC);
	return 0;
}
int __wrap_pause() { yield("pause"); ENGINE block("pause", [] { return false; }, -1, true); return (int)err(EINTR); }

// ---------------------------------------------------------------- signals
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	if (s < 1 || s > 64 || s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return -1; }
	if (active()) yield("sigaction");
	ENGINE
	if (n && active() && fault("sigaction.EINVAL")) { ev("sigaction", s, -EINVAL); errno = EINVAL; return -1; }
	if (o) { if (g_sigSet[s]) *o = g_sig[s]; else { memset(o, 0, sizeof(*o)); o->sa_handler = SIG_DFL; } }
	if (n) { g_sig[s] = *n; g_sigSet[s] = true; if (S.slot) ev("sigaction", s, n->sa_flags); }
	return 0;
}
typedef void (*sighandler)(int);
sighandler __wrap_signal(int s, sighandler h)
{
	struct sigaction n, o;
	memset(&n, 0, sizeof(n)); n.sa_handler = h; n.sa_flags = SA_RESTART;
	if (__wrap_sigaction(s, &n, &o)) return SIG_ERR;
	return o.sa_handler;
}
sighandler __wrap_bsd_signal(int s, sighandler h) { return __wrap_signal(s, h); }
sighandler __wrap_sysv_signal(int s, sighandler h) { return __wrap_signal(s, h); }
static int maskOp(int how, const sigset_t *n, sigset_t *o)
{
	ENGINE
	sigset_t& m = t_self->mask;
	if (o) *o = m;
	if (n) for (int i = 1; i < 65; i++) {
		bool in = sigismember(n, i) == 1;
		if (how == SIG_BLOCK && in) sigaddset(&m, i);
		if (how == SIG_UNBLOCK && in) sigdelset(&m, i);
		if (how == SIG_SETMASK) { if (in) sigaddset(&m, i); else sigdelset(&m, i); }
	}
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { if (!active()) return __real_pthread_sigmask(how, n, o); int r = maskOp(how, n, o); yield("sigmask"); return r; }
int __wrap_sigprocmask(int how, const sigset_t *n, sigset_t *o) { if (!active()) return __real_sigprocmask(how, n, o); int r = maskOp(how, n, o); yield("sigmask"); return r; }
int __wrap_raise(int s) { if (!active()) return __real_raise(s); ENGINE S.pendingSig.push_back(s); deliverSignals(); return 0; }
int __wrap_kill(pid_t p, int s)
{
	if (!active()) return __real_kill(p, s);
	yield("kill"); ENGINE
	ev("kill", p, s);
	if (p == 1 || p == 0) { S.pendingSig.push_back(s); return 0; }
	for (auto& c : g_children) if (c.pid == p) { if (c.reaped) return (int)err(ESRCH); if (!c.exited && (s == SIGKILL || s == SIGTERM || s == SIGINT)) proc::finish(&c, s); return 0; }
	return (int)err(ESRCH); // a stand-in: no real process is ever signalled
}
pid_t __wrap_getpid() { return active() ? (t_self->role ? t_self->role : 1) : __real_getpid(); }

// ---------------------------------------------------------------- exit
void __wrap_exit(int code)
{
	if (!active()) __real_exit(code);
	if (t_exitJmp) { t_exitCode = code; longjmp(*t_exitJmp, 1); }
	if (t_self->role) { { ENGINE if (proc::Child *c = proc::find(t_self->role)) { c->usedExit = true; proc::finish(c, (code & 255) << 8); } } parkForever(); }
	fail("exit", "exit(%d) called by the code under test", code);
}
void __wrap__exit(int code)
{
	if (!active()) __real__exit(code);
	if (t_self->role) { { ENGINE if (proc::Child *c = proc::find(t_self->role)) proc::finish(c, (code & 255) << 8); } parkForever(); }
	fail("exit", "_exit(%d) called by the code under test", code);
}
void __wrap__Exit(int code) { __wrap__exit(code); }
void __wrap_abort()
{
	if (!active()) __real_abort();
	if (t_self->role) { { ENGINE if (proc::Child *c = proc::find(t_self->role)) proc::finish(c, SIGABRT); } parkForever(); }
	fail("abort", "abort() called");
}

// ---------------------------------------------------------------- processes
pid_t __wrap_fork()
{
	if (!active()) return __real_fork();
	long rr;
	if (t_prefix && t_prefix->replay) {
		(void)rr;
		if (t_prefix->pos != t_prefix->rec.size()) fail("harness:prefix", "the child reached fork too early");
		delete t_prefix; t_prefix = nullptr; // from here on the child is itself
		g_noyield--; g_nofault--;
		{ ENGINE ev("fork.child", t_self->role); }
		yield("fork.child");
		return 0;
	}
	yield("fork");
	ENGINE
	if (fault("fork.EAGAIN")) { ev("fork", -EAGAIN); return (pid_t)err(EAGAIN); }
	if (!t_start) fail("harness:fork", "fork outside proc::call");
	proc::Child c; c.pid = g_nextPid++; c.execed = c.exited = c.reaped = c.failedExec = c.usedExit = false; c.status = 0;
	g_children.push_back(c);
	FdTable& mine = fdt();
	FdTable& his = fdtOf(c.pid);
	for (auto& e : mine.t) { his.t[e.first] = e.second; e.second.o->refs++; }
	std::function<void()> fn = *t_start;
	PrefixLog *log = new PrefixLog(*t_prefix);
	log->replay = true; log->pos = 0;
	Thr *t = newThread("child");
	t->harness = true; t->joined = true; t->role = c.pid; t->mask = t_self->mask;
	int pid = c.pid;
	t->body = [fn, log, pid] {
		t_prefix = log;
		g_noyield++; g_nofault++;
		fn();
		{ ENGINE if (proc::Child *c = proc::find(pid)) { if (!c->exited) { c->failedExec = true; } } }
		fail("process:child-returned", "the child process returned from the start call instead of executing the program or exiting");
	};
	if (startThread(t, nullptr)) fail("harness:pthread_create", "cannot create a thread");
	ev("fork", pid);
	return pid;
}
pid_t __wrap_vfork() { return __wrap_fork(); }
static int execImpl(const char *path, char *const argv[], bool search = false)
{
	yield("execve"); ENGINE
	proc::Child *c = proc::find(t_self->role);
	if (!c) fail("process:exec-in-parent", "exec called in the parent process");
	auto it = g_exec.find(path); std::string found;
	if (search && !strchr(path, '/')) for (const char *d : { "/bin/", "/usr/bin/" }) { auto j = g_exec.find(std::string(d) + path); if (j != g_exec.end() && j->second) { it = j; found = j->first; path = found.c_str(); break; } }
	if (fault("exec.ENOMEM")) { c->failedExec = true; ev("exec", -ENOMEM); return (int)err(ENOMEM); }
	if (it == g_exec.end()) { c->failedExec = true; ev("exec", -ENOENT); return (int)err(ENOENT); }
	if (!it->second) { c->failedExec = true; ev("exec", -EACCES); return (int)err(EACCES); }
	// a text file without #! : only the searching calls hand it to the shell
	size_t pl = strlen(path); if (pl > 7 && !strcmp(path + pl - 7, ".noexec")) { if (!search) { c->failedExec = true; ev("exec", -ENOEXEC); return (int)err(ENOEXEC); } c->argv.push_back("/bin/sh"); path = "/bin/sh"; }
	c->exe = path;
	for (char *const *a = argv; a && *a; a++) c->argv.push_back(*a);
	FdTable& t = fdt();
	std::vector<int> drop;
	for (auto& e : t.t) if (e.second.cloexec) drop.push_back(e.first);
	for (int f : drop) dropFd(t, f);
	for (auto& e : t.t) c->fds[e.first] = e.second.o->kind == Ofd::NULLDEV ? "null" : e.second.o->path;
	c->execed = true;
	ev("exec", t_self->role);
	parkForever();
}
int __wrap_execv(const char *p, char *const a[]) { return active() ? execImpl(p, a) : __real_execv(p, a); }
int __wrap_execve(const char *p, char *const a[], char *const[]) { return execImpl(p, a); }
int __wrap_execvp(const char *p, char *const a[]) { return execImpl(p, a, true); }
pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
	if (!active()) return __real_waitpid(pid, st, opt);
	yield("waitpid"); ENGINE
	if (!(opt & WNOHANG) && fault("waitpid.EINTR")) { ev("waitpid", -EINTR); return (pid_t)err(EINTR); }
	for (;;) {
		bool any = false; proc::Child *hit = nullptr;
		for (auto& c : g_children) if ((pid <= 0 || c.pid == pid) && !c.reaped) { any = true; if (c.exited) { hit = &c; break; } }
		if (!any) { ev("waitpid", -ECHILD); return (pid_t)err(ECHILD); }
		if (hit) { hit->reaped = true; if (st) *st = hit->status; ev("waitpid", hit->pid, hit->status); return hit->pid; }
		if (opt & WNOHANG) { ev("waitpid", 0); return 0; }
		Wake w = block("waitpid", [pid] { for (auto& c : g_children) if ((pid <= 0 || c.pid == pid) && !c.reaped && c.exited) return true; return false; }, -1, true);
		if (w == SIGNALED) { ev("waitpid", -EINTR); return (pid_t)err(EINTR); }
	}
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
long __wrap_sysconf(int n)
{
	if (!active()) return __real_sysconf(n);
	if (n == _SC_OPEN_MAX) { long rr; if (replayCall("sysconf", &rr)) return rr; ENGINE rr = fault("sysconf.fail") ? -1 : g_openMax; logCall("sysconf", rr, errno); return rr; }
	if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4;
	return __real_sysconf(n);
}
int __wrap_getdtablesize() { return g_openMax; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl)
{
	if (!active()) return __real_getrandom(b, n, fl);
	yield("getrandom"); ENGINE
	if (fault("read.EINTR")) return err(EINTR);
	size_t m = n;
	if (n > 256 && fault("read.short")) m = 256;
	static uint32_t k = 1;
	std::string s = bytesFrom(k++ * 7717, m);
	memcpy(b, s.data(), m); urandLog() += s;
	return (ssize_t)m;
}
int __wrap_getentropy(void *b, size_t n) { return __wrap_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}
