#include "common.h"
#include <cybozu/process.hpp>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
SIM_PROPERTY("C29", "cybozu/process.hpp (Start, IsAlive, Process, Pipe)", "fork (the child re-enters the call in a thread of its own with a copy of the descriptor table), exec, pipes, wait, signals, child life times")
using namespace sim;
typedef std::string Str;
namespace pr = cybozu::process;
static void onChld(int) {}
static const char *FK[] = { "pipe.EMFILE", "fcntl.EINVAL", "fork.EAGAIN", "open.EMFILE", "open.EACCES", "dup2.EMFILE", "dup2.EINTR", "exec.ENOMEM" };
static void faults() { if (!chance(0.5)) return; double p = chance(0.5) ? 0.05 : 0.25; for (auto k : FK) if (chance(0.6)) allow(k, p); }
static void soft() { if (chance(0.5)) { allow("read.EINTR", 0.4, 5); allow("waitpid.EINTR", 0.4, 5); allow("close.EINTR", 0.05); allow("close.EIO", 0.05); allow("sysconf.fail", 0.2); } if (chance(0.4)) { struct sigaction s; memset(&s, 0, sizeof(s)); s.sa_handler = onChld; s.sa_flags = chance(0.5) ? SA_RESTART : 0; sigaction(SIGCHLD, &s, 0); if (chance(0.5)) sigaction(SIGUSR1, &s, 0), at(now() + (int64_t)choose(400) * 1000, [] { raiseSignal(SIGUSR1); }); } }
static uint64_t hard() { uint64_t n = 0; for (auto k : FK) n += fired(k); return n; }
static Str randArg() { static const char *a[] = { "", "a", "-x", "two words", "\"quoted\"", "back\\slash", "new\nline", "*", "$HOME", "\xff\xfe", "--opt=1" }; return chance(0.8) ? a[choose(11)] : bytes(range(1, 30)); }
static void cleanArg(Str& s) { for (auto& c : s) if (!c) c = 'n'; }
static void setup(std::vector<int>& fds, int om = h::pickOf({ 256, 300, 1024 }))
{
	proc::setExecutable("/bin/good", true); proc::setExecutable("/usr/bin/tool", true); proc::setExecutable("/etc/data", false); proc::setExecutable("/bin/text.noexec", true); fs::mkdir("/d");
	setFdBase(h::pickOf({ 3, 3, 10, 200 })); proc::setOpenMax(om);
	for (int i = (int)choose(4); i > 0; i--) { NoFault q; int fd; if (chance(0.6)) fd = ::open(("/d/f" + std::to_string(i)).c_str(), O_RDWR | O_CREAT | (chance(0.3) ? O_CLOEXEC : 0), 0600); else { int v[2]; if (::pipe(v)) continue; fds.push_back(v[0]); fd = v[1]; } fds.push_back(fd); }
	if (fds.size() && chance(0.3)) { NoFault q; int t = om > 1000 || chance(0.5) ? om - 1 : om - 2; if (::dup2(fds[0], t) == t) fds.push_back(t); } // the last possible descriptor
}
struct Res { bool ok = false; int pid = 0; Str exe; std::vector<Str> args; bool closed = true; int gone = 0; /* mask of standard descriptors the parent does not have */ };
// the child that was made for this call, judged after the call returned
static void judge(const Res& r, size_t from, uint64_t f, bool allMine)
{
	auto& ch = proc::children(); int execed = 0, n = 0;
	for (size_t i = from; i < ch.size(); i++) {
		auto& c = ch[i]; if (!allMine && c.pid != r.pid && (!c.execed || c.exe != r.exe)) continue; n++;
		SIM_CHECK(!c.usedExit, "child-exit", "the child ended by exit() and so runs the handlers and flushes the buffers of its parent");
		if (!c.execed) { SIM_CHECK(c.exited && c.reaped, "zombie", "a child that could not run the program is left (%s)", c.exited ? "zombie" : "running"); continue; }
		execed++; SIM_CHECK(r.ok && (!allMine || c.pid == r.pid), "wrong-report", "the program runs as %d but the call reported %s %d", c.pid, r.ok ? "success" : "failure", r.pid);
		SIM_CHECK(c.exe == r.exe, "wrong-program", "%s was run instead of %s", c.exe.c_str(), r.exe.c_str());
		std::vector<Str> want = r.args; want.insert(want.begin(), r.exe); SIM_CHECK(c.argv == want, "wrong-arguments", "%zu arguments instead of %zu, or different ones", c.argv.size(), want.size());
		for (auto& e : c.fds) SIM_CHECK(e.first < 3 && (r.closed || !(r.gone >> e.first & 1)), "inherited", "the program inherits descriptor %d (%s)", e.first, e.second.c_str());
		static const char *std3[] = { "stdin", "stdout", "stderr" };
		for (int k = 0; k < 3; k++) { if (!r.closed && (r.gone >> k & 1)) continue; Str w = r.closed ? "null" : std3[k]; SIM_CHECK(c.fds.count(k) && c.fds.at(k) == w, "stdio", "descriptor %d of the program is %s instead of %s", k, c.fds.count(k) ? c.fds.at(k).c_str() : "closed", w.c_str()); }
	}
	if (!allMine) return;
	SIM_CHECK(n <= 1, "twice", "%d children for one start", n);
	SIM_CHECK(r.ok == (execed == 1), "wrong-report", "%s reported but %d programs run", r.ok ? "success" : "failure", execed);
	SIM_CHECK(r.ok || f > 0 || r.exe != "/bin/good", "spurious-failure", "a good program was not started");
}
static Str program() { return chance(0.6) ? "/bin/good" : std::vector<Str>{ "/none", "/etc/data", "good", "tool", "text.noexec", "/bin/text.noexec" }[choose(6)]; }
SCENARIO(starting, 6)
{
	auto *fds = new std::vector<int>(); setup(*fds); soft(); faults(); int rounds = range(1, 3); cybozu::Process *keep = chance(0.5) ? new cybozu::Process() : nullptr;
	for (int i = 0; i < rounds; i++) {
		auto *r = new Res(); r->exe = program(); for (int k = (int)choose(5); k > 0; k--) { Str a = randArg(); cleanArg(a); r->args.push_back(a); } r->closed = chance(0.5); size_t n0 = proc::children().size(); int open0 = fs::openCount(); uint64_t f0 = hard(); bool api = chance(0.5);
		auto *p = keep ? keep : new cybozu::Process(); auto *hd = new pr::Handle(pr::InvalidHandle);
		bool dflt = r->closed && chance(0.5); bool strs = api && chance(0.4); std::vector<Str> *sa = new std::vector<Str>(9); if (strs) { r->closed = false; for (int k = 0; k < 9; k++) { (*sa)[k] = k < (int)r->args.size() ? r->args[k] : Str(); } r->args.clear(); for (auto& s : *sa) if (!s.empty()) r->args.push_back(s); }
		std::vector<Str> *args = new std::vector<Str>(r->args); Str *exe = new Str(r->exe); bool cl = r->closed; bool *ok = new bool(false);
		proc::call([=] { bool x; if (strs) { auto& v = *sa; x = p->run(*exe, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); } else if (api) x = dflt ? p->run(*exe, *args) : p->run(*exe, *args, cl); else x = dflt ? pr::Start(hd, *exe, *args) : pr::Start(hd, *exe, *args, cl); *ok = x; });
		r->ok = *ok; uint64_t f = hard() - f0; if (r->ok) r->pid = api ? proc::children().back().pid : *hd;
		judge(*r, n0, f, true);
		SIM_CHECK(fs::openCount() == open0, "parent-descriptor", "the parent holds %d descriptors instead of %d: %s", fs::openCount(), open0, fs::describeOpen().c_str());
		if (api) SIM_CHECK(p->isValid() == r->ok, "valid", "isValid is %d after a %s start", p->isValid(), r->ok ? "good" : "failed");
		if (r->ok) { // life and end
			int pid = r->pid, code = h::pickOf({ 0, 1, 2, 127, 128, 255 }), want = code; bool kill = chance(0.2); if (kill) want = -1; bool conc = chance(0.5);
			auto alive = [&](int *c) { return api ? p->isAlive(c) : pr::IsAlive(*hd, c); };
			for (int k = (int)choose(3); k > 0; k--) { int c = 77; SIM_CHECK(chance(0.5) ? alive(&c) : alive(0), "alive", "a running program is reported as ended"); }
			auto end = [=] { if (kill) proc::killChild(pid, SIGSEGV); else proc::exitChild(pid, code); };
			if (conc) at(now() + (int64_t)choose(30) * MS, end); else end();
			bool seen = false; for (int k = 0; k < 60 && !seen; k++) { int c = 77; auto& ch = proc::children(); bool gone0 = false, gone1 = false; for (auto& x : ch) if (x.pid == pid) gone0 = x.exited; bool al = alive(&c); for (auto& x : ch) if (x.pid == pid) gone1 = x.exited;
				if (al) { SIM_CHECK(!gone0, "alive", "an ended program is reported as running"); h::pause(MS); continue; }
				seen = true; SIM_CHECK(gone1, "alive", "a running program is reported as ended"); SIM_CHECK(c == want, "exit-code", "exit code %d instead of %d", c, want); }
			SIM_CHECK(seen, "alive", "the end of the program is never reported");
			for (auto& x : proc::children()) if (x.pid == pid) SIM_CHECK(x.reaped, "zombie", "the ended program is left as a zombie");
			SIM_CHECK(!alive(0), "alive", "an ended program is reported as running again");
			if (api && chance(0.5)) { cybozu::Process q(*p); SIM_CHECK(!p->isValid() && q.isValid(), "move", "copying does not hand the process over"); }
		} else if (api) SIM_CHECK(!p->isAlive(), "alive", "a process that was not started is alive");
		if (!keep) delete p; delete hd; delete r; delete sa; delete args; delete exe; delete ok;
	}
	delete keep; delete fds;
}
// a parent without some of its standard descriptors (a daemon)
SCENARIO(daemon, 2)
{
	auto *fds = new std::vector<int>(); setup(*fds); setFdBase(0); int gone = 1 + (int)choose(7); for (int k = 0; k < 3; k++) if (gone >> k & 1) ::close(k);
	soft(); faults();
	for (int i = range(1, 2); i > 0; i--) {
		auto *r = new Res(); r->exe = program(); r->args = { "a" }; r->closed = chance(0.7); r->gone = gone; size_t n0 = proc::children().size(); int open0 = fs::openCount(); uint64_t f0 = hard();
		auto *hd = new pr::Handle(pr::InvalidHandle); auto *ok = new bool(false); auto *args = new std::vector<Str>(r->args); auto *exe = new Str(r->exe); bool cl = r->closed;
		proc::call([=] { bool x = pr::Start(hd, *exe, *args, cl); *ok = x; });
		r->ok = *ok; if (r->ok) r->pid = *hd; judge(*r, n0, hard() - f0, true);
		SIM_CHECK(fs::openCount() == open0, "parent-descriptor", "the parent holds %d descriptors instead of %d: %s", fs::openCount(), open0, fs::describeOpen().c_str());
		for (int k = 0; k < 3; k++) if (gone >> k & 1) SIM_CHECK(fcntl(k, F_GETFD) < 0, "parent-descriptor", "descriptor %d of the parent was opened", k);
		if (r->ok) { int c = 77; SIM_CHECK(pr::IsAlive(*hd, &c), "alive", "a running program is reported as ended"); proc::exitChild(r->pid, 3); SIM_CHECK(!pr::IsAlive(*hd, &c) && c == 3, "exit-code", "exit code %d instead of 3", c); }
		delete r; delete hd; delete ok; delete args; delete exe;
	}
	delete fds;
}
// two threads start programs at the same time
SCENARIO(together, 2)
{
	auto *fds = new std::vector<int>(); setup(*fds, 256); if (chance(0.5)) { allow("exec.ENOMEM", 0.2); allow("read.EINTR", 0.3, 3); } int open0 = fs::openCount(); auto *rs = new Res[2];
	for (int t = 0; t < 2; t++) { rs[t].exe = chance(0.7) ? (t ? "/bin/good" : "/usr/bin/tool") : (t ? "/none1" : "/none2"); rs[t].args = { randArg() }; cleanArg(rs[t].args[0]); rs[t].closed = chance(0.5);
		spawn("starter", [=] { Res& r = rs[t]; pr::Handle *hd = new pr::Handle(-1); bool *ok = new bool(false); const Str& exe = r.exe; const std::vector<Str>& args = r.args; bool cl = r.closed; auto *fn = new std::function<void()>([=, &exe, &args] { *ok = pr::Start(hd, exe, args, cl); }); proc::call(*fn); r.ok = *ok; r.pid = *hd; }); }
	joinAll(); int good = 0; for (int t = 0; t < 2; t++) { judge(rs[t], 0, hard(), false); good += rs[t].ok; } int ex = 0;
	for (auto& c : proc::children()) { ex += c.execed; SIM_CHECK(c.execed || (c.exited && c.reaped), "zombie", "a failed child is left"); }
	SIM_CHECK(ex == good, "wrong-report", "%d programs run, %d reported", ex, good); SIM_CHECK(fs::openCount() == open0, "parent-descriptor", "the parent holds extra descriptors: %s", fs::describeOpen().c_str());
	for (int t = 0; t < 2; t++) if (rs[t].ok) { SIM_CHECK(pr::IsAlive(rs[t].pid), "alive", "running program reported as ended"); }
	if (rs[0].ok && rs[1].ok) { SIM_CHECK(rs[0].pid != rs[1].pid, "wrong-report", "the same process twice"); proc::exitChild(rs[1].pid, 9); int c = 0; SIM_CHECK(pr::IsAlive(rs[0].pid, &c), "alive", "the wrong process is reported as ended"); SIM_CHECK(!pr::IsAlive(rs[1].pid, &c) && c == 9, "exit-code", "exit code %d", c); }
	delete fds;
}
