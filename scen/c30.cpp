#include <cybozu/quit_signal_handler.hpp>
#include "common.h"
#include <signal.h>
#include <unistd.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <sys/select.h>
#include <cybozu/mutex.hpp>
SIM_PROPERTY("C30", "cybozu/quit_signal_handler.hpp", "signal delivery at any instant and in any thread, blocking calls, signal actions that fail to install")
using namespace sim;
static const int SIGS[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM };
static const int NS = 4;
static thread_local int t_depth = 0; // of the handler in this thread
struct App {
	volatile int quits = 0; volatile bool stop = false; int maxDepth = 0; int slow = 0;
	void quit()
	{
		{ Quiet q; t_depth++; if (t_depth > maxDepth) maxDepth = t_depth; quits = quits + 1; }
		stop = true;
		for (int i = 0; i < slow; i++) { char c = 0; int fd = ::open("/dev/null", O_WRONLY); if (fd >= 0) { if (::write(fd, &c, 1) < 0) {} ::close(fd); } }
		{ Quiet q; t_depth--; }
	}
};
typedef cybozu::QuitSignalHandler<App> Handler;
static void blockHow(int how)
{
	switch (how) {
	case 0: ::sleep(100000); break;
	case 1: { struct timespec t = { 100000, 0 }; ::nanosleep(&t, 0); break; }
	case 2: ::poll(0, 0, -1); break;
	case 3: { struct timeval t = { 100000, 0 }; ::select(0, 0, 0, 0, &t); break; }
	case 4: { int v[2]; if (::pipe(v)) break; char c; if (::read(v[0], &c, 1) < 0) {} ::close(v[0]); ::close(v[1]); break; }
	default: ::pause();
	}
}
// the program is blocked or busy when the signal comes: it notices, in time, and is not killed
SCENARIO(noticed, 4)
{
	noTimeSkips(); App *app = new App(); app->slow = (int)choose(2); Handler *h = new Handler(*app); if (chance(0.5)) delete h; // the object holds nothing
	int how = (int)choose(6); auto *t0 = new int64_t(-1); auto *n = new int(0); bool busy = chance(0.3);
	if (busy) spawn("busy", [=] { volatile int k = 0; while (!app->stop && k < 300) { k = k + 1; if (k % 50 == 0) h::pause(100 * MS); } });
	// signals every second until the program stops; the first is the one that has to be enough once the program is blocked
	for (int i = 0; i < 30; i++) at(now() + (int64_t)range(1, 3) * SEC * (i + 1), [=] { if (app->stop) return; if (*t0 < 0) *t0 = now(); ++*n; raiseSignal(SIGS[choose(NS)]); });
	SIM_CHECK(app->quits == 0, "invented", "quit was called without a signal");
	while (!app->stop) blockHow(how);
	SIM_CHECK(*n > 0, "invented", "quit was called without a signal"); SIM_CHECK(now() - *t0 <= 10 * SEC, "late", "the signal was noticed %lld s later", (long long)((now() - *t0) / SEC));
	SIM_CHECK(blockedOn(0)[0] == 0, "blocked", "?"); joinAll(); deliverNow();
	SIM_CHECK(app->quits == *n, "lost", "%d signals, %d calls of quit", *n, app->quits);
}
// signals at arbitrary instants of a running program, several threads, bursts
SCENARIO(burst, 4)
{
	App *app = new App(); app->slow = (int)choose(3); new Handler(*app); int th = (int)choose(3), n = range(0, 6); auto *sent = new int(0); auto *c = new int[8](); auto *m = new cybozu::Mutex();
	for (int t = 0; t < th; t++) spawn("worker", [=] { for (int i = 0; i < 20; i++) { cybozu::AutoLock al(*m); c[0] = c[0] + 1; } });
	spawn("sender", [=] { for (int i = 0; i < n; i++) { if (chance(0.5)) h::pause((int64_t)choose(3) * MS); ++*sent; raiseSignal(SIGS[choose(NS)]); } });
	for (int i = 0; i < 20; i++) { cybozu::AutoLock al(*m); c[0] = c[0] + 1; }
	joinAll(); deliverNow();
	SIM_CHECK(c[0] == 20 * (th + 1), "disturbed", "the program was disturbed by the signals (%d)", c[0]);
	SIM_CHECK(app->quits == *sent, "lost", "%d signals, %d calls of quit", *sent, app->quits); SIM_CHECK(app->stop == (*sent > 0), "lost", "stop flag is %d", app->stop);
	SIM_CHECK(app->maxDepth <= 1, "nested", "a signal interrupted the handler of another one");
}
// each of the signals, raised by the program itself
SCENARIO(each, 2)
{
	App *a = new App(), *b = new App(); new Handler(*a); int k = 0;
	for (int i = range(1, 8); i > 0; i--) { ::raise(SIGS[choose(NS)]); k++; SIM_CHECK(a->quits == k, "lost", "%d signals, %d calls of quit", k, a->quits); }
	if (chance(0.5)) { new Handler(*b); ::raise(SIGS[choose(NS)]); SIM_CHECK(a->quits == k && b->quits == 1, "target", "the signal went to the wrong object"); }
}
// failing to install is not silent
SCENARIO(install, 2)
{
	App *app = new App(); allow("sigaction.EINVAL", 0.35); int code = 0; bool e = exits([=] { new Handler(*app); }, &code); uint64_t f = fired("sigaction.EINVAL"); disallowAll();
	SIM_CHECK(e == (f > 0), "install", "%llu of the signal actions could not be installed but the program %s", (unsigned long long)f, e ? "ended" : "goes on"); if (e) { SIM_CHECK(code != 0, "install", "exit code 0 after a failure"); SIM_CHECK(!capturedStderr().empty(), "install", "no message"); }
	else { for (int s : SIGS) { ::raise(s); } SIM_CHECK(app->quits == NS, "lost", "%d of %d signals noticed", app->quits, NS); }
}
