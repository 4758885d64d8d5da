#include "common.h"
#include <cybozu/file.hpp>
SIM_PROPERTY("C12", "cybozu/file.hpp (File: write, sync, destructor, open modes)", "file system with volatile page cache: a crash keeps synced data and an arbitrary part of later changes; descriptors; failing fsync")
using namespace sim;
typedef std::ios S;
static const char *P = "/sim/f";
// what a crash must leave: bytes not touched since the last successful sync
struct G {
	std::string synced, cur;      // content at the last completed sync, content now
	std::vector<bool> dirty;      // per byte of synced: touched since
	bool any = false;             // a sync has completed: the file must exist
	bool truncated = false;       // truncated since
	std::vector<std::pair<std::string, int>> log;
	void onSync() { synced = cur; dirty.assign(synced.size(), false); any = true; truncated = false; }
	void touch(size_t off, size_t n) { for (size_t i = off; i < off + n && i < dirty.size(); i++) dirty[i] = true; }
	void write(size_t off, const std::string& d) { if (d.empty()) return; if (cur.size() < off + d.size()) cur.resize(off + d.size(), 0); cur.replace(off, d.size(), d); touch(off, d.size()); }
};
static void survive(const G& g)
{
	if (!g.any) return;
	SIM_CHECK(fs::exists(P), "lost-file", "a synced file is gone after the crash");
	std::string d = fs::get(P);
	if (g.truncated) return;
	SIM_CHECK(d.size() >= g.synced.size(), "lost-data", "the file had %zu synced bytes and has %zu after the crash", g.synced.size(), d.size());
	for (size_t i = 0; i < g.synced.size(); i++) if (!g.dirty[i]) SIM_CHECK(d[i] == g.synced[i], "lost-data", "byte %zu was synced and differs after the crash", i);
}
static void runOps(G *g, std::string *inFlight, size_t *inOff, bool sub)
{
	int sessions = range(1, 3);
	for (int s = 0; s < sessions; s++) {
		bool app = chance(0.5);
		{
			std::string err0; { Quiet q; err0 = capturedStderr(); }
			uint64_t f0 = fired("fsync.EIO") + fired("fsync.EINTR");
			{
				if (!app) { Quiet q; g->truncated = true; }
				cybozu::File *f = new cybozu::File(P, app ? (S::out | S::app) : (S::out | S::trunc));
				size_t pos;
				{ Quiet q; if (!app) g->cur.clear(); pos = g->cur.size(); }
				int n = range(1, 5);
				for (int i = 0; i < n; i++) {
					switch (pick({ 4, 3, 1, 0.7 })) {
					case 3: { // a second open is refused and changes nothing
						bool t = false; int m = (int)choose(4); try { f->open("/sim/other", m == 0 ? S::in : m == 1 ? S::out : m == 2 ? (S::out | S::app) : (S::in | S::out)); } catch (std::exception&) { t = true; }
						Quiet q; SIM_CHECK(t, "double-open", "an open file was opened again");
						break; }
					case 0: {
						std::string d; { Quiet q; d = bytes(1 + smallSize(40)); g->touch(app ? g->cur.size() : pos, d.size()); *inFlight = d; *inOff = pos; }
						f->write(d.data(), d.size());
						Quiet q; size_t at = app ? g->cur.size() : pos; g->write(at, d); pos = at + d.size(); inFlight->clear();
						break; }
					case 1: {
						bool ok = true;
						uint64_t q0 = fired("fsync.EIO") + fired("fsync.EINTR");
						try { f->sync(chance(0.5)); } catch (std::exception&) { ok = false; }
						Quiet q;
						bool failed = fired("fsync.EIO") + fired("fsync.EINTR") > q0;
						SIM_CHECK(ok == !failed, "sync-result", ok ? "sync() hid a failing flush" : "sync() failed although the flush succeeded");
						if (ok) g->onSync();
						break; }
					default: if (!app) { size_t k; { Quiet q; k = choose((uint32_t)g->cur.size() + 1); } f->seek((int64_t)k, S::beg); pos = k; } break;
					}
				}
				bool explicitClose = sub && chance(0.3);
				if (explicitClose) { f->close(); delete f; continue; }
				delete f;
			}
			Quiet q;
			bool failed = fired("fsync.EIO") + fired("fsync.EINTR") > f0;
			if (!failed) g->onSync(); // the destructor flushes
			if (failed && capturedStderr() == err0) {
				// the last flush may have been fine; if the data is not durable the failure must be reported
				bool ex; std::string d = fs::durable(P, &ex);
				SIM_CHECK((ex && d == g->cur), "silent-sync-failure", "the final flush failed, the data is not durable and nothing was reported");
			}
		}
	}
}
SCENARIO(crash_points, 5)
{
	allow("write.short", 0.4); allow("write.EINTR", 0.3, 20);
	if (chance(0.4)) { allow("fsync.EIO", 0.4); allow("fsync.EINTR", 0.2); }
	G *g = new G(); std::string *fl = new std::string(); size_t *off = new size_t(0);
	if (chance(0.5)) { g->cur = bytes(smallSize(50)); fs::put(P, g->cur); g->onSync(); }
	bool crashed = crashable([=] { runOps(g, fl, off, true); }, true);
	if (!crashed) { // power fails later
		crashable([=] { for (;;) { crashPointMaybe(); yield("idle"); if (steps() > 40000) return; } }, false == true);
	}
	if (crashed) probe("crashed inside"); 
	survive(*g);
}
// the power fails right after sync() returned or the object was destroyed
SCENARIO(after_sync, 4)
{
	allow("write.short", 0.4); allow("write.EINTR", 0.3, 20);
	G *g = new G(); std::string *fl = new std::string(); size_t *off = new size_t(0);
	if (chance(0.5)) { g->cur = bytes(smallSize(50)); fs::put(P, g->cur); g->onSync(); }
	crashable([=] { runOps(g, fl, off, false); }, false);
	bool ex; std::string d = fs::durable(P, &ex);
	SIM_CHECK(ex, "lost-file", "the file is not durable after the object was destroyed");
	SIM_CHECK(d == g->cur, "lost-data", "%zu bytes are durable after the object was destroyed, %zu were written", d.size(), g->cur.size());
}
// one object used for reading first and then for writing still flushes
SCENARIO(reused_object, 1)
{
	fs::put("/sim/src", "abc");
	std::string d = bytes(1 + smallSize(30));
	{
		cybozu::File f("/sim/src", S::in);
		char b[3]; f.read(b, 3);
		f.close();
		if (chance(0.5)) f.openW(P); else f.open(P, S::out | S::app);
		f.write(d.data(), d.size());
		if (chance(0.5)) { f.sync(); bool ex; SIM_CHECK(fs::durable(P, &ex) == d, "lost-data", "sync() after reopening for writing did not flush"); }
	}
	bool ex; SIM_CHECK(fs::durable(P, &ex) == d, "lost-data", "the destructor of a reused object did not flush");
	SIM_CHECK(fs::openCount() == 0, "descriptor", "descriptor left open");
}
// a descriptor lent to a File object: sync() flushes it and reports a failure, the destructor leaves it open
SCENARIO(lent_descriptor, 1)
{
	allow("write.short", 0.3); allow("write.EINTR", 0.2, 20);
	if (chance(0.4)) allow("fsync.EIO", 0.5);
	int fd; { NoFault nf; fd = open(P, O_RDWR | O_CREAT | O_TRUNC, 0644); }
	std::string all;
	{
		cybozu::File f(fd);
		int n = range(1, 4);
		for (int i = 0; i < n; i++) {
			std::string d = bytes(smallSize(30));
			f.write(d.data(), d.size()); all += d;
			uint64_t q0 = fired("fsync.EIO");
			bool ok = true;
			try { f.sync(chance(0.5)); } catch (std::exception&) { ok = false; }
			SIM_CHECK(ok == (fired("fsync.EIO") == q0), "sync-result", ok ? "sync() of a lent descriptor hid a failing flush" : "sync() of a lent descriptor failed although the flush succeeded");
			bool ex; if (ok) SIM_CHECK(fs::durable(P, &ex) == all, "lost-data", "sync() of a lent descriptor did not flush");
		}
	}
	SIM_CHECK(fs::openCount() == 1 && fs::badCloses() == 0, "descriptor", "the lent descriptor was closed");
	NoFault nf; close(fd);
}
