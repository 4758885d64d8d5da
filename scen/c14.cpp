#include "common.h"
#include <cybozu/file.hpp>
#include <cybozu/mmap.hpp>
SIM_PROPERTY("C14", "cybozu/file.hpp (RenameFile, RemoveFile, DoesFileExist, GetFileSize, GetFileList), cybozu/mmap.hpp", "file system, directories, mappings (failing stat/rename/unlink/opendir/readdir/open/fstat/mmap/close), concurrent processes, operator new failure")
using namespace sim;
static bool threwAny(std::function<void()> f) { try { f(); } catch (std::exception&) { return true; } return false; }
// rename moves the file as a whole or not at all and never replaces an existing target
SCENARIO(rename, 4)
{
	bool hasFrom = chance(0.9), hasTo = chance(0.35), race = chance(0.5);
	std::string a = bytes(smallSize(30)), b = bytes(smallSize(30)), c = "created meanwhile";
	if (hasFrom) fs::put("/sim/a", a);
	if (hasTo) fs::put("/sim/b", b);
	allow("rename.EIO", 0.2); allow("rename.EXDEV", 0.2); allow("stat.EIO", 0.3); allow("stat.EACCES", 0.3); allow("rename.EINTR", 0.1);
	volatile bool *made = new volatile bool(false);
	if (race && !hasTo) spawn("other", [=] { NoFault nf; int fd = open("/sim/b", O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) { { Quiet q; *made = true; } if (write(fd, c.data(), c.size()) < 0) {} close(fd); } });
	uint64_t f0 = firedTotal();
	bool t = threwAny([] { cybozu::RenameFile("/sim/a", "/sim/b"); });
	joinAll();
	bool ea = fs::exists("/sim/a"), eb = fs::exists("/sim/b");
	if (hasTo) {
		SIM_CHECK(t, "replaced", "RenameFile onto an existing file returned normally");
		SIM_CHECK(eb && fs::get("/sim/b") == b, "replaced", "RenameFile replaced an existing file");
	}
	if (*made) { SIM_CHECK(fs::get("/sim/b") == c, "replaced", "RenameFile replaced a file created meanwhile by somebody else"); SIM_CHECK(t, "replaced", "RenameFile reported success although the target was created by somebody else"); }
	if (t) {
		SIM_CHECK(ea == hasFrom && (!hasFrom || fs::get("/sim/a") == a), "lost-source", "RenameFile failed and the source is gone or changed");
		SIM_CHECK(firedTotal() > f0 || !hasFrom || hasTo || *made, "spurious-error", "RenameFile failed without reason");
	} else {
		SIM_CHECK(hasFrom, "false-success", "RenameFile of a missing file returned normally");
		SIM_CHECK(!ea && eb && fs::get("/sim/b") == a, "not-moved", "RenameFile returned normally and the file was not moved");
	}
}
// two renames of one source, or onto one target: exactly one wins
SCENARIO(rename_race, 2)
{
	bool sameSrc = chance(0.5);
	fs::put("/sim/a1", "one");
	if (!sameSrc) fs::put("/sim/a2", "two");
	int *ok = new int[2]();
	for (int i = 0; i < 2; i++) spawn("r", [=] { std::string f = sameSrc ? "/sim/a1" : i ? "/sim/a2" : "/sim/a1", t = sameSrc ? (i ? "/sim/b2" : "/sim/b1") : "/sim/b"; ok[i] = !threwAny([&] { cybozu::RenameFile(f, t); }); });
	joinAll();
	SIM_CHECK(ok[0] + ok[1] == 1, "rename-race", "%d of 2 conflicting renames reported success", ok[0] + ok[1]);
	if (sameSrc) SIM_CHECK(fs::get(ok[0] ? "/sim/b1" : "/sim/b2") == "one" && !fs::exists("/sim/a1") && !fs::exists(ok[0] ? "/sim/b2" : "/sim/b1"), "rename-race", "the winner's file is missing");
	else SIM_CHECK(fs::get("/sim/b") == (ok[0] ? "one" : "two") && fs::get(ok[0] ? "/sim/a2" : "/sim/a1") == (ok[0] ? "two" : "one"), "rename-race", "a file was lost");
}
SCENARIO(remove, 2)
{
	bool has = chance(0.8);
	if (has) fs::put("/sim/a", "x");
	fs::put("/sim/ab", "y");
	allow("unlink.EIO", 0.3); allow("unlink.EACCES", 0.3);
	uint64_t f0 = firedTotal();
	bool t = threwAny([] { cybozu::RemoveFile("/sim/a"); });
	SIM_CHECK(fs::exists("/sim/a") == (t && has), "remove", "RemoveFile %s and the file %s", t ? "threw" : "returned", fs::exists("/sim/a") ? "is there" : "is gone");
	SIM_CHECK(t == (!has || firedTotal() > f0), "remove-result", "RemoveFile %s (existing %d)", t ? "threw" : "returned", has);
	SIM_CHECK(fs::get("/sim/ab") == "y", "remove", "another file was removed");
}
SCENARIO(query, 2)
{
	bool has = chance(0.7), dir = chance(0.3);
	std::string d = bytes(smallSize(200));
	if (has) { if (dir) fs::mkdir("/sim/a"); else fs::put("/sim/a", d); }
	allow("stat.EIO", 0.3);
	uint64_t f0 = firedTotal();
	std::string nm = chance(0.3) ? "/sim/a/" : "/sim/a";
	bool e = cybozu::DoesFileExist(nm);
	SIM_CHECK(e == has || firedTotal() > f0, "exists", "DoesFileExist(%s) = %d", nm.c_str(), e);
	SIM_CHECK(!e || has, "exists", "DoesFileExist reports a missing file");
	f0 = firedTotal();
	uint64_t sz = 0;
	bool t = threwAny([&] { sz = cybozu::GetFileSize("/sim/a"); });
	SIM_CHECK(t == (!has || firedTotal() > f0), "size-result", "GetFileSize %s", t ? "threw" : "returned");
	if (!t && !dir) SIM_CHECK(sz == d.size(), "size", "GetFileSize %llu of %zu", (unsigned long long)sz, d.size());
}
static bool pickCond(const std::string& name, const std::string& ext) { return name.size() % 2 == ext.size() % 2; }
// a directory listing is complete or reported as failed
SCENARIO(listing, 4)
{
	fs::mkdir("/sim/d");
	std::map<std::string, int> want;
	int n = range(0, 8);
	static const char *names[] = { "a.txt", "b.txt", "c", ".hidden", "d.tx", ".txt", "etxt", "f.cpp", "g.h", "h.txt.bak", "..x", "..." };
	for (int i = 0; i < n; i++) {
		std::string nm = names[choose(12)];
		int ty = (int)choose(3);
		if (ty == 1) fs::mkdir("/sim/d/" + nm); else fs::put("/sim/d/" + nm, "x");
		want[nm] = ty == 1 ? DT_DIR : DT_REG;
		if (ty == 2) { fs::setDType("/sim/d/" + nm, DT_UNKNOWN); want[nm] = DT_UNKNOWN; }
	}
	allow("opendir.EMFILE", 0.2); allow("opendir.EACCES", 0.2); allow("readdir.EIO", 0.3); allow("closedir.EIO", 0.2);
	if (chance(0.3)) allow("alloc", 0.2);
	std::string ext = h::pickOf({ (const char *)"", (const char *)"", "txt", "cpp", "x" });
	bool cond = chance(0.2), missing = chance(0.1), viaThrow = chance(0.5);
	std::string dir = missing ? "/sim/nodir" : "/sim/d";
	cybozu::FileList l; bool ok = true;
	try {
		if (viaThrow) { l = cond ? cybozu::GetFileList(dir, ext, pickCond) : cybozu::GetFileList(dir, ext); }
		else { ok = cond ? cybozu::GetFileList(l, dir, ext, pickCond) : cybozu::GetFileList(l, dir, ext); }
	} catch (std::exception&) { ok = false; }
	disallow("alloc");
	uint64_t hard = fired("opendir.EMFILE") + fired("opendir.EACCES") + fired("readdir.EIO") + fired("alloc");
	SIM_CHECK(ok || missing || hard > 0, "spurious-error", "GetFileList failed without reason");
	SIM_CHECK(fs::openDirs() == 0, "dir-leak", "%d directory streams left open", fs::openDirs());
	if (!ok) return;
	SIM_CHECK(!missing, "false-success", "listing of a missing directory succeeded");
	SIM_CHECK(hard == 0, "truncated-list", "GetFileList returned a list although reading the directory failed");
	std::map<std::string, int> got;
	for (auto& x : l) { SIM_CHECK(!got.count(x.name), "duplicate", "%s listed twice", x.name.c_str()); got[x.name] = (int)x.attr; }
	for (auto& w : want) {
		bool sel = cond ? pickCond(w.first, ext) : ext.empty() || (w.first.size() > ext.size() && w.first.substr(w.first.size() - ext.size() - 1) == "." + ext);
		SIM_CHECK(got.count(w.first) == (sel ? 1u : 0u), "listing", "%s is %s the list (extension '%s')", w.first.c_str(), sel ? "missing in" : "in", ext.c_str());
		if (sel) SIM_CHECK(got[w.first] == w.second, "attribute", "%s has type %d, expected %d", w.first.c_str(), got[w.first], w.second);
		got.erase(w.first);
	}
	SIM_CHECK(got.empty(), "listing", "%s listed and not in the directory", got.empty() ? "" : got.begin()->first.c_str());
	for (auto& x : l) {
		if (x.isUnknown()) { SIM_CHECK(threwAny([&] { x.isFile(); }) && threwAny([&] { x.isDirectory(); }), "attribute", "an unknown type was classified"); }
		else SIM_CHECK(x.isDirectory() == (want[x.name] == DT_DIR) && x.isFile() == (want[x.name] == DT_REG), "attribute", "type of %s", x.name.c_str());
	}
}
// a mapping shows the file; failures are reported and leak nothing
SCENARIO(mapping, 4)
{
	bool has = chance(0.9);
	std::string d = bytes(smallSize(h::pickOf({ 0, 30, 5000, 9000 })));
	if (has) fs::put("/sim/m", d);
	allow("open.EMFILE", 0.15); allow("open.EACCES", 0.15); allow("fstat.EIO", 0.2); allow("mmap.ENOMEM", 0.2); allow("mmap.EAGAIN", 0.2); allow("close.EIO", 0.2);
	if (chance(0.2)) allow("alloc", 0.2);
	int n = range(1, 3);
	for (int i = 0; i < n; i++) {
		uint64_t f0 = firedTotal() - fired("close.EIO");
		cybozu::Mmap *m = nullptr;
		std::string nm = "/sim/m";
		try { m = new cybozu::Mmap(nm); } catch (std::exception&) {}
		{ Quiet q; SIM_CHECK(fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptors left after construction:%s, bad closes %d", fs::describeOpen().c_str(), fs::badCloses()); }
		bool faulted = firedTotal() - fired("close.EIO") > f0;
		if (!m) { SIM_CHECK(!has || faulted, "spurious-error", "Mmap failed without reason"); Quiet q; SIM_CHECK(fs::openMaps() == 0, "map-leak", "a failed Mmap left a mapping"); continue; }
		SIM_CHECK(has, "false-success", "a missing file was mapped");
		Quiet q;
		SIM_CHECK(m->size() == d.size(), "map-size", "size() %llu of %zu", (unsigned long long)m->size(), d.size());
		if (!d.empty()) SIM_CHECK(memcmp(m->get(), d.data(), d.size()) == 0, "map-content", "the mapping differs from the file");
		delete m;
		SIM_CHECK(fs::openMaps() == 0, "map-leak", "%d mappings left after destruction", fs::openMaps());
	}
}
// sizes beyond 32 bits
SCENARIO(huge, 0.3)
{
	const uint64_t sz = (uint64_t)h::pickOf({ 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 0x17fffffffull, 0x200000003ull }) + choose(3);
	fs::hugeSize(sz); allow("open.EMFILE", 0.1); allow("fstat.EIO", 0.1); allow("mmap.ENOMEM", 0.1);
	uint64_t got = 0; uint64_t f0 = firedTotal(); bool t = threwAny([&] { got = cybozu::GetFileSize("/sim/huge"); });
	SIM_CHECK(t ? firedTotal() > f0 : got == sz, "size", "GetFileSize %llu of %llu", (unsigned long long)got, (unsigned long long)sz);
	f0 = firedTotal();
	t = threwAny([&] { cybozu::Mmap m("/sim/huge"); SIM_CHECK(m.size() == sz, "map-size", "size() %llu of %llu", (unsigned long long)m.size(), (unsigned long long)sz); Quiet q; SIM_CHECK(m.get()[0] == 'A' && m.get()[sz - 1] == 'Z', "map-content", "the mapping differs from the file"); });
	SIM_CHECK(!t || firedTotal() > f0, "spurious-error", "Mmap failed without reason");
	SIM_CHECK(fs::openMaps() == 0 && fs::openCount() == 0, "map-leak", "%d mappings and %d descriptors left", fs::openMaps(), fs::openCount());
}
// helpers used by several threads on different files do not disturb each other
SCENARIO(threads, 2)
{
	int n = range(2, 3); if (chance(0.3)) { allow("opendir.EMFILE", 0.2); allow("readdir.EIO", 0.2); allow("stat.EIO", 0.2); allow("fstat.EIO", 0.2); }
	std::vector<std::vector<std::string>> *names = new std::vector<std::vector<std::string>>(n); std::vector<std::string> *data = new std::vector<std::string>(n);
	for (int i = 0; i < n; i++) { std::string d = "/sim/d" + std::to_string(i); fs::mkdir(d); for (int k = 0, m = range(1, 4); k < m; k++) { (*names)[i].push_back("f" + std::to_string(i) + std::to_string(k) + ".txt"); fs::put(d + "/" + (*names)[i].back(), "x"); } (*data)[i] = std::string(1 + smallSize(60), (char)('a' + i)); fs::put("/sim/m" + std::to_string(i), (*data)[i]); }
	for (int i = 0; i < n; i++) spawn("user", [=] {
		std::string d, m, r; int ops; { Quiet q; d = "/sim/d" + std::to_string(i); m = "/sim/m" + std::to_string(i); r = m + "r"; ops = range(1, 3); }
		for (int o = 0; o < ops; o++) switch (choose(4)) {
		case 0: { cybozu::FileList l; uint64_t f0 = fired("opendir.EMFILE") + fired("readdir.EIO"); bool t = threwAny([&] { l = cybozu::GetFileList(d, "txt"); }); Quiet q; if (t) { SIM_CHECK(fired("opendir.EMFILE") + fired("readdir.EIO") > f0, "spurious-error", "GetFileList failed without reason"); break; }
			SIM_CHECK(l.size() == (*names)[i].size(), "listing", "%zu entries of %zu", l.size(), (*names)[i].size()); for (auto& x : l) { bool f = false; for (auto& y : (*names)[i]) f |= y == x.name; SIM_CHECK(f && x.isFile(), "listing", "%s is not in this directory", x.name.c_str()); } break; }
		case 1: { uint64_t sz = 0; uint64_t f0 = fired("stat.EIO") + fired("fstat.EIO"); bool t = threwAny([&] { sz = cybozu::GetFileSize(m); }); Quiet q; SIM_CHECK(t ? fired("stat.EIO") + fired("fstat.EIO") > f0 : sz == (*data)[i].size(), "size", "GetFileSize %llu of %zu", (unsigned long long)sz, (*data)[i].size()); break; }
		case 2: { uint64_t f0 = fired("stat.EIO") + fired("fstat.EIO"); bool t = threwAny([&] { cybozu::Mmap x(m); Quiet q; SIM_CHECK(x.size() == (*data)[i].size() && !memcmp(x.get(), (*data)[i].data(), x.size()), "map-content", "the mapping differs from the file"); }); Quiet q; SIM_CHECK(!t || fired("stat.EIO") + fired("fstat.EIO") > f0, "spurious-error", "Mmap failed without reason"); break; }
		default: { uint64_t f0 = fired("stat.EIO"); bool t = threwAny([&] { cybozu::RenameFile(m, r); }); { Quiet q; SIM_CHECK(!t || fired("stat.EIO") > f0, "spurious-error", "RenameFile failed without reason"); SIM_CHECK(fs::exists(r) == !t && fs::exists(m) == t && fs::get(t ? m : r) == (*data)[i], "not-moved", "RenameFile"); } if (!t) { NoFault nf; threwAny([&] { cybozu::RenameFile(r, m); }); } }
		}
	});
	joinAll();
	SIM_CHECK(fs::openDirs() == 0 && fs::openMaps() == 0 && fs::openCount() == 0, "resource", "%d directories, %d mappings, %d descriptors left", fs::openDirs(), fs::openMaps(), fs::openCount());
}
