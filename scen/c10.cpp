#include "common.h"
#include <cybozu/file.hpp>
#include <sys/mman.h>
SIM_PROPERTY("C10", "cybozu/file.hpp (File: open modes, write, seek, close, destructor), cybozu/exception.hpp", "file system and descriptors (short writes, EINTR, EIO, ENOSPC, full disk, failing open/lseek/fstat/fsync/close), thread scheduling")
using namespace sim;
typedef std::ios S;

static void ordinary() { allow("write.short", 0.6); allow("write.EINTR", 0.5, 40); }
static void bad()
{
	if (chance(0.5)) return;
	allow("write.EIO", 0.2); allow("write.ENOSPC", 0.2); allow("open.EACCES", 0.2); allow("open.EMFILE", 0.2); allow("open.EINTR", 0.2); allow("lseek.EIO", 0.2); allow("fstat.EIO", 0.2);
	allow("fsync.EIO", 0.2); allow("close.EIO", 0.2);
	if (chance(0.3)) fs::diskLimit(range(0, 300));
}
static void put(std::string& m, uint64_t off, const std::string& d) { if (m.size() < off + d.size()) m.resize(off + d.size(), 0); m.replace(off, d.size(), d); }
static const char *P = "/sim/f";
struct Model { std::string data; bool open = false, app = false; uint64_t pos = 0; };
// a random program on one File object
SCENARIO(program, 5)
{
	ordinary(); bad();
	Model m; bool existed = chance(0.6);
	if (existed) { m.data = bytes(smallSize(60)); fs::put(P, m.data); }
	fs::put("/sim/other", "untouched");
	bool useCtor = chance(0.4);
	cybozu::File *f = useCtor ? nullptr : new cybozu::File();
	int n = range(1, 12);
	for (int i = 0; i < n; i++) {
		uint64_t f0 = firedTotal();
		if (!m.open) {
			int how = (int)choose(4);
			std::ios::openmode md = how == 0 ? S::out : how == 1 ? (S::out | S::trunc | S::binary) : how == 2 ? (S::out | S::app) : (S::out | S::trunc | S::binary);
			std::string before = fs::get(P); bool ex = fs::exists(P);
			try {
				if (!f) f = new cybozu::File(P, md);
				else if (how == 3) f->openW(P);
				else f->open(P, md);
				m.open = true; m.app = how == 2;
				if (!m.app) { m.data.clear(); m.pos = 0; } else m.pos = m.data.size();
				SIM_CHECK(f->isOpen(), "is-open", "open succeeded and isOpen() is false");
			} catch (std::exception&) {
				SIM_CHECK(firedTotal() > f0, "spurious-error", "open failed although every system call succeeded");
				if (!ex) SIM_CHECK(fs::get(P).empty(), "open-content", "a failed open wrote data");
				else SIM_CHECK(fs::get(P) == before || (fs::get(P).empty() && how != 2), "open-content", "a failed open changed the file");
				if (fs::get(P) != before) m.data.clear();
				if (f) SIM_CHECK(!f->isOpen(), "is-open", "open failed and isOpen() is true");
				continue;
			}
			SIM_CHECK(fs::get(P) == m.data, "open-content", "after opening (%s) the file has %zu bytes, expected %zu", m.app ? "append" : "truncate", fs::get(P).size(), m.data.size());
			{ NoFault nf; SIM_CHECK(f->getSize() == m.data.size(), "get-size", "getSize"); }
			continue;
		}
		try {
			switch (pick({ 6, 1, 1, 1, 1 })) {
			case 0: {
				std::string d = bytes(smallSize(h::pickOf({ 8, 64, 400 })));
				std::string before = m.data; uint64_t pos = m.app ? m.data.size() : m.pos;
				try {
					f->write(d.data(), d.size());
				} catch (std::exception&) {
					std::string now = fs::get(P); bool ok = false; size_t k = 0;
					for (; k <= d.size() && !ok; k++) { std::string x = before; if (k) put(x, pos, d.substr(0, k)); ok = x == now; }
					SIM_CHECK(ok, "not-a-prefix", "a failed write left bytes that are not a prefix of the data at its position");
					m.data = now; { NoFault nf; m.pos = choose(12); f->seek((int64_t)m.pos, S::beg); } // where a failed write leaves the position is not specified
					probe("write failed");
					throw;
				}
				if (!d.empty()) put(m.data, pos, d);
				if (!d.empty()) m.pos = pos + d.size();
				SIM_CHECK(fs::get(P) == m.data, "content", "write of %zu bytes at %llu returned normally, but the file differs from what was written (size %zu, expected %zu)", d.size(), (unsigned long long)pos, fs::get(P).size(), m.data.size());
				break; }
			case 1: {
				int w = (int)choose(3); int64_t base = w == 0 ? 0 : w == 1 ? (int64_t)m.pos : (int64_t)m.data.size();
				int64_t off = (int64_t)choose(20) - 6;
				try { f->seek(off, w == 0 ? S::beg : w == 1 ? S::cur : S::end); SIM_CHECK(base + off >= 0, "seek", "seek before the start accepted"); m.pos = (uint64_t)(base + off); }
				catch (std::exception&) { SIM_CHECK(base + off < 0 || firedTotal() > f0, "spurious-error", "seek failed although every system call succeeded"); }
				break; }
			case 2: f->sync(chance(0.5)); break;
			case 3: { uint64_t z = f->getSize(); SIM_CHECK(z == m.data.size(), "get-size", "getSize() %llu of %zu", (unsigned long long)z, m.data.size()); break; }
			default:
				if (chance(0.5)) { m.open = false; f->close(); SIM_CHECK(!f->isOpen(), "is-open", "open after close"); }
				else { try { f->open("/sim/other", S::out); SIM_CHECK(false, "double-open", "open on an open object accepted"); } catch (cybozu::Exception&) {} SIM_CHECK(f->isOpen(), "is-open", "a refused second open closed the file"); }
				break;
			}
		} catch (std::exception&) {
			SIM_CHECK(firedTotal() > f0, "spurious-error", "an operation failed although every system call succeeded");
		}
	}
	if (f) { if (m.open && chance(0.3)) { m.open = false; try { f->close(); } catch (std::exception&) {} } delete f; }
	SIM_CHECK(!fs::exists(P) || fs::get(P) == m.data, "content", "the final content differs from the writes that succeeded");
	SIM_CHECK(fs::get("/sim/other") == "untouched", "other-file", "another file changed");
	SIM_CHECK(fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptors left open:%s, closes of closed descriptors: %d", fs::describeOpen().c_str(), fs::badCloses());
}
// nothing fails: no operation may throw
SCENARIO(no_spurious, 2)
{
	ordinary();
	std::string all;
	{
		cybozu::File f(P, chance(0.5) ? (S::out | S::app) : S::out);
		int n = range(1, 6);
		for (int i = 0; i < n; i++) { std::string d = bytes(smallSize(500)); f.write(d.data(), d.size()); all += d; if (chance(0.2)) f.sync(); SIM_CHECK(fs::get(P) == all, "content", "file differs after write %d", i); }
		if (chance(0.5)) f.close();
	}
	SIM_CHECK(fs::get(P) == all, "content", "final content");
	SIM_CHECK(fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptors left:%s", fs::describeOpen().c_str());
}
// refused modes leave everything alone
SCENARIO(modes, 1)
{
	fs::put(P, "keep");
	std::ios::openmode md = (chance(0.5) ? S::in : S::openmode()) | (chance(0.5) ? S::out : S::openmode()) | (chance(0.5) ? S::app : S::openmode()) | (chance(0.5) ? S::trunc : S::openmode()) | (chance(0.5) ? S::binary : S::openmode());
	bool in = md & S::in, out = md & S::out, app = md & S::app, tr = md & S::trunc;
	bool okMode = in != out && !(in && (app || tr)) && !(out && app && tr);
	bool ok = true;
	try { cybozu::File f(P, md); } catch (cybozu::Exception&) { ok = false; }
	SIM_CHECK(ok == okMode, "mode", "mode in=%d out=%d app=%d trunc=%d accepted=%d", in, out, app, tr, ok);
	SIM_CHECK(fs::get(P) == (ok && out && !app ? "" : "keep"), "mode", "content after open in=%d out=%d app=%d trunc=%d", in, out, app, tr);
	SIM_CHECK(fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptors left:%s", fs::describeOpen().c_str());
}
// several writers appending to one file: nobody's bytes are lost, overwritten or reordered
SCENARIO(appenders, 3)
{
	ordinary();
	if (chance(0.5)) fs::put(P, "start");
	std::string start = fs::get(P);
	int nt = range(2, 3);
	std::vector<std::string> *sent = new std::vector<std::string>(nt);
	for (int t = 0; t < nt; t++) spawn("app", [=] {
		cybozu::File f(P, S::out | S::app);
		int n = range(1, 4);
		for (int i = 0; i < n; i++) { std::string d; { Quiet q; size_t k = smallSize(20); for (size_t j = 0; j < k; j++) d += (char)(t * 64 + (i * 20 + j) % 64); (*sent)[t] += d; } f.write(d.data(), d.size()); }
	});
	joinAll();
	std::string all = fs::get(P);
	SIM_CHECK(all.compare(0, start.size(), start) == 0, "append", "existing content overwritten");
	std::vector<std::string> got(nt);
	for (size_t i = start.size(); i < all.size(); i++) got[((unsigned char)all[i] / 64) % nt] += all[i];
	for (int t = 0; t < nt; t++) SIM_CHECK(got[t] == (*sent)[t], "append", "appender %d: %zu bytes arrived of %zu", t, got[t].size(), (*sent)[t].size());
	delete sent;
}
// a borrowed descriptor is written to, never closed
SCENARIO(borrowed, 1)
{
	ordinary();
	int fd; { NoFault n; fd = open(P, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
	std::string d = bytes(smallSize(100));
	{ cybozu::File f(fd); SIM_CHECK(f.isOpen(), "is-open", "a borrowed descriptor is open"); f.write(d.data(), d.size()); if (chance(0.3)) f.sync();
		if (chance(0.3)) { bool t = false; try { f.open("/sim/other", chance(0.5) ? S::in : S::out); } catch (std::exception&) { t = true; } SIM_CHECK(t, "double-open", "an open file was opened again"); } }
	SIM_CHECK(fs::get(P) == d, "content", "content");
	SIM_CHECK(fs::openCount() == 1, "borrowed", "the borrowed descriptor was closed");
	{ cybozu::File f(fd); f.close(); SIM_CHECK(!f.isOpen() && fs::openCount() == 0, "borrowed-close", "close() did not close"); // an explicit close is obeyed; what is opened then belongs to the object
		f.openW("/sim/own"); f.write(d.data(), d.size()); if (chance(0.5)) f.close(); }
	SIM_CHECK(fs::get("/sim/own") == d, "content", "content of the file opened later");
	SIM_CHECK(fs::openCount() == 0, "descriptor", "a file opened by an object that had borrowed a descriptor stays open");
}
// sizes beyond one system call
SCENARIO(huge_size, 0.5)
{
	allow("write.short", 0.3); allow("write.EINTR", 0.3, 10);
	const uint64_t sz = (uint64_t)h::pickOf({ 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 0x17fffffffull, 0x200000003ull }) + choose(3);
	char *p = (char *)mmap(nullptr, sz, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == (char *)MAP_FAILED) return;
	cybozu::File f("/sim/huge", S::out);
	f.write(p, sz);
	const char *e = p;
	for (auto& x : fs::hugeLog()) { SIM_CHECK(x.first == e, "content", "bytes skipped or repeated at offset %lld", (long long)(e - p)); e += x.second; }
	SIM_CHECK(e == p + sz, "content", "%lld of %llu bytes written", (long long)(e - p), (unsigned long long)sz);
}
