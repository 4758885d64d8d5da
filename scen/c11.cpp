#include "common.h"
#include <cybozu/file.hpp>
#include <sys/mman.h>
SIM_PROPERTY("C11", "cybozu/file.hpp (File: read, readSome, seek, getSize), cybozu/exception.hpp", "file system, pipes and descriptors (short reads, EINTR, EIO, failing open/lseek/fstat/close, files growing meanwhile), thread scheduling")
using namespace sim;
typedef std::ios S;
static const char *P = "/sim/f";
static void ordinary() { allow("read.short", 0.7); allow("read.EINTR", 0.5, 40); }
// random program on one reader; the model is the content and a position
SCENARIO(program, 5)
{
	ordinary();
	if (chance(0.5)) { allow("read.EIO", 0.2); allow("open.EACCES", 0.2); allow("open.EMFILE", 0.2); allow("lseek.EIO", 0.2); allow("fstat.EIO", 0.2); allow("close.EIO", 0.2); }
	bool exists = chance(0.95);
	std::string data = bytes(smallSize(h::pickOf({ 4, 60, 400 })));
	if (exists) fs::put(P, data);
	{
		cybozu::File f;
		uint64_t pos = 0; bool open = false;
		int n = range(1, 10);
		for (int i = 0; i < n; i++) {
			uint64_t f0 = firedTotal();
			if (!open) {
				try { if (chance(0.5)) f.openR(P); else f.open(P, S::in | S::binary); SIM_CHECK(exists, "open-missing", "a missing file was opened"); open = true; pos = 0; SIM_CHECK(f.isOpen(), "is-open", "isOpen"); }
				catch (std::exception&) { SIM_CHECK(!exists || firedTotal() > f0, "spurious-error", "open failed without reason"); SIM_CHECK(!f.isOpen(), "is-open", "failed open leaves the object open"); }
				continue;
			}
			try {
				switch (pick({ 4, 4, 2, 1, 0.5 })) {
				case 0: { // readSome
					size_t k = smallSize(h::pickOf({ 3, 40, 500 }));
					std::vector<char> b(k + 16, 0x5e);
					size_t r = f.readSome(&b[8], k);
					size_t left = data.size() > pos ? data.size() - pos : 0;
					SIM_CHECK(r <= k && r <= left, "read-length", "readSome(%zu) returned %zu with %zu bytes left", k, r, left);
					SIM_CHECK(r > 0 || k == 0 || left == 0, "false-eof", "readSome returned 0 before the end of the file");
					SIM_CHECK(memcmp(&b[8], data.data() + (r ? pos : 0), r) == 0, "content", "readSome returned other bytes than the file holds");
					for (size_t j = 0; j < 8; j++) SIM_CHECK(b[j] == 0x5e && b[8 + k + j] == 0x5e, "overrun", "bytes outside the buffer changed");
					for (size_t j = r; j < k; j++) SIM_CHECK(b[8 + j] == 0x5e, "overrun", "bytes behind the returned length changed");
					pos += r;
					break; }
				case 1: { // read exactly
					size_t left = data.size() > pos ? data.size() - pos : 0;
					size_t k = chance(0.6) ? (size_t)choose((uint32_t)left + 1) : smallSize(500);
					std::vector<char> b(k + 16, 0x5e);
					try { f.read(&b[8], k); }
					catch (std::exception&) {
						SIM_CHECK(k > left || firedTotal() > f0, "spurious-error", "read(%zu) threw with %zu bytes left", k, left);
						if (k > left) probe("short file reported");
						for (size_t j = 0; j < 8; j++) SIM_CHECK(b[j] == 0x5e && b[8 + k + j] == 0x5e, "overrun", "bytes outside the buffer changed");
						{ NoFault nf; f.seek((int64_t)pos, S::beg); }
						break;
					}
					SIM_CHECK(k <= left, "read-past-end", "read(%zu) returned normally with %zu bytes left", k, left);
					SIM_CHECK(k == 0 || memcmp(&b[8], data.data() + pos, k) == 0, "content", "read returned other bytes than the file holds");
					for (size_t j = 0; j < 8; j++) SIM_CHECK(b[j] == 0x5e && b[8 + k + j] == 0x5e, "overrun", "bytes outside the buffer changed");
					pos += k;
					break; }
				case 2: {
					int w = (int)choose(3); int64_t base = w == 0 ? 0 : w == 1 ? (int64_t)pos : (int64_t)data.size();
					int64_t off = (int64_t)choose(80) - 30;
					if (chance(0.15)) { off += (int64_t)h::pickOf({ 1, 2, 3, 5 }) << h::pickOf({ 30, 31, 32, 33 }); probe("far seek"); }
					else if (w == 1 && pos > (1u << 30) && chance(0.5)) off = (int64_t)choose((uint32_t)data.size() + 1) - (int64_t)pos; // back again
					try { f.seek(off, w == 0 ? S::beg : w == 1 ? S::cur : S::end); SIM_CHECK(base + off >= 0, "seek", "seek before the start accepted"); pos = (uint64_t)(base + off); }
					catch (std::exception&) { SIM_CHECK(base + off < 0 || firedTotal() > f0, "spurious-error", "seek failed without reason"); }
					break; }
				case 3: { uint64_t z = f.getSize(); SIM_CHECK(z == data.size(), "get-size", "getSize() %llu of %zu", (unsigned long long)z, data.size()); break; }
				default: open = false; f.close(); break;
				}
			} catch (std::exception&) { SIM_CHECK(firedTotal() > f0, "spurious-error", "an operation failed although every system call succeeded"); }
		}
	}
	SIM_CHECK(!exists || fs::get(P) == data, "modified", "reading changed the file");
	SIM_CHECK(fs::openCount() == 0 && fs::badCloses() == 0, "descriptor", "descriptors left open:%s, bad closes %d", fs::describeOpen().c_str(), fs::badCloses());
}
// the whole file arrives in order however the reads are cut, also while a writer appends
SCENARIO(growing, 3)
{
	ordinary();
	std::string *data = new std::string(bytes(smallSize(100)));
	fs::put(P, *data);
	int chunks = range(0, 4);
	volatile bool *done = new volatile bool(false);
	spawn("writer", [=] {
		NoFault nf;
		int fd = open(P, O_WRONLY | O_APPEND);
		for (int i = 0; i < chunks; i++) { std::string d; { Quiet q; d = bytes(1 + smallSize(60)); *data += d; } if (write(fd, d.data(), d.size()) < 0) {} }
		close(fd);
		*done = true;
	});
	std::string got;
	cybozu::File f(P, S::in);
	int idle = 0;
	for (;;) {
		bool dn = *done;
		char b[64];
		size_t k = 1 + choose(64);
		size_t r = f.readSome(b, k);
		SIM_CHECK(r <= k, "read-length", "readSome too long");
		got.append(b, r);
		if (r == 0) { if (dn) break; stall("wait"); SIM_CHECK(++idle < 5000, "livelock", "no progress"); }
	}
	joinAll();
	SIM_CHECK(got == *data, "content", "%zu bytes read of %zu, or other bytes", got.size(), data->size());
}
// a pipe: read() waits for all of its bytes, and fails when the writer is gone
SCENARIO(from_pipe, 2)
{
	ordinary();
	int p[2]; { NoFault nf; if (pipe(p)) return; }
	size_t have = smallSize(200), want = chance(0.7) ? (size_t)choose((uint32_t)have + 1) : smallSize(250);
	std::string data = bytesFrom(7, have);
	int wfd = p[1];
	std::string *d2 = new std::string(data);
	spawn("w", [=] { NoFault nf; size_t i = 0; while (i < have) { size_t k = std::min<size_t>(1 + choose(50), have - i); if (write(wfd, d2->data() + i, k) < 0) {} i += k; if (chance(0.3)) h::pause(50 * MS); } close(wfd); });
	cybozu::File f(p[0]);
	std::vector<char> b(want + 1);
	bool ok = true;
	try { f.read(&b[0], want); } catch (std::exception&) { ok = false; }
	SIM_CHECK(ok == (want <= have), "read-past-end", "read(%zu) of %zu bytes: %s", want, have, ok ? "returned" : "threw");
	if (ok) SIM_CHECK(memcmp(&b[0], data.data(), want) == 0, "content", "content");
	joinAll();
	SIM_CHECK(fs::openCount() == 1, "borrowed", "the borrowed descriptor was closed");
	close(p[0]);
}
SCENARIO(huge_size, 0.5)
{
	allow("read.short", 0.3); allow("read.EINTR", 0.3, 10);
	const uint64_t sz = (uint64_t)h::pickOf({ 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 0x17fffffffull, 0x200000003ull }) + choose(3);
	char *p = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == (char *)MAP_FAILED) return;
	fs::hugeSize(sz + choose(5));
	cybozu::File f("/sim/huge", S::in);
	SIM_CHECK(f.getSize() >= sz, "get-size", "size of a large file");
	f.read(p, sz);
	const char *e = p;
	for (auto& x : fs::hugeLog()) { SIM_CHECK(x.first == e, "content", "bytes skipped or repeated at offset %lld", (long long)(e - p)); e += x.second; }
	SIM_CHECK(e == p + sz, "content", "%lld of %llu bytes read", (long long)(e - p), (unsigned long long)sz);
	fs::hugeLog().clear();
	f.seek((int64_t)sz - 7, S::beg);
	size_t r = f.readSome(p, sz);
	SIM_CHECK(r >= 1 && r <= 12, "seek", "readSome after a seek beyond 4 GB returned %zu", r);
}
