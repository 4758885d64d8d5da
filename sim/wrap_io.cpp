// Simulated descriptors, files, directories, pipes, mmap and stdio.
#include "io.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <syslog.h>
#include <algorithm>
#include <unordered_map>

#define R(ret, name, args) ret __real_##name args;
extern "C" {
R(int, open, (const char *, int, ...)) R(int, open64, (const char *, int, ...)) R(int, openat, (int, const char *, int, ...)) R(int, creat, (const char *, mode_t))
R(int, close, (int)) R(ssize_t, read, (int, void *, size_t)) R(ssize_t, write, (int, const void *, size_t))
R(ssize_t, pread, (int, void *, size_t, off_t)) R(ssize_t, pwrite, (int, const void *, size_t, off_t))
R(ssize_t, readv, (int, const struct iovec *, int)) R(ssize_t, writev, (int, const struct iovec *, int))
R(off_t, lseek, (int, off_t, int)) R(int, fsync, (int)) R(int, fdatasync, (int)) R(int, ftruncate, (int, off_t))
R(int, fstat, (int, struct stat *)) R(int, stat, (const char *, struct stat *)) R(int, lstat, (const char *, struct stat *)) R(int, access, (const char *, int))
R(int, fstat64, (int, struct stat64 *)) R(int, stat64, (const char *, struct stat64 *)) R(int, lstat64, (const char *, struct stat64 *))
R(int, fstatat, (int, const char *, struct stat *, int)) R(int, fstatat64, (int, const char *, struct stat64 *, int))
R(int, rename, (const char *, const char *)) R(int, unlink, (const char *)) R(int, remove, (const char *)) R(int, link, (const char *, const char *)) R(int, mkdir, (const char *, mode_t)) R(int, rmdir, (const char *)) R(int, truncate, (const char *, off_t))
R(int, renameat2, (int, const char *, int, const char *, unsigned)) R(int, renameat, (int, const char *, int, const char *))
R(DIR *, opendir, (const char *)) R(struct dirent *, readdir, (DIR *)) R(struct dirent64 *, readdir64, (DIR *)) R(int, closedir, (DIR *))
R(void *, mmap, (void *, size_t, int, int, int, off_t)) R(int, munmap, (void *, size_t)) R(int, msync, (void *, size_t, int))
R(int, pipe, (int *)) R(int, pipe2, (int *, int)) R(int, dup, (int)) R(int, dup2, (int, int)) R(int, dup3, (int, int, int))
R(int, fcntl, (int, int, ...)) R(int, fcntl64, (int, int, ...)) R(int, ioctl, (int, unsigned long, ...))
R(FILE *, fopen, (const char *, const char *)) R(FILE *, fdopen, (int, const char *)) R(int, fclose, (FILE *)) R(int, fileno, (FILE *)) R(int, fflush, (FILE *))
R(int, vfprintf, (FILE *, const char *, va_list)) R(int, fputs, (const char *, FILE *)) R(size_t, fwrite, (const void *, size_t, size_t, FILE *)) R(size_t, fread, (void *, size_t, size_t, FILE *)) R(int, fputc, (int, FILE *))
R(int, flock, (int, int)) R(int, posix_fallocate, (int, off_t, off_t)) R(int, setvbuf, (FILE *, char *, int, size_t))
R(void, sync, ())
}

namespace sim {

static std::map<int, FdTable> g_fdts;
static std::map<std::string, InodeP> g_dir;      // path -> inode (running)
static std::map<std::string, InodeP> g_dirDur;   // path -> inode (durable names)
static int g_fdBase = 200;
int g_badClose = 0;
static int64_t g_io = 0;
static int64_t g_disk = -1;
static int g_inodes = 0;
static std::set<void *> g_dirs;
static std::map<void *, size_t> g_maps;
static std::map<FILE *, int> g_files;
static std::string g_err, g_out;
static std::vector<SyslogEntry> g_syslog;

ssize_t err(int e) { errno = e; return -1; }
void setFdBase(int b) { g_fdBase = b; }
std::string& capturedStderr() { return g_err; }
std::string& capturedStdout() { return g_out; }
std::vector<SyslogEntry>& syslogEntries() { return g_syslog; }

FdTable& fdtOf(int role) { return g_fdts[role]; }
FdTable& fdt() { return g_fdts[t_self ? t_self->role : 0]; }
bool simRange(int fd) { return fd >= 200; }
OfdP getFdP(int fd)
{
	FdTable& t = fdt();
	auto it = t.t.find(fd);
	return it == t.t.end() ? nullptr : it->second.o;
}
Ofd *getFd(int fd) { return getFdP(fd).get(); }
int allocFd(OfdP o, int minFd)
{
	FdTable& t = fdt();
	int fd = minFd < 0 ? g_fdBase : minFd;
	while (t.t.count(fd)) fd++;
	FdEnt e; e.o = o;
	o->refs++;
	t.t[fd] = e;
	return fd;
}
void releaseOfd(OfdP o)
{
	if (--o->refs > 0) return;
	if (o->kind == Ofd::PIPE_R) o->pipe->readers--;
	if (o->kind == Ofd::PIPE_W) o->pipe->writers--;
	if (o->kind == Ofd::SOCK) sockClose(o.get());
}
void dropFd(FdTable& t, int fd)
{
	auto it = t.t.find(fd);
	if (it == t.t.end()) return;
	OfdP o = it->second.o;
	t.t.erase(it);
	releaseOfd(o);
}
bool isSimPath(const char *p) { return p && (strncmp(p, "/sim/", 5) == 0 || strcmp(p, "/sim") == 0); }
static std::string norm(const char *p)
{
	std::string s(p);
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	return s;
}
static std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }

// ---------------------------------------------------------------- harness access
static uint64_t g_huge = 0;
static std::vector<std::pair<const void *, size_t>> g_hugeLog;
static std::string g_urandLog; static uint64_t g_urandReads, g_urandLimit;
void urandGiveUp(uint64_t n) { g_urandLimit = n; }
std::string& urandLog() { return g_urandLog; }
uint64_t urandReads() { return g_urandReads; }
namespace fs {
void hugeSize(uint64_t n) { g_huge = n; }
std::vector<std::pair<const void *, size_t>>& hugeLog() { return g_hugeLog; }
static InodeP mk(const std::string& path) { InodeP i(new Inode()); i->id = ++g_inodes; g_dir[path] = i; return i; }
void put(const std::string& path, const std::string& data)
{
	ENGINE
	InodeP i = mk(path); i->data = i->dur = data; i->everDurable = true; g_dirDur[path] = i;
}
void mkdir(const std::string& path) { ENGINE InodeP i = mk(path); i->isDir = true; i->everDurable = true; g_dirDur[path] = i; }
bool exists(const std::string& path) { ENGINE return g_dir.count(path) != 0; }
std::string get(const std::string& path) { ENGINE auto it = g_dir.find(path); return it == g_dir.end() ? std::string() : it->second->data; }
std::string durable(const std::string& path, bool *ex) { ENGINE auto it = g_dirDur.find(path); if (ex) *ex = it != g_dirDur.end(); return it == g_dirDur.end() ? std::string() : it->second->dur; }
void remove(const std::string& path) { ENGINE g_dir.erase(path); g_dirDur.erase(path); }
bool fullySynced(const std::string& path) { ENGINE auto it = g_dir.find(path); return it != g_dir.end() && it->second->pend.empty() && g_dirDur.count(path); }
std::vector<std::string> list(const std::string& dir)
{
	ENGINE
	std::vector<std::string> r;
	for (auto& e : g_dir) if (parent(e.first) == dir) r.push_back(e.first.substr(dir.size() + 1));
	return r;
}
void setDType(const std::string& path, int d) { ENGINE auto it = g_dir.find(path); if (it != g_dir.end()) it->second->dtype = d; }
void diskLimit(int64_t b) { g_disk = b; }
void cap(const std::string& path, size_t n) { ENGINE auto it = g_dir.find(path); if (it != g_dir.end()) it->second->cap = n; }
int openCount() { ENGINE int n = 0; for (auto& e : fdt().t) if (e.second.o->kind != Ofd::STDIO) n++; return n; }
int openDirs() { return (int)g_dirs.size(); }
int openMaps() { return (int)g_maps.size(); }
int openFiles() { return (int)g_files.size(); }
int badCloses() { return g_badClose; }
std::string describeOpen()
{
	ENGINE
	std::string s;
	for (auto& e : fdt().t) if (e.second.o->kind != Ofd::STDIO) s += " fd" + std::to_string(e.first) + "=" + (e.second.o->path.empty() ? "kind" + std::to_string(e.second.o->kind) : e.second.o->path);
	if (!g_dirs.empty()) s += " dirs=" + std::to_string(g_dirs.size());
	if (!g_maps.empty()) s += " maps=" + std::to_string(g_maps.size());
	if (!g_files.empty()) s += " FILEs=" + std::to_string(g_files.size());
	return s;
}
int64_t ioCalls() { return g_io; }
} // fs

static void applyPend(std::string& d, const PendOp& p)
{
	if (p.k == PendOp::TRUNC) { d.resize(p.off); return; }
	if (d.size() < p.off + p.data.size()) d.resize(p.off + p.data.size());
	memcpy(&d[p.off], p.data.data(), p.data.size());
}
static void syncInode(InodeP i)
{
	i->dur = i->data; i->pend.clear(); i->everDurable = true;
	// a file's own name becomes durable with its data (journalling file system)
	for (auto& e : g_dir) if (e.second == i) g_dirDur[e.first] = i;
}
// the machine stops: unsynced changes may be lost, applied, torn or applied out of order
void crashIo()
{
	std::map<std::string, InodeP> nd = g_dirDur;
	for (auto& e : g_dir) if (!g_dirDur.count(e.first) && chance(0.5)) nd[e.first] = e.second; // an unsynced name may survive
	for (auto& e : g_dirDur) if (!g_dir.count(e.first)) { if (chance(0.5)) nd.erase(e.first); } // an unsynced unlink may survive or not
	std::set<Inode *> seen;
	for (auto& e : nd) {
		InodeP i = e.second;
		if (!seen.insert(i.get()).second) continue;
		std::string d = i->dur;
		if (!i->pend.empty()) {
			uint32_t how = choose(4); // 0 lose everything, 1 keep everything, 2 keep a prefix, torn, 3 arbitrary subset
			size_t n = i->pend.size();
			if (how == 1) for (auto& p : i->pend) applyPend(d, p);
			if (how == 2) {
				size_t k = choose((uint32_t)n + 1);
				for (size_t j = 0; j < k; j++) applyPend(d, i->pend[j]);
				if (k < n && i->pend[k].k == PendOp::WRITE && !i->pend[k].data.empty()) {
					PendOp t = i->pend[k]; t.data.resize(choose((uint32_t)t.data.size() + 1));
					if (!t.data.empty()) { applyPend(d, t); probe("torn write survived a crash"); }
				}
			}
			if (how == 3) for (auto& p : i->pend) if (chance(0.5)) applyPend(d, p);
		}
		i->data = i->dur = d; i->pend.clear(); i->everDurable = true;
	}
	g_dir = nd; g_dirDur = nd;
	for (auto it = g_fdts[0].t.begin(); it != g_fdts[0].t.end();) { if (it->second.o->kind == Ofd::STDIO) ++it; else it = g_fdts[0].t.erase(it); }
	g_dirs.clear(); g_maps.clear(); g_files.clear();
}
void resetIo() {}

// the error a failing call reports varies: code must not depend on one particular errno
static int oneOf(std::initializer_list<int> l) { return *(l.begin() + choose((uint32_t)l.size())); }

static int openImpl(const char *path, int flags, mode_t)
{
	yield("open");
	ENGINE
	g_io++;
	crashPointMaybe();
	if (fault("open.EINTR")) { ev("open", -EINTR); return err(EINTR); }
	if (fault("open.EMFILE")) { ev("open", -EMFILE); return err(EMFILE); }
	if (fault("open.EACCES")) { ev("open", -EACCES); return err(EACCES); }
	if (fault("open.EIO")) { ev("open", -EIO); return err(EIO); }
	std::string p = norm(path);
	OfdP o(new Ofd());
	o->path = p; o->flags = flags;
	if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { o->kind = Ofd::URANDOM; int fd = allocFd(o); ev("open.urandom", fd); return fd; }
	if (!strcmp(path, "/dev/null")) { o->kind = Ofd::NULLDEV; int fd = allocFd(o); ev("open.null", fd); return fd; }
	if (p == "/sim/huge") { o->kind = Ofd::HUGE_; int fd = allocFd(o); ev("open.huge", fd); return fd; }
	auto it = g_dir.find(p);
	int acc = flags & O_ACCMODE;
	if (it == g_dir.end()) {
		if (!(flags & O_CREAT)) { ev("open", -ENOENT); return err(ENOENT); }
		if (fault("open.ENOSPC")) { ev("open", -ENOSPC); return err(ENOSPC); }
		InodeP i = fs::mk(p);
		o->ino = i;
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { ev("open", -EEXIST); return err(EEXIST); }
		o->ino = it->second;
		if (o->ino->isDir) { if (acc != O_RDONLY) return err(EISDIR); o->kind = Ofd::DIR_; }
		if ((flags & O_TRUNC) && acc != O_RDONLY && !o->ino->data.empty()) {
			o->ino->data.clear();
			o->ino->pend.push_back(PendOp{ PendOp::TRUNC, 0, "" });
		}
	}
	int fd = allocFd(o);
	if (flags & O_CLOEXEC) fdt().t[fd].cloexec = true;
	ev("open", fd, flags);
	note("open(%s, 0x%x) = %d", path, flags, fd);
	return fd;
}

static ssize_t fileWrite(OfdP o, const void *buf, size_t n, int64_t at)
{
	crashPointMaybe();
	if ((o->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
	if (fault("write.EINTR")) return err(EINTR);
	size_t m = n;
	if (n > 1 && fault("write.short")) m = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 20));
	if (o->ino->cap && m > o->ino->cap) m = o->ino->cap;
	if (fault("write.EIO")) return err(oneOf({ EIO, ENOSPC, EDQUOT, EFBIG, ENOMEM, EPERM }));
	if (fault("write.ENOSPC")) return err(ENOSPC);
	uint64_t off = at >= 0 ? (uint64_t)at : ((o->flags & O_APPEND) ? o->ino->data.size() : o->off);
	if (g_disk >= 0) {
		int64_t used = 0;
		for (auto& e : g_dir) used += e.second->data.size();
		int64_t grow = (int64_t)(off + m) - (int64_t)o->ino->data.size();
		if (grow > 0 && used + grow > g_disk) {
			int64_t room = g_disk - used;
			if (room <= 0) { noteFault("disk.full"); return err(ENOSPC); }
			m = (size_t)std::max<int64_t>(1, (int64_t)m - (grow - room));
			if (m > n) m = n;
		}
	}
	PendOp p{ PendOp::WRITE, off, std::string((const char *)buf, m) };
	applyPend(o->ino->data, p);
	o->ino->pend.push_back(p);
	if (at < 0) o->off = off + m;
	return (ssize_t)m;
}
static ssize_t fileRead(OfdP o, void *buf, size_t n, int64_t at)
{
	if ((o->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
	if (o->ino->isDir) return err(EISDIR);
	if (fault("read.EINTR")) return err(EINTR);
	if (fault("read.EIO")) return err(oneOf({ EIO, EISDIR, ENXIO, ESTALE, ENOMEM, EOVERFLOW }));
	uint64_t off = at >= 0 ? (uint64_t)at : o->off;
	if (off >= o->ino->data.size()) return 0;
	size_t m = std::min<uint64_t>(n, o->ino->data.size() - off);
	if (m > 1 && fault("read.short")) m = 1 + choose((uint32_t)std::min<size_t>(m - 1, 1u << 20));
	if (o->ino->cap && m > o->ino->cap) m = o->ino->cap;
	memcpy(buf, o->ino->data.data() + off, m);
	if (at < 0) o->off = off + m;
	return (ssize_t)m;
}
bool fdReadable(Ofd *o)
{
	if (o->kind == Ofd::SOCK) return sockReadable(o->sock.get());
	if (o->kind == Ofd::PIPE_R) return !o->pipe->buf.empty() || o->pipe->writers == 0;
	return true;
}
bool fdWritable(Ofd *o)
{
	if (o->kind == Ofd::SOCK) return sockWritable(o->sock.get());
	if (o->kind == Ofd::PIPE_W) return o->pipe->buf.size() < o->pipe->cap || o->pipe->readers == 0;
	return true;
}
static ssize_t readImpl(int fd, void *buf, size_t n, int64_t at = -1)
{
	yield("read");
	ENGINE
	g_io++;
	OfdP o = getFdP(fd);
	if (!o) { ev("read", fd, -EBADF); return err(EBADF); }
	ssize_t r;
	switch (o->kind) {
	case Ofd::FILE_: case Ofd::DIR_: r = fileRead(o, buf, n, at); break;
	case Ofd::SOCK: r = sockRecv(o, buf, n, 0); break;
	case Ofd::HUGE_: {
		if (fault("read.EINTR")) { r = err(EINTR); break; }
		size_t m = std::min<size_t>(std::min<size_t>(n, 0x7ffff000), o->off < g_huge ? g_huge - o->off : 0);
		if (m > 1 && fault("read.short")) m = 1 + (size_t)choose((uint32_t)(m - 1));
		g_hugeLog.push_back({ buf, m }); if (g_hugeLog.size() > 5000) giveUp("many small transfers"); o->off += m; r = (ssize_t)m; break;
	}
	case Ofd::NULLDEV: case Ofd::STDIO: r = 0; break;
	case Ofd::URANDOM: {
		if (fault("read.EINTR")) { r = err(EINTR); break; }
		if (fault("read.EIO")) { r = err(EIO); break; }
		size_t m = n;
		if (fault("urandom.eof")) { r = 0; break; }
		if (n > 1 && fault("read.short")) m = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 20));
		if (m > (1ull << 40)) fail("memory:overrun", "a read of %zu bytes from the random device was requested", m);
		g_urandReads++; if (g_urandLimit && g_urandReads > g_urandLimit) giveUp("many small reads");
		if (m > (1u << 24)) { // memory in between is not touched
			m = std::min<size_t>(m, 0x7ffff000);
			std::string s = bytesFrom((uint32_t)(g_urandReads * 7919), 128); memcpy(buf, s.data(), 64); memcpy((char *)buf + m - 64, s.data() + 64, 64);
		} else {
			std::string s = bytesFrom((uint32_t)(g_urandReads * 7919), m);
			memcpy(buf, s.data(), m); g_urandLog += s;
		}
		r = (ssize_t)m;
		break;
	}
	case Ofd::PIPE_R: {
		if (n == 0) { r = 0; break; }
		if (fault("read.EINTR")) { r = err(EINTR); break; }
		if (fault("pipe.read.EIO")) { r = err(EIO); break; }
		if ((o->flags & O_NONBLOCK) && o->pipe->buf.empty() && o->pipe->writers) { r = err(EAGAIN); break; }
		Wake w = block("pipe.read", [o] { return !o->pipe->buf.empty() || o->pipe->writers == 0; }, -1, true);
		if (w == SIGNALED) { r = err(EINTR); break; }
		size_t m = std::min(n, o->pipe->buf.size());
		if (m > 1 && fault("read.short")) m = 1 + choose((uint32_t)m - 1);
		memcpy(buf, o->pipe->buf.data(), m);
		o->pipe->buf.erase(0, m);
		r = (ssize_t)m;
		break;
	}
	default: r = err(EBADF);
	}
	ev("read", fd, r < 0 ? -errno : r, (int64_t)n);
	return r;
}
static ssize_t writeImpl(int fd, const void *buf, size_t n, int64_t at = -1)
{
	yield("write");
	ENGINE
	g_io++;
	OfdP o = getFdP(fd);
	if (!o) { ev("write", fd, -EBADF); return err(EBADF); }
	ssize_t r;
	switch (o->kind) {
	case Ofd::FILE_: r = fileWrite(o, buf, n, at); break;
	case Ofd::SOCK: r = sockSend(o, buf, n, 0); break;
	case Ofd::HUGE_: {
		if (fault("write.EINTR")) { r = err(EINTR); break; }
		size_t m = std::min<size_t>(n, 0x7ffff000);
		if (m > 1 && fault("write.short")) m = 1 + (size_t)choose((uint32_t)(m - 1));
		g_hugeLog.push_back({ buf, m }); if (g_hugeLog.size() > 5000) giveUp("many small transfers"); o->off += m; r = (ssize_t)m; break;
	}
	case Ofd::NULLDEV: case Ofd::URANDOM: r = (ssize_t)n; break;
	case Ofd::PIPE_W: {
		if (n == 0) { r = 0; break; }
		if (fault("write.EINTR")) { r = err(EINTR); break; }
		if (o->pipe->readers == 0) { raiseSync(SIGPIPE); r = err(EPIPE); break; }
		size_t room = o->pipe->cap - o->pipe->buf.size();
		if ((o->flags & O_NONBLOCK) && room == 0) { r = err(EAGAIN); break; }
		Wake w = block("pipe.write", [o] { return o->pipe->buf.size() < o->pipe->cap || o->pipe->readers == 0; }, -1, true);
		if (w == SIGNALED) { r = err(EINTR); break; }
		if (o->pipe->readers == 0) { raiseSync(SIGPIPE); r = err(EPIPE); break; }
		size_t m = std::min(n, o->pipe->cap - o->pipe->buf.size());
		if (m > 1 && fault("write.short")) m = 1 + choose((uint32_t)m - 1);
		o->pipe->buf.append((const char *)buf, m);
		r = (ssize_t)m;
		break;
	}
	default: r = err(EBADF);
	}
	ev("write", fd, r < 0 ? -errno : r, (int64_t)n);
	return r;
}
static int closeImpl(int fd)
{
	if (t_self->role) { ENGINE if (!fdt().t.count(fd)) return (int)err(EBADF); } // a child sweeping all descriptors
	yield("close");
	ENGINE
	g_io++;
	crashPointMaybe();
	FdTable& t = fdt();
	if (!t.t.count(fd)) {
		if (fd >= 0) { g_badClose++; note("close of a descriptor that is not open: %d", fd); }
		ev("close", fd, -EBADF);
		return err(EBADF);
	}
	dropFd(t, fd);
	ev("close", fd);
	// Linux releases the descriptor even when close reports an error
	if (fault("close.EINTR")) return err(EINTR);
	if (fault("close.EIO")) return err(oneOf({ EIO, EINTR, ENOSPC, EDQUOT }));
	return 0;
}
static int fsyncImpl(int fd, const char *nm)
{
	yield(nm);
	ENGINE
	g_io++;
	crashPointMaybe();
	OfdP o = getFdP(fd);
	if (!o) return err(EBADF);
	if (o->kind == Ofd::HUGE_) return 0;
	if (o->kind != Ofd::FILE_ && o->kind != Ofd::DIR_) { ev(nm, fd, -EINVAL); return err(EINVAL); }
	if (fault("fsync.EIO")) {
		// error reported once; the dirty pages are marked clean and may never reach the disk
		ev(nm, fd, -EIO);
		return err(oneOf({ EIO, ENOSPC, EDQUOT, EROFS }));
	}
	if (fault("fsync.EINTR")) { ev(nm, fd, -EINTR); return err(EINTR); }
	if (o->ino->isDir) { for (auto& e : g_dir) if (parent(e.first) == o->path) g_dirDur[e.first] = e.second; }
	else syncInode(o->ino);
	ev(nm, fd, 0);
	return 0;
}
static int64_t lseekImpl(int fd, int64_t off, int wh)
{
	yield("lseek");
	ENGINE
	g_io++;
	OfdP o = getFdP(fd);
	if (!o) return err(EBADF);
	if (o->kind == Ofd::HUGE_) { int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->off : (int64_t)g_huge; if (base + off < 0) return err(EINVAL); o->off = base + off; return (int64_t)o->off; }
	if (o->kind != Ofd::FILE_) return err(ESPIPE);
	if (fault("lseek.EIO")) { ev("lseek", fd, -EIO); return err(EIO); }
	int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->off : (int64_t)o->ino->data.size();
	if (base + off < 0) return err(EINVAL);
	o->off = (uint64_t)(base + off);
	ev("lseek", fd, (int64_t)o->off);
	return (int64_t)o->off;
}
template<class ST>
static void fillStat(ST *st, Inode *i)
{
	memset(st, 0, sizeof(*st));
	st->st_mode = i->isDir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
	st->st_size = (off_t)i->data.size();
	st->st_ino = i->id; st->st_nlink = 1; st->st_blksize = 4096; st->st_dev = 77;
}
template<class ST>
static int fstatImpl(int fd, ST *st)
{
	yield("fstat");
	ENGINE
	g_io++;
	OfdP o = getFdP(fd);
	if (!o) return (int)err(EBADF);
	if (fault("fstat.EIO")) { ev("fstat", fd, -EIO); return (int)err(EIO); }
	if (o->ino) fillStat(st, o->ino.get());
	else { memset(st, 0, sizeof(*st)); st->st_mode = o->kind == Ofd::SOCK ? S_IFSOCK : (o->kind == Ofd::PIPE_R || o->kind == Ofd::PIPE_W) ? S_IFIFO : S_IFCHR; st->st_blksize = 4096; if (o->kind == Ofd::HUGE_) { st->st_mode = S_IFREG | 0644; st->st_size = (off_t)g_huge; } }
	ev("fstat", fd, (int64_t)st->st_size);
	return 0;
}
template<class ST>
static int statImpl(const char *p, ST *st)
{
	yield("stat");
	ENGINE
	g_io++;
	if (fault("stat.EIO")) { ev("stat", -EIO); return (int)err(EIO); }
	if (fault("stat.EACCES")) { ev("stat", -EACCES); return (int)err(EACCES); }
	std::string q = norm(p);
	if (q == "/sim") { memset(st, 0, sizeof(*st)); st->st_mode = S_IFDIR | 0755; return 0; }
	if (q == "/sim/huge" && g_huge) { memset(st, 0, sizeof(*st)); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)g_huge; ev("stat", (int64_t)g_huge); return 0; }
	auto it = g_dir.find(q);
	if (it == g_dir.end()) { ev("stat", -ENOENT); return (int)err(ENOENT); }
	fillStat(st, it->second.get());
	ev("stat", (int64_t)st->st_size);
	return 0;
}
static int renameImpl(const char *from, const char *to, unsigned flags)
{
	yield("rename");
	ENGINE
	g_io++;
	crashPointMaybe();
	std::string f = norm(from), t = norm(to);
	if (fault("rename.EIO")) { ev("rename", -EIO); return (int)err(EIO); }
	if (fault("rename.EXDEV")) { ev("rename", -EXDEV); return (int)err(EXDEV); }
	if (fault("rename.EINTR")) { ev("rename", -EINTR); return (int)err(EINTR); }
	if (flags & 1) { if (fault("renameat2.EINVAL")) { ev("rename", -EINVAL); return (int)err(EINVAL); } }
	auto it = g_dir.find(f);
	if (it == g_dir.end()) { ev("rename", -ENOENT); return (int)err(ENOENT); }
	if ((flags & 1) && g_dir.count(t)) { ev("rename", -EEXIST); return (int)err(EEXIST); }
	if (f == t) { ev("rename", 0); return 0; }
	InodeP i = it->second;
	g_dir.erase(it);
	g_dir[t] = i;
	// rename is atomic and journalled: durable names follow as soon as the inode is durable
	if (g_dirDur.count(f) && g_dirDur[f] == i) { g_dirDur.erase(f); g_dirDur[t] = i; }
	else g_dirDur.erase(f);
	ev("rename", 0, i->id);
	return 0;
}
static int unlinkImpl(const char *p, const char *nm)
{
	yield(nm);
	ENGINE
	g_io++;
	crashPointMaybe();
	std::string q = norm(p);
	if (fault("unlink.EIO")) { ev(nm, -EIO); return (int)err(EIO); }
	if (fault("unlink.EACCES")) { ev(nm, -EACCES); return (int)err(EACCES); }
	if (fault("unlink.EINTR")) { ev(nm, -EINTR); return (int)err(EINTR); }
	auto it = g_dir.find(q);
	if (it == g_dir.end()) { ev(nm, -ENOENT); return (int)err(ENOENT); }
	if (it->second->isDir) { ev(nm, -EISDIR); return (int)err(EISDIR); }
	g_dir.erase(it); g_dirDur.erase(q);
	ev(nm, 0);
	return 0;
}

// ---------------------------------------------------------------- directories
struct SimDir { std::vector<std::pair<std::string, int>> ents; size_t pos = 0; struct dirent de; struct dirent64 de64; };

// ---------------------------------------------------------------- stdio
struct Cookie { int fd; FILE *f; };
// libc holds the stream lock while it calls these: faults may fire, but no other thread may run
struct NoYield { NoYield() { g_noyield++; } ~NoYield() { g_noyield--; } };
static ssize_t ckRead(void *c, char *b, size_t n) { NoYield ny; return readImpl(((Cookie *)c)->fd, b, n); }
static ssize_t ckWrite(void *c, const char *b, size_t n)
{
	NoYield ny;
	size_t w = 0; // like glibc's own write function: go on after a short write, stop at an error
	while (w < n) {
		ssize_t r = writeImpl(((Cookie *)c)->fd, b + w, n - w);
		if (r <= 0) break;
		w += (size_t)r;
	}
	return (ssize_t)w; // fopencookie: less than n reports an error, errno stays set
}
static int ckSeek(void *c, off64_t *o, int wh) { NoYield ny; int64_t r = lseekImpl(((Cookie *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void *c) { NoYield ny; Cookie *k = (Cookie *)c; int r = closeImpl(k->fd); { ENGINE delete k; } return r; }
static ssize_t capWrite(void *c, const char *b, size_t n) { ENGINE ((std::string *)c)->append(b, n); return (ssize_t)n; }
static int capClose(void *) { return 0; }

static FILE *wrapFd(int fd, const char *mode)
{
	Cookie *k = new Cookie{ fd, nullptr };
	cookie_io_functions_t f = { ckRead, ckWrite, ckSeek, ckClose };
	FILE *fp = fopencookie(k, mode, f);
	if (!fp) return nullptr;
	k->f = fp;
	g_files[fp] = fd;
	return fp;
}

void runtimeInitChild()
{
	static std::string *eb = &g_err, *ob = &g_out;
	cookie_io_functions_t f = { nullptr, capWrite, nullptr, capClose };
	if (!getenv("SIM_STDERR")) {
		stderr = fopencookie(eb, "w", f);
		stdout = fopencookie(ob, "w", f);
		__real_setvbuf(stderr, nullptr, _IONBF, 0);
	}
	// descriptors 0-2 of the simulated process
	for (int i = 0; i < 3; i++) {
		OfdP o(new Ofd()); o->kind = Ofd::STDIO; o->path = i == 0 ? "stdin" : i == 1 ? "stdout" : "stderr"; o->flags = O_RDWR; o->refs = 1;
		FdEnt e; e.o = o; g_fdts[0].t[i] = e;
	}
}
} // sim

using namespace sim;
#define ON (active() && g_eng == 0)
static bool simPathOn(const char *p) { return active() && (isSimPath(p) || (p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random") || (!strcmp(p, "/dev/null"))))); }
static mode_t modeArg(int flags, va_list ap) { return (flags & O_CREAT) ? (mode_t)va_arg(ap, int) : 0; }

// calls before a fork are repeated by the child with the recorded results
static int openLog(const char *p, int flags, mode_t m) { long rr; if (replayCall("open", &rr)) return (int)rr; int r = openImpl(p, flags, m); logCall("open", r, errno); return r; }
static bool isStdio(int fd) { ENGINE Ofd *o = getFd(fd); return o && o->kind == Ofd::STDIO; }
extern "C" {
int __wrap_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = modeArg(flags, ap); va_end(ap); return simPathOn(p) ? openLog(p, flags, m) : __real_open(p, flags, m); }
int __wrap_open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = modeArg(flags, ap); va_end(ap); return simPathOn(p) ? openLog(p, flags, m) : __real_open(p, flags, m); }
int __wrap_openat(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = modeArg(flags, ap); va_end(ap); return simPathOn(p) ? openLog(p, flags, m) : __real_openat(d, p, flags, m); }
int __wrap_openat64(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = modeArg(flags, ap); va_end(ap); return simPathOn(p) ? openLog(p, flags, m) : __real_openat(d, p, flags, m); }
int __wrap_creat(const char *p, mode_t m) { return simPathOn(p) ? openImpl(p, O_CREAT | O_WRONLY | O_TRUNC, m) : __real_creat(p, m); }
int __wrap_creat64(const char *p, mode_t m) { return __wrap_creat(p, m); }
int __wrap_close(int fd)
{
	if (!active()) return __real_close(fd);
	long rr; if (replayCall("close", &rr)) return (int)rr;
	int r = closeImpl(fd);
	logCall("close", r, errno);
	return r; // the code under test never closes a real descriptor
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return active() ? readImpl(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!active()) return __real_write(fd, b, n);
	if (isStdio(fd)) { ENGINE (fd == 2 ? g_err : g_out).append((const char *)b, n); return (ssize_t)n; }
	return writeImpl(fd, b, n);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return active() ? readImpl(fd, b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return active() ? writeImpl(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c)
{
	if (!active()) return __real_readv(fd, v, c);
	size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
	std::string b(tot, 0);
	ssize_t r = readImpl(fd, &b[0], tot);
	size_t k = 0;
	for (int i = 0; r > 0 && i < c && k < (size_t)r; i++) { size_t m = std::min(v[i].iov_len, (size_t)r - k); memcpy(v[i].iov_base, b.data() + k, m); k += m; }
	return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	if (!active()) return __real_writev(fd, v, c);
	std::string b;
	{ ENGINE for (int i = 0; i < c; i++) b.append((const char *)v[i].iov_base, v[i].iov_len); }
	return __wrap_write(fd, b.data(), b.size());
}
off_t __wrap_lseek(int fd, off_t o, int w) { return active() ? lseekImpl(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_fsync(int fd) { return active() ? fsyncImpl(fd, "fsync") : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return active() ? fsyncImpl(fd, "fdatasync") : __real_fdatasync(fd); }
void __wrap_sync() { if (!active()) { __real_sync(); return; } yield("sync"); ENGINE if (fault("fsync.EIO")) return; /* sync(2) cannot report it */ for (auto& e : g_dir) syncInode(e.second); }
int __wrap_syncfs(int fd) { if (active()) { yield("syncfs"); ENGINE if (fault("fsync.EIO")) return (int)err(EIO); for (auto& e : g_dir) syncInode(e.second); } (void)fd; return 0; }
int __wrap_ftruncate(int fd, off_t n)
{
	if (!active()) return __real_ftruncate(fd, n);
	yield("ftruncate"); ENGINE
	crashPointMaybe();
	OfdP o = getFdP(fd);
	if (!o || o->kind != Ofd::FILE_) return (int)err(EINVAL);
	if (fault("ftruncate.EIO")) return (int)err(EIO);
	o->ino->data.resize(n); o->ino->pend.push_back(PendOp{ PendOp::TRUNC, (uint64_t)n, "" });
	return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n)
{
	if (!simPathOn(p)) return __real_truncate(p, n);
	yield("truncate"); ENGINE
	auto it = g_dir.find(norm(p)); if (it == g_dir.end()) return (int)err(ENOENT);
	it->second->data.resize(n); it->second->pend.push_back(PendOp{ PendOp::TRUNC, (uint64_t)n, "" });
	return 0;
}
int __wrap_posix_fallocate(int fd, off_t o, off_t n) { (void)o; (void)n; return active() ? 0 : __real_posix_fallocate(fd, o, n); }
int __wrap_flock(int fd, int op) { return active() ? 0 : __real_flock(fd, op); }
int __wrap_fstat(int fd, struct stat *st) { return active() ? fstatImpl(fd, st) : __real_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat64 *st) { return active() ? fstatImpl(fd, st) : __real_fstat64(fd, st); }
int __wrap_stat(const char *p, struct stat *st) { return simPathOn(p) ? statImpl(p, st) : __real_stat(p, st); }
int __wrap_stat64(const char *p, struct stat64 *st) { return simPathOn(p) ? statImpl(p, st) : __real_stat64(p, st); }
int __wrap_lstat(const char *p, struct stat *st) { return simPathOn(p) ? statImpl(p, st) : __real_lstat(p, st); }
int __wrap_lstat64(const char *p, struct stat64 *st) { return simPathOn(p) ? statImpl(p, st) : __real_lstat64(p, st); }
int __wrap_fstatat(int d, const char *p, struct stat *st, int f) { return simPathOn(p) ? statImpl(p, st) : __real_fstatat(d, p, st, f); }
int __wrap_fstatat64(int d, const char *p, struct stat64 *st, int f) { return simPathOn(p) ? statImpl(p, st) : __real_fstatat64(d, p, st, f); }
int __wrap_access(const char *p, int m) { if (!simPathOn(p)) return __real_access(p, m); struct stat st; return statImpl(p, &st); }
int __wrap_faccessat(int, const char *p, int, int) { struct stat st; return statImpl(p, &st); }
int __wrap_rename(const char *a, const char *b) { return simPathOn(a) || simPathOn(b) ? renameImpl(a, b, 0) : active() ? (int)err(EACCES) : __real_rename(a, b); }
int __wrap_renameat(int x, const char *a, int y, const char *b) { return simPathOn(a) || simPathOn(b) ? renameImpl(a, b, 0) : active() ? (int)err(EACCES) : __real_renameat(x, a, y, b); }
int __wrap_renameat2(int x, const char *a, int y, const char *b, unsigned f) { return simPathOn(a) || simPathOn(b) ? renameImpl(a, b, f) : active() ? (int)err(EACCES) : __real_renameat2(x, a, y, b, f); }
int __wrap_unlink(const char *p) { return simPathOn(p) ? unlinkImpl(p, "unlink") : active() ? (int)err(EACCES) : __real_unlink(p); }
int __wrap_unlinkat(int, const char *p, int) { return simPathOn(p) ? unlinkImpl(p, "unlink") : (int)err(EACCES); }
int __wrap_remove(const char *p) { return simPathOn(p) ? unlinkImpl(p, "unlink") : active() ? (int)err(EACCES) : __real_remove(p); }
int __wrap_link(const char *a, const char *b)
{
	if (!simPathOn(a)) return active() ? (int)err(EACCES) : __real_link(a, b);
	yield("link"); ENGINE
	if (fault("link.EIO")) return (int)err(EIO);
	if (fault("link.EPERM")) return (int)err(EPERM);
	auto it = g_dir.find(norm(a)); if (it == g_dir.end()) return (int)err(ENOENT);
	if (g_dir.count(norm(b))) return (int)err(EEXIST);
	g_dir[norm(b)] = it->second;
	return 0;
}
int __wrap_mkdir(const char *p, mode_t m)
{
	if (!simPathOn(p)) return active() ? (int)err(EACCES) : __real_mkdir(p, m);
	yield("mkdir"); ENGINE
	if (g_dir.count(norm(p))) return (int)err(EEXIST);
	InodeP i = fs::mk(norm(p)); i->isDir = true;
	return 0;
}
int __wrap_rmdir(const char *p) { if (!simPathOn(p)) return active() ? (int)err(EACCES) : __real_rmdir(p); ENGINE g_dir.erase(norm(p)); return 0; }

DIR *__wrap_opendir(const char *p)
{
	if (!simPathOn(p)) return __real_opendir(p);
	yield("opendir"); ENGINE
	g_io++;
	std::string q = norm(p);
	if (fault("opendir.EMFILE")) { ev("opendir", -EMFILE); errno = EMFILE; return nullptr; }
	if (fault("opendir.EACCES")) { ev("opendir", -EACCES); errno = EACCES; return nullptr; }
	auto it = g_dir.find(q);
	if (q != "/sim" && (it == g_dir.end() || !it->second->isDir)) { ev("opendir", -ENOENT); errno = it == g_dir.end() ? ENOENT : ENOTDIR; return nullptr; }
	SimDir *d = new SimDir();
	std::vector<std::pair<std::string, int>> v;
	v.push_back({ ".", DT_DIR }); v.push_back({ "..", DT_DIR });
	for (auto& e : g_dir) if (parent(e.first) == q) v.push_back({ e.first.substr(q.size() + 1), e.second->dtype >= 0 ? e.second->dtype : e.second->isDir ? DT_DIR : DT_REG });
	// directory order is arbitrary
	uint32_t rot = choose((uint32_t)v.size());
	std::rotate(v.begin(), v.begin() + rot, v.end());
	if (v.size() > 2 && chance(0.3)) std::swap(v[0], v[v.size() - 1]);
	d->ents = v;
	g_dirs.insert(d);
	ev("opendir", (int64_t)v.size());
	return (DIR *)d;
}
static bool nextEnt(SimDir *d, const char **name, int *type)
{
	yield("readdir"); ENGINE
	g_io++;
	if (!g_dirs.count(d)) fail("resource:readdir-closed", "readdir on a closed directory stream");
	if (fault("readdir.EIO")) { ev("readdir", -EIO); errno = oneOf({ EIO, ENOENT, EOVERFLOW, EBADF }); return false; }
	if (d->pos >= d->ents.size()) { ev("readdir", 0); return false; }
	*name = d->ents[d->pos].first.c_str(); *type = d->ents[d->pos].second;
	d->pos++;
	ev("readdir", (int64_t)d->pos);
	return true;
}
struct dirent *__wrap_readdir(DIR *p)
{
	if (!active()) return __real_readdir(p);
	SimDir *d = (SimDir *)p; const char *n; int t;
	if (!nextEnt(d, &n, &t)) return nullptr;
	memset(&d->de, 0, sizeof(d->de)); snprintf(d->de.d_name, sizeof(d->de.d_name), "%s", n); d->de.d_type = (unsigned char)t; d->de.d_ino = d->pos;
	return &d->de;
}
struct dirent64 *__wrap_readdir64(DIR *p)
{
	if (!active()) return __real_readdir64(p);
	SimDir *d = (SimDir *)p; const char *n; int t;
	if (!nextEnt(d, &n, &t)) return nullptr;
	memset(&d->de64, 0, sizeof(d->de64)); snprintf(d->de64.d_name, sizeof(d->de64.d_name), "%s", n); d->de64.d_type = (unsigned char)t; d->de64.d_ino = d->pos;
	return &d->de64;
}
int __wrap_closedir(DIR *p)
{
	if (!active()) return __real_closedir(p);
	yield("closedir"); ENGINE
	if (!g_dirs.count(p)) { g_badClose++; ev("closedir", -EBADF); return (int)err(EBADF); }
	g_dirs.erase(p);
	delete (SimDir *)p;
	ev("closedir");
	if (fault("closedir.EIO")) return (int)err(EIO);
	return 0;
}
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	if (!active() || g_eng > 0 || (flags & MAP_ANONYMOUS) || fd < 0) return __real_mmap(a, n, prot, flags, fd, off);
	yield("mmap"); ENGINE
	g_io++;
	OfdP o = getFdP(fd);
	if (!o || (o->kind != Ofd::FILE_ && o->kind != Ofd::HUGE_)) { errno = EBADF; return MAP_FAILED; }
	if (n == 0) { errno = EINVAL; return MAP_FAILED; }
	if (fault("mmap.ENOMEM")) { ev("mmap", -ENOMEM); errno = ENOMEM; return MAP_FAILED; }
	if (fault("mmap.EAGAIN")) { ev("mmap", -EAGAIN); errno = EAGAIN; return MAP_FAILED; }
	char *p = (char *)__real_mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return p;
	static const std::string none;
	const std::string& d = o->ino ? o->ino->data : none;
	if (o->kind == Ofd::HUGE_ && off == 0 && n == g_huge) { p[0] = 'A'; p[n - 1] = 'Z'; }
	if ((uint64_t)off < d.size()) memcpy(p, d.data() + off, std::min<size_t>(n, d.size() - off));
	mprotect(p, n, prot);
	g_maps[p] = n;
	ev("mmap", (int64_t)n);
	return p;
}
void *__wrap_mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
int __wrap_munmap(void *p, size_t n)
{
	if (!active() || g_eng > 0) return __real_munmap(p, n);
	yield("munmap"); ENGINE
	auto it = g_maps.find(p);
	if (it == g_maps.end()) { fail("resource:bad-munmap", "munmap of a range that is not mapped"); }
	if ((it->second + 4095) / 4096 != (n + 4095) / 4096) fail("resource:munmap-size", "munmap with size %zu of a mapping of %zu bytes", n, it->second);
	g_maps.erase(it);
	ev("munmap", (int64_t)n);
	return __real_munmap(p, n);
}
int __wrap_pipe2(int *v, int flags)
{
	if (!active()) return __real_pipe2(v, flags);
	long rr; if (replayCall("pipe", &rr, &v[0], &v[1])) return (int)rr;
	yield("pipe"); ENGINE
	if (fault("pipe.EMFILE")) { ev("pipe", -EMFILE); logCall("pipe", -1, EMFILE); return (int)err(EMFILE); }
	std::shared_ptr<Pipe> p(new Pipe());
	p->readers = p->writers = 1;
	OfdP r(new Ofd()), w(new Ofd());
	r->kind = Ofd::PIPE_R; r->pipe = p; r->flags = flags & O_NONBLOCK; r->path = "pipe:r";
	w->kind = Ofd::PIPE_W; w->pipe = p; w->flags = flags & O_NONBLOCK; w->path = "pipe:w";
	v[0] = allocFd(r); v[1] = allocFd(w);
	if (flags & O_CLOEXEC) fdt().t[v[0]].cloexec = fdt().t[v[1]].cloexec = true;
	ev("pipe", v[0], v[1]);
	logCall("pipe", 0, 0, v[0], v[1]);
	return 0;
}
int __wrap_pipe(int *v) { return active() ? __wrap_pipe2(v, 0) : __real_pipe(v); }
int __wrap_dup(int fd)
{
	if (!active()) return __real_dup(fd);
	long rr; if (replayCall("dup", &rr)) return (int)rr;
	yield("dup"); ENGINE
	OfdP o = getFdP(fd);
	if (!o) { logCall("dup", -1, EBADF); return (int)err(EBADF); }
	int r = allocFd(o); logCall("dup", r, 0);
	return r;
}
static int dup2Impl(int a, int b)
{
	yield("dup2"); ENGINE
	OfdP o = getFdP(a);
	if (!o) { ev("dup2", -EBADF); return (int)err(EBADF); }
	if (fault("dup2.EMFILE")) { ev("dup2", -EMFILE); return (int)err(EMFILE); }
	if (fault("dup2.EINTR")) { ev("dup2", -EINTR); return (int)err(EINTR); }
	if (a == b) return b;
	dropFd(fdt(), b);
	FdEnt e; e.o = o; o->refs++;
	fdt().t[b] = e;
	ev("dup2", a, b);
	return b;
}
int __wrap_dup2(int a, int b)
{
	if (!active()) return __real_dup2(a, b);
	long rr; if (replayCall("dup2", &rr)) return (int)rr;
	int r = dup2Impl(a, b); logCall("dup2", r, errno);
	return r;
}
int __wrap_dup3(int a, int b, int f) { if (!active()) return __real_dup3(a, b, f); int r = __wrap_dup2(a, b); if (r >= 0 && (f & O_CLOEXEC)) { ENGINE fdt().t[b].cloexec = true; } return r; }
static int fcntlImpl(int fd, int cmd, long arg);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!active()) return __real_fcntl(fd, cmd, arg);
	long rr; if (replayCall("fcntl", &rr)) return (int)rr;
	int r = fcntlImpl(fd, cmd, arg);
	logCall("fcntl", r, errno);
	return r;
}
static int fcntlImpl(int fd, int cmd, long arg)
{
	yield("fcntl"); ENGINE
	OfdP o = getFdP(fd);
	if (!o) return (int)err(EBADF);
	if (fault("fcntl.EINVAL")) { ev("fcntl", -EINVAL); return (int)err(EINVAL); }
	ev("fcntl", fd, cmd, (int)arg);
	switch (cmd) {
	case F_GETFD: return fdt().t[fd].cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: fdt().t[fd].cloexec = (arg & FD_CLOEXEC) != 0; return 0;
	case F_GETFL: return o->flags;
	case F_SETFL: o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
	case F_DUPFD: return allocFd(o, std::max<int>((int)arg, g_fdBase));
	case F_DUPFD_CLOEXEC: { int n = allocFd(o, std::max<int>((int)arg, g_fdBase)); fdt().t[n].cloexec = true; return n; }
	default: return 0;
	}
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (!active()) return __real_ioctl(fd, req, arg);
	yield("ioctl"); ENGINE
	OfdP o = getFdP(fd);
	if (!o) { ev("ioctl", fd, -EBADF); return (int)err(EBADF); }
	if (fault("ioctl.EIO")) { ev("ioctl", fd, -EIO); return (int)err(EIO); }
	if (req == FIONBIO) { if (*(int *)arg) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; ev("FIONBIO", fd, *(int *)arg); return 0; }
	if (req == FIONREAD) { *(int *)arg = o->kind == Ofd::SOCK ? (int)sockAvail(o->sock.get()) : o->ino ? (int)(o->ino->data.size() - std::min<uint64_t>(o->off, o->ino->data.size())) : o->pipe ? (int)o->pipe->buf.size() : 0; return 0; }
	return (int)err(ENOTTY);
}

// ---------------------------------------------------------------- stdio
FILE *__wrap_fopen(const char *p, const char *mode)
{
	if (!simPathOn(p)) return __real_fopen(p, mode);
	int flags;
	bool plus = strchr(mode, '+') != nullptr;
	switch (mode[0]) {
	case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
	case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	default: flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	}
	if (strchr(mode, 'e')) flags |= O_CLOEXEC;
	int fd = openImpl(p, flags, 0666);
	if (fd < 0) return nullptr;
	ENGINE
	FILE *f = wrapFd(fd, mode);
	if (!f) { dropFd(fdt(), fd); errno = ENOMEM; }
	return f;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *mode)
{
	if (!active()) return __real_fdopen(fd, mode);
	ENGINE
	if (!getFd(fd)) { errno = EBADF; return nullptr; }
	return wrapFd(fd, mode);
}
int __wrap_fileno(FILE *f)
{
	if (active()) { ENGINE auto it = g_files.find(f); if (it != g_files.end()) return it->second; }
	return __real_fileno(f);
}
int __wrap_fclose(FILE *f)
{
	if (!active()) return __real_fclose(f);
	yield("fclose");
	{
		ENGINE
		if (f == stderr || f == stdout) return 0;
		if (!g_files.count(f)) fail("resource:bad-fclose", "fclose of a stream that is not open (double close or never opened)");
		g_files.erase(f);
	}
	return __real_fclose(f);
}
int __wrap_fflush(FILE *f) { if (ON) yield("fflush"); return __real_fflush(f); }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (ON) yield("fprintf"); return __real_vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { if (ON) yield("fprintf"); va_list ap; va_start(ap, fmt); int r = __real_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_fputs(const char *s, FILE *f) { if (ON) yield("fputs"); return __real_fputs(s, f); }
int __wrap_fputc(int c, FILE *f) { if (ON) yield("fputc"); return __real_fputc(c, f); }
int __wrap_putc(int c, FILE *f) { if (ON) yield("fputc"); return __real_fputc(c, f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (ON) yield("fwrite"); return __real_fwrite(b, s, n, f); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
	if (ON) yield("fread");
	if (ON && s && n > (1u << 24) / s) { // huge request to the random device: memory in between is not touched
		ENGINE auto it = g_files.find(f); Ofd *o = it == g_files.end() ? nullptr : getFd(it->second);
		if (o && o->kind == Ofd::URANDOM) {
			if (n > (1ull << 40) / s) fail("memory:overrun", "fread of %zu * %zu bytes requested", s, n);
			std::string t = bytesFrom((uint32_t)(++g_urandReads * 7919), 128); memcpy(b, t.data(), 64); memcpy((char *)b + s * n - 64, t.data() + 64, 64);
			return n;
		}
	}
	return __real_fread(b, s, n, f);
}
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { return __real_setvbuf(f, b, m, n); }
void __wrap_vsyslog(int pri, const char *fmt, va_list ap)
{
	std::string buf;
	{ ENGINE va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2); buf.resize(n < 0 ? 0 : n + 1); vsnprintf(&buf[0], buf.size(), fmt, ap); if (!buf.empty()) buf.pop_back(); }
	yield("syslog");
	ENGINE
	g_syslog.push_back(SyslogEntry{ pri, buf });
	ev("syslog", pri);
}
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
void __wrap_openlog(const char *, int, int) {}
void __wrap_closelog() {}
}
