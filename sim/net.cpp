// Simulated TCP network: sockets, readiness calls and name resolution.
#include "io.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <algorithm>

namespace sim {

typedef std::shared_ptr<struct Sock> SockP;
struct Seg { std::string data; bool fin = false, rst = false; };
struct Sock {
	enum St { NEW, BOUND, LISTEN, CONNECTING, CONN, FAILED } st = NEW;
	int family = AF_INET;
	int soError = 0;
	std::weak_ptr<Sock> peer;
	std::string rx;
	size_t inflight = 0;          // bytes on their way to this socket
	bool rxEof = false, rxRst = false, shutRd = false, shutWr = false, broken = false, closed = false;
	size_t rcvCap = 65536, sndCap = 65536;
	int64_t lastDeliver = 0;      // of data towards this socket
	uint16_t port = 0, rport = 0;
	std::string host = "127.0.0.1", rhost = "127.0.0.1";
	std::deque<SockP> pending; int backlog = 0;
	int64_t rcvto = 0, sndto = 0; // us
	struct linger lg = { 0, 0 }; bool lgSet = false;
	int reuse = 0, v6only = 0, nodelay = 0, keepalive = 0, rcvbuf = 131072, sndbuf = 16384;
	int64_t sent = 0;
	bool accepted = false, activeClose = false; int64_t closedAt = 0; // TIME_WAIT
	bool harness = false, huge = false;
	int id = 0;
};
static std::map<uint16_t, std::vector<std::weak_ptr<Sock>>> g_listen;
static std::set<uint16_t> g_black;
static std::map<std::string, std::vector<std::string>> g_hosts;
static int64_t g_dmin = 0, g_dmax = 300000;
static int g_sndCap = 65536, g_rcvCap = 65536;
static uint16_t g_eph = 40000;
static int g_sockId = 0;
static std::map<struct addrinfo *, int> g_ai;
static int g_newest = -1;
static std::vector<SockP> g_all;

static int64_t delay()
{
	if (g_dmax <= g_dmin) return g_dmin;
	uint32_t k = choose(8);
	return g_dmin + (g_dmax - g_dmin) * k / 7;
}
static void deliver(SockP to, Seg sg)
{
	to->inflight -= std::min(to->inflight, sg.data.size());
	if (sg.rst) {
		if (to->rxRst || to->closed) return;
		to->rxRst = true; to->soError = to->st == Sock::CONNECTING ? ECONNREFUSED : to->rxEof ? EPIPE : ECONNRESET; to->broken = true;
		ev("net.rst", to->id);
		return;
	}
	if (to->closed) { // data for a closed socket is answered with RST
		if (!sg.data.empty()) {
			SockP p = to->peer.lock();
			if (p && !p->closed) after(delay(), [p] { Seg r; r.rst = true; deliver(p, r); });
		}
		return;
	}
	if (to->rxRst) return;
	if (!to->shutRd) to->rx += sg.data;
	if (sg.fin) to->rxEof = true;
	ev(sg.fin ? "net.fin" : "net.data", to->id, (int64_t)sg.data.size());
}
static void transmit(SockP to, Seg sg)
{
	int64_t t = std::max(to->lastDeliver, now() + delay());
	to->lastDeliver = t;
	to->inflight += sg.data.size();
	if (t <= now()) { deliver(to, sg); return; }
	at(t, [to, sg] { deliver(to, sg); });
}
static size_t spaceTo(Sock *s)
{
	SockP p = s->peer.lock();
	if (!p || p->closed) return s->sndCap;
	size_t cap = s->sndCap + p->rcvCap, used = p->rx.size() + p->inflight;
	return used >= cap ? 0 : cap - used;
}
bool sockReadable(Sock *s)
{
	switch (s->st) {
	case Sock::LISTEN: return !s->pending.empty();
	case Sock::CONN: return !s->rx.empty() || s->rxEof || s->rxRst || s->shutRd || s->soError;
	case Sock::CONNECTING: return false;
	default: return true;
	}
}
bool sockWritable(Sock *s)
{
	switch (s->st) {
	case Sock::LISTEN: return false;
	case Sock::CONN: return s->broken || s->shutWr || s->soError || spaceTo(s) > 0;
	case Sock::CONNECTING: return false;
	default: return true;
	}
}
bool sockError(Sock *s) { return s->soError != 0; }
bool sockHup(Sock *s) { return s->st == Sock::NEW || s->st == Sock::FAILED || (s->st == Sock::CONN && ((s->rxEof && s->shutWr) || s->rxRst)); }
size_t sockAvail(Sock *s) { return s->rx.size(); }

ssize_t sockRecv(OfdP o, void *buf, size_t n, int flags)
{
	SockP s = o->sock;
	if (s->st == Sock::LISTEN || s->st == Sock::NEW || s->st == Sock::BOUND) return err(ENOTCONN);
	bool nb = (o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	if (n == 0) return 0;
	if (fault("recv.EINTR")) return err(EINTR);
	if (s->huge) { if (n > (1ull << 40)) fail("memory:overrun", "a receive of %zu bytes was requested", n); size_t m = std::min<size_t>(n, 0x7ffff000); if (fault("recv.short")) m = 1 + choose((uint32_t)m - 1); fs::hugeLog().push_back({ buf, m }); return (ssize_t)m; }
	if (s->st == Sock::CONN && fault("net.reset")) net::reset(-1 - s->id);
	int64_t dl = s->rcvto > 0 ? now() + s->rcvto * 1000 : -1;
	size_t got = 0;
	for (;;) {
		auto ready = [s] { return s->st == Sock::FAILED || !s->rx.empty() || s->rxEof || s->rxRst || s->shutRd || s->soError || s->closed; };
		if (!ready()) {
			if (nb) return got ? (ssize_t)got : err(s->st == Sock::CONNECTING ? EAGAIN : EAGAIN);
			Wake w = block("recv", ready, dl, true);
			if (w == SIGNALED) return got ? (ssize_t)got : err(EINTR);
			if (w == TIMEOUT) { probe("socket receive timeout"); return got ? (ssize_t)got : err(EAGAIN); }
		}
		if (!s->rx.empty()) {
			size_t m = std::min(n - got, s->rx.size());
			if (m > 1 && fault("recv.short")) m = 1 + choose((uint32_t)m - 1);
			memcpy((char *)buf + got, s->rx.data(), m);
			if (!(flags & MSG_PEEK)) s->rx.erase(0, m);
			got += m;
			if ((flags & MSG_WAITALL) && got < n && !(flags & MSG_PEEK)) continue;
			return (ssize_t)got;
		}
		if (got) return (ssize_t)got;
		if (s->soError) { int e = s->soError; s->soError = 0; if (e == EPIPE) e = ECONNRESET; return err(e); }
		if (s->st == Sock::FAILED) return err(ENOTCONN);
		return 0;
	}
}
ssize_t sockSend(OfdP o, const void *buf, size_t n, int flags)
{
	SockP s = o->sock;
	bool sig = !(flags & MSG_NOSIGNAL);
	if (s->st == Sock::CONNECTING) return err(EAGAIN);
	if (s->st != Sock::CONN) { if (sig) raiseSync(SIGPIPE); return err(s->st == Sock::NEW ? EPIPE : ENOTCONN); }
	bool nb = (o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	if (fault("send.EINTR")) return err(EINTR);
	if (s->huge && n) { if (n > (1ull << 40)) fail("memory:overrun", "a send of %zu bytes was requested", n); size_t m = std::min<size_t>(n, 0x7ffff000); if (fault("send.short")) m = 1 + choose((uint32_t)m - 1); fs::hugeLog().push_back({ buf, m }); return (ssize_t)m; }
	if (fault("net.reset")) net::reset(-1 - s->id);
	int64_t dl = s->sndto > 0 ? now() + s->sndto * 1000 : -1;
	size_t done = 0;
	size_t lim = n;
	if (n > 1 && fault("send.short")) lim = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1u << 20));
	while (done < lim || n == 0) {
		if (s->soError) { if (done) return (ssize_t)done; int e = s->soError; s->soError = 0; s->broken = true; if (e == EPIPE) { if (sig) raiseSync(SIGPIPE); } return err(e); }
		if (s->broken || s->shutWr || s->closed) { if (done) return (ssize_t)done; probe("write to a broken connection"); if (sig) raiseSync(SIGPIPE); return err(EPIPE); }
		if (n == 0) return 0;
		size_t sp = spaceTo(s.get());
		if (sp == 0) {
			if (nb) return done ? (ssize_t)done : err(EAGAIN);
			probe("send blocked on a full buffer");
			Wake w = block("send", [s] { return s->soError || s->broken || s->shutWr || s->closed || spaceTo(s.get()) > 0; }, dl, true);
			if (w == SIGNALED) return done ? (ssize_t)done : err(EINTR);
			if (w == TIMEOUT) { probe("socket send timeout"); return done ? (ssize_t)done : err(EAGAIN); }
			continue;
		}
		size_t m = std::min(sp, lim - done);
		if (m > 1 && chance(0.3)) m = 1 + choose((uint32_t)std::min<size_t>(m - 1, 1u << 20)); // segmentation
		Seg sg; sg.data.assign((const char *)buf + done, m);
		SockP p = s->peer.lock();
		s->sent += (int64_t)m;
		if (p) transmit(p, sg);
		done += m;
	}
	return (ssize_t)done;
}
static void sendFin(SockP s)
{
	SockP p = s->peer.lock();
	if (s->st == Sock::CONN && p && !s->broken) { Seg f; f.fin = true; transmit(p, f); }
}
void sockClose(Ofd *o)
{
	SockP s = o->sock;
	if (s->closed) return;
	if (s->st == Sock::LISTEN) {
		for (auto& c : s->pending) { SockP p = c->peer.lock(); c->closed = true; if (p) { Seg r; r.rst = true; transmit(p, r); } }
		s->pending.clear();
	} else if (s->st == Sock::CONN) {
		SockP p = s->peer.lock();
		if (p && !s->broken) {
			if (!s->rx.empty() || (s->lgSet && s->lg.l_onoff && s->lg.l_linger == 0)) { Seg r; r.rst = true; transmit(p, r); }
			else { if (!s->rxEof) s->activeClose = true; if (!s->shutWr) sendFin(s); }
		}
	}
	s->closed = true; s->closedAt = now();
}
static SockP byId(int id) { for (auto& s : g_all) if (s->id == id) return s; return nullptr; }
static SockP sockOf(int fd) { OfdP o = getFdP(fd); return o && o->kind == Ofd::SOCK ? o->sock : nullptr; }

namespace net {
Opt opts(int fd)
{
	ENGINE
	Opt r; memset(&r, 0, sizeof(r));
	OfdP o = getFdP(fd);
	SockP s = sockOf(fd);
	if (!s) return r;
	r.isSock = true; r.nonblock = (o->flags & O_NONBLOCK) != 0; r.rcvtimeo_us = s->rcvto; r.sndtimeo_us = s->sndto; r.rcvbuf = s->rcvbuf; r.sndbuf = s->sndbuf;
	r.lingerOn = s->lg.l_onoff; r.lingerSec = s->lg.l_linger; r.lingerSet = s->lgSet; r.reuse = s->reuse; r.v6only = s->v6only; r.nodelay = s->nodelay; r.keepalive = s->keepalive; r.family = s->family;
	return r;
}
void delays(int64_t a, int64_t b) { g_dmin = a; g_dmax = b; }
void bufs(int a, int b) { g_sndCap = a; g_rcvCap = b; }
void reset(int fd)
{
	ENGINE
	SockP s = fd < 0 ? byId(-1 - fd) : sockOf(fd);
	if (!s || s->st != Sock::CONN) return;
	SockP p = s->peer.lock();
	// the path dies: both ends learn of it
	if (p && !p->closed) { Seg r; r.rst = true; transmit(p, r); }
	Seg r; r.rst = true;
	deliver(s, r);
	probe("connection reset");
}
thread_local int g_peer = 0;
int sutFdCount() { ENGINE int n = 0; for (auto& e : fdt().t) if (e.second.o->kind == Ofd::SOCK && !e.second.o->sock->harness) n++; return n; }
size_t pendingTo(int fd) { SockP s = sockOf(fd); return s ? s->rx.size() + s->inflight : 0; }
void blackhole(uint16_t port, bool on) { ENGINE if (on) g_black.insert(port); else g_black.erase(port); }
void setHost(const std::string& n, const std::vector<std::string>& a) { ENGINE g_hosts[n] = a; }
int addrinfoLive() { return (int)g_ai.size(); }
int64_t bytesSentBy(int fd) { SockP s = sockOf(fd); return s ? s->sent : -1; }
std::string peekRx(int fd) { ENGINE SockP s = sockOf(fd); return s ? s->rx : std::string(); }
bool finReceived(int fd) { SockP s = sockOf(fd); return s && s->rxEof; }
int newest() { return g_newest; }
bool connected(int fd) { SockP s = sockOf(fd); return s && s->st == Sock::CONN && !s->broken; }
int state(int fd) { SockP s = sockOf(fd); return s ? (int)s->st : -1; }
void cut(uint16_t) {}
void huge(int fd) { SockP s = sockOf(fd); if (s) s->huge = true; }
}

static int newSockFd(SockP s, int type)
{
	OfdP o(new Ofd());
	o->kind = Ofd::SOCK; o->sock = s; o->path = "socket"; o->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
	s->id = ++g_sockId; s->sndCap = g_sndCap; s->rcvCap = g_rcvCap; s->harness = net::g_peer > 0;
	g_all.push_back(s);
	int fd = allocFd(o);
	if (type & SOCK_CLOEXEC) fdt().t[fd].cloexec = true;
	if (!s->harness) g_newest = fd;
	return fd;
}
static bool mapped(const std::string& h) { return h.compare(0, 7, "::ffff:") == 0; }
static SockP findListener(uint16_t port, int family, const std::string& host)
{
	if (mapped(host)) family = AF_INET;
	auto it = g_listen.find(port);
	if (it == g_listen.end()) return nullptr;
	for (auto& w : it->second) {
		SockP l = w.lock();
		if (!l || l->closed || l->st != Sock::LISTEN) continue;
		if (family == AF_INET && l->family == AF_INET6 && l->v6only) continue;
		if (family == AF_INET6 && l->family == AF_INET) continue;
		return l;
	}
	return nullptr;
}
static void handshake(SockP s, int tries)
{
	if (s->closed || s->st != Sock::CONNECTING) return;
	bool black = g_black.count(s->rport) != 0;
	SockP l = black ? nullptr : findListener(s->rport, s->family, s->rhost);
	if (!black && !l) {
		s->st = Sock::FAILED; s->soError = ECONNREFUSED; ev("net.refused", s->id);
		return;
	}
	if (black || (int)l->pending.size() > l->backlog) { // SYN lost: retransmit, give up after about two minutes
		if (tries >= 6) { s->st = Sock::FAILED; s->soError = ETIMEDOUT; ev("net.timeout", s->id); return; }
		after(SEC << tries, [s, tries] { handshake(s, tries + 1); });
		return;
	}
	if (!s->harness && fault("connect.async")) { s->st = Sock::FAILED; static const int e[] = { EHOSTUNREACH, ETIMEDOUT, ENETUNREACH, ECONNRESET }; s->soError = e[choose(4)]; ev("net.unreachable", s->id, s->soError); return; }
	SockP c(new Sock());
	c->accepted = true; c->reuse = l->reuse; c->family = l->family; c->id = ++g_sockId; c->st = Sock::CONN; c->sndCap = g_sndCap; c->rcvCap = g_rcvCap; c->harness = l->harness;
	c->port = l->port; c->rport = s->port; c->peer = s; c->rhost = s->host; c->rcvbuf = l->rcvbuf; c->sndbuf = l->sndbuf;
	s->peer = c; s->st = Sock::CONN;
	g_all.push_back(c);
	l->pending.push_back(c);
	ev("net.established", s->id, c->id);
}
static void fillAddr(int family, const std::string& host, uint16_t port, struct sockaddr *sa, socklen_t *len)
{
	if (!sa || !len) return;
	struct sockaddr_in a4; struct sockaddr_in6 a6;
	memset(&a4, 0, sizeof(a4)); memset(&a6, 0, sizeof(a6));
	const void *p; socklen_t n;
	if (family == AF_INET) {
		a4.sin_family = AF_INET; a4.sin_port = htons(port); inet_pton(AF_INET, mapped(host) ? host.c_str() + 7 : host.c_str(), &a4.sin_addr); p = &a4; n = sizeof(a4);
	} else {
		a6.sin6_family = AF_INET6; a6.sin6_port = htons(port);
		if (inet_pton(AF_INET6, host.c_str(), &a6.sin6_addr) != 1) inet_pton(AF_INET6, ("::ffff:" + host).c_str(), &a6.sin6_addr);
		p = &a6; n = sizeof(a6);
	}
	memcpy(sa, p, std::min(*len, n));
	*len = n;
}
struct Want { int fd; bool r, w, x; };

} // sim
using namespace sim;

extern "C" {
int __real_socket(int, int, int); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_poll(struct pollfd *, nfds_t, int);
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo(struct addrinfo *);

int __wrap_socket(int domain, int type, int proto)
{
	if (!active()) return __real_socket(domain, type, proto);
	yield("socket"); ENGINE
	if (fault("socket.EMFILE")) { ev("socket", -EMFILE); return (int)err(EMFILE); }
	if (domain != AF_INET && domain != AF_INET6) { ev("socket", -EAFNOSUPPORT); return (int)err(EAFNOSUPPORT); }
	SockP s(new Sock());
	s->family = domain;
	int fd = newSockFd(s, type);
	ev("socket", fd, s->id);
	return fd;
}
int __wrap_socketpair(int, int type, int, int v[2])
{
	yield("socketpair"); ENGINE
	if (fault("socket.EMFILE")) return (int)err(EMFILE);
	SockP a(new Sock()), b(new Sock());
	a->st = b->st = Sock::CONN; a->peer = b; b->peer = a;
	v[0] = newSockFd(a, type); v[1] = newSockFd(b, type);
	return 0;
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	if (!active()) return __real_connect(fd, sa, len);
	yield("connect"); ENGINE
	OfdP o = getFdP(fd);
	SockP s = sockOf(fd);
	if (!s) { ev("connect", fd, -EBADF); return (int)err(o ? ENOTSOCK : EBADF); }
	if (s->st == Sock::CONN) { if (s->id && s->soError == 0 && (o->flags & O_NONBLOCK)) return (int)err(EISCONN); return (int)err(EISCONN); }
	if (s->st == Sock::CONNECTING) {
		if (o->flags & O_NONBLOCK) return (int)err(EALREADY);
	} else {
		if (sa->sa_family != s->family || len < (socklen_t)(s->family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) { ev("connect", fd, -EINVAL); return (int)err(EINVAL); }
		if (fault("connect.ENETUNREACH")) { ev("connect", fd, -ENETUNREACH); return (int)err(ENETUNREACH); }
		char nb[64];
		if (s->family == AF_INET) { auto *a = (const sockaddr_in *)sa; s->rport = ntohs(a->sin_port); s->rhost = inet_ntop(AF_INET, &a->sin_addr, nb, sizeof(nb)); }
		else { auto *a = (const sockaddr_in6 *)sa; s->rport = ntohs(a->sin6_port); s->rhost = inet_ntop(AF_INET6, &a->sin6_addr, nb, sizeof(nb)); }
		s->port = s->port ? s->port : g_eph++;
		s->host = s->family == AF_INET ? "127.0.0.1" : mapped(s->rhost) ? "::ffff:127.0.0.1" : "::1";
		s->st = Sock::CONNECTING;
		int64_t d = delay();
		if ((o->flags & O_NONBLOCK) && d == 0 && !chance(0.3)) d = 1000;
		if (d == 0) handshake(s, 0); else after(d, [s] { handshake(s, 0); });
	}
	if (s->st == Sock::CONNECTING) {
		if (o->flags & O_NONBLOCK) { ev("connect", fd, -EINPROGRESS); return (int)err(EINPROGRESS); }
		if (fault("connect.EINTR")) { ev("connect", fd, -EINTR); return (int)err(EINTR); }
		int64_t dl = s->sndto > 0 ? now() + s->sndto * 1000 : -1;
		Wake w = block("connect", [s] { return s->st != Sock::CONNECTING; }, dl, true);
		if (w == SIGNALED) { ev("connect", fd, -EINTR); return (int)err(EINTR); }
		if (w == TIMEOUT) { ev("connect", fd, -EINPROGRESS); return (int)err(EINPROGRESS); }
	}
	if (s->st == Sock::FAILED) { int e = s->soError ? s->soError : ECONNREFUSED; s->soError = 0; s->st = Sock::NEW; ev("connect", fd, -e); return (int)err(e); }
	ev("connect", fd, 0);
	return 0;
}
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	if (!active()) return __real_bind(fd, sa, len);
	yield("bind"); ENGINE
	SockP s = sockOf(fd);
	if (!s) { ev("bind", fd, -EBADF); return (int)err(EBADF); }
	if (fault("bind.EACCES")) { ev("bind", fd, -EACCES); return (int)err(EACCES); }
	if (sa->sa_family != s->family) return (int)err(EINVAL);
	uint16_t port = ntohs(s->family == AF_INET ? ((const sockaddr_in *)sa)->sin_port : ((const sockaddr_in6 *)sa)->sin6_port);
	if (port == 0) port = g_eph++;
	auto clash = [&](SockP l) { return l && !l->closed && l != s && (l->family == s->family || (l->family == AF_INET6 && !l->v6only) || (s->family == AF_INET6 && !s->v6only)); };
	for (auto& w : g_listen[port]) if (clash(w.lock())) { ev("bind", fd, -EADDRINUSE); return (int)err(EADDRINUSE); }
	// connections of an earlier server on this port, open or in TIME_WAIT
	for (auto& o : g_all) if (o->accepted && o->port == port && !(o->reuse && s->reuse) && !o->broken && (!o->closed || (o->activeClose && now() < o->closedAt + 60 * SEC))) { ev("bind", fd, -EADDRINUSE); return (int)err(EADDRINUSE); }
	s->port = port; s->st = Sock::BOUND;
	g_listen[port].push_back(s);
	ev("bind", fd, port);
	return 0;
}
int __wrap_listen(int fd, int backlog)
{
	if (!active()) return __real_listen(fd, backlog);
	yield("listen"); ENGINE
	SockP s = sockOf(fd);
	if (!s) return (int)err(EBADF);
	if (fault("listen.EADDRINUSE")) { ev("listen", fd, -EADDRINUSE); return (int)err(EADDRINUSE); }
	if (s->st == Sock::NEW) { s->port = g_eph++; g_listen[s->port].push_back(s); }
	s->st = Sock::LISTEN; s->backlog = std::max(0, std::min(backlog, 4096));
	ev("listen", fd);
	return 0;
}
int __wrap_accept4(int fd, struct sockaddr *sa, socklen_t *len, int type)
{
	yield("accept"); ENGINE
	OfdP o = getFdP(fd);
	SockP s = sockOf(fd);
	if (!s) { ev("accept", fd, -EBADF); return (int)err(EBADF); }
	if (s->st != Sock::LISTEN) { ev("accept", fd, -EINVAL); return (int)err(EINVAL); }
	if (fault("accept.EINTR")) { ev("accept", fd, -EINTR); return (int)err(EINTR); }
	if (fault("accept.EMFILE")) { ev("accept", fd, -EMFILE); return (int)err(EMFILE); }
	if (s->pending.empty()) {
		if (o->flags & O_NONBLOCK) return (int)err(EAGAIN);
		Wake w = block("accept", [s] { return !s->pending.empty() || s->closed; }, s->rcvto > 0 ? now() + s->rcvto * 1000 : -1, true);
		if (w == SIGNALED) return (int)err(EINTR);
		if (w == TIMEOUT) return (int)err(EAGAIN);
		if (s->closed) return (int)err(EINVAL);
	}
	SockP c = s->pending.front();
	s->pending.pop_front();
	if (fault("accept.ECONNABORTED")) { SockP p = c->peer.lock(); c->closed = true; if (p) { Seg r; r.rst = true; transmit(p, r); } ev("accept", fd, -ECONNABORTED); return (int)err(ECONNABORTED); }
	OfdP n(new Ofd());
	n->kind = Ofd::SOCK; n->sock = c; n->path = "socket"; n->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
	int r = allocFd(n);
	if (!s->harness) g_newest = r;
	if (type & SOCK_CLOEXEC) fdt().t[r].cloexec = true;
	fillAddr(s->family, c->rhost, c->rport, sa, len);
	ev("accept", fd, r, c->id);
	return r;
}
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *len) { return active() ? __wrap_accept4(fd, sa, len, 0) : __real_accept(fd, sa, len); }
int __wrap_shutdown(int fd, int how)
{
	yield("shutdown"); ENGINE
	SockP s = sockOf(fd);
	if (!s) { ev("shutdown", fd, -EBADF); return (int)err(EBADF); }
	if (s->st != Sock::CONN || s->rxRst) { ev("shutdown", fd, -ENOTCONN); return (int)err(ENOTCONN); }
	if (how < 0 || how > 2) return (int)err(EINVAL);
	if (how == SHUT_RD || how == SHUT_RDWR) s->shutRd = true;
	if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shutWr) { sendFin(s); s->shutWr = true; }
	ev("shutdown", fd, how);
	return 0;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl)
{
	yield("recv"); ENGINE
	OfdP o = getFdP(fd);
	if (!sockOf(fd)) return err(o ? ENOTSOCK : EBADF);
	ssize_t r = sockRecv(o, b, n, fl);
	ev("recv", fd, r < 0 ? -errno : r, (int64_t)n);
	return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl)
{
	yield("send"); ENGINE
	OfdP o = getFdP(fd);
	if (!sockOf(fd)) return err(o ? ENOTSOCK : EBADF);
	ssize_t r = sockSend(o, b, n, fl);
	ev("send", fd, r < 0 ? -errno : r, (int64_t)n);
	return r;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return __wrap_send(fd, b, n, fl); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl)
{
	std::string b;
	{ ENGINE for (size_t i = 0; i < m->msg_iovlen; i++) b.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
	return __wrap_send(fd, b.data(), b.size(), fl);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl)
{
	size_t tot = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
	std::string b;
	{ ENGINE b.resize(tot); }
	ssize_t r = __wrap_recv(fd, &b[0], tot, fl);
	size_t k = 0;
	for (size_t i = 0; r > 0 && i < m->msg_iovlen && k < (size_t)r; i++) { size_t c = std::min(m->msg_iov[i].iov_len, (size_t)r - k); memcpy(m->msg_iov[i].iov_base, b.data() + k, c); k += c; }
	return r;
}
int __wrap_setsockopt(int fd, int level, int name, const void *v, socklen_t len)
{
	yield("setsockopt"); ENGINE
	SockP s = sockOf(fd);
	if (!s) { ev("setsockopt", fd, -EBADF); return (int)err(EBADF); }
	if (fault("setsockopt.ENOBUFS")) { ev("setsockopt", fd, -ENOBUFS); return (int)err(ENOBUFS); }
	if (fault("setsockopt.EINVAL")) { ev("setsockopt", fd, -EINVAL); return (int)err(EINVAL); }
	ev("setsockopt", level, name);
	auto i = [&] { int x; memcpy(&x, v, sizeof(x)); return x; };
	if (level == SOL_SOCKET) {
		switch (name) {
		case SO_RCVTIMEO: case SO_SNDTIMEO: {
			if (len < sizeof(struct timeval)) return (int)err(EINVAL);
			struct timeval t; memcpy(&t, v, sizeof(t));
			if (t.tv_usec < 0 || t.tv_usec >= 1000000) return (int)err(EDOM);
			int64_t us = t.tv_sec < 0 ? 1 : t.tv_sec * 1000000ll + t.tv_usec;
			(name == SO_RCVTIMEO ? s->rcvto : s->sndto) = us;
			return 0;
		}
		case SO_LINGER: if (len < sizeof(struct linger)) return (int)err(EINVAL); memcpy(&s->lg, v, sizeof(s->lg)); s->lgSet = true; s->lg.l_onoff = !!s->lg.l_onoff; return 0;
		case SO_REUSEADDR: if (len < 4) return (int)err(EINVAL); s->reuse = i(); return 0;
		case SO_KEEPALIVE: if (len < 4) return (int)err(EINVAL); s->keepalive = i(); return 0;
		case SO_RCVBUF: if (len < 4) return (int)err(EINVAL); s->rcvbuf = std::max(2304, i() * 2); return 0;
		case SO_SNDBUF: if (len < 4) return (int)err(EINVAL); s->sndbuf = std::max(4608, i() * 2); return 0;
		default: return 0;
		}
	}
	if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY) { if (s->family != AF_INET6) return (int)err(ENOPROTOOPT); s->v6only = i(); return 0; }
	if (level == IPPROTO_TCP && name == TCP_NODELAY) { s->nodelay = i(); return 0; }
	if (level == IPPROTO_TCP) return 0;
	return (int)err(ENOPROTOOPT);
}
int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *len)
{
	yield("getsockopt"); ENGINE
	SockP s = sockOf(fd);
	if (!s) { ev("getsockopt", fd, -EBADF); return (int)err(EBADF); }
	if (fault("getsockopt.ENOBUFS")) { ev("getsockopt", fd, -ENOBUFS); return (int)err(ENOBUFS); }
	ev("getsockopt", level, name);
	auto put = [&](const void *p, socklen_t n) { n = std::min(n, *len); memcpy(v, p, n); *len = n; return 0; };
	auto puti = [&](int x) { return put(&x, sizeof(x)); };
	if (level == SOL_SOCKET) {
		switch (name) {
		case SO_ERROR: { int e = s->soError; s->soError = 0; if (e) ev("SO_ERROR", e); return puti(e); }
		case SO_RCVTIMEO: case SO_SNDTIMEO: { int64_t us = name == SO_RCVTIMEO ? s->rcvto : s->sndto; struct timeval t; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return put(&t, sizeof(t)); }
		case SO_LINGER: return put(&s->lg, sizeof(s->lg));
		case SO_REUSEADDR: return puti(s->reuse);
		case SO_KEEPALIVE: return puti(s->keepalive);
		case SO_RCVBUF: return puti(s->rcvbuf);
		case SO_SNDBUF: return puti(s->sndbuf);
		case SO_TYPE: return puti(SOCK_STREAM);
		case SO_ACCEPTCONN: return puti(s->st == Sock::LISTEN);
		default: return puti(0);
		}
	}
	if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY) return puti(s->v6only);
	if (level == IPPROTO_TCP && name == TCP_NODELAY) return puti(s->nodelay);
	return puti(0);
}
int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *len) { ENGINE SockP s = sockOf(fd); if (!s) return (int)err(EBADF); fillAddr(s->family, s->host, s->port, sa, len); return 0; }
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
	ENGINE
	SockP s = sockOf(fd);
	if (!s) return (int)err(EBADF);
	if (s->st != Sock::CONN || s->rxRst) return (int)err(ENOTCONN);
	fillAddr(s->family, s->rhost, s->rport, sa, len);
	return 0;
}
static int64_t tvNs(const struct timeval *t) { return t->tv_sec * SEC + t->tv_usec * 1000; }
// a signal arrives at the start of the wait or in the middle of it
static void interrupted(const char *nm, int64_t timeoutNs, const std::function<bool()>& ready)
{
	int64_t d = (timeoutNs < 0 ? 2 * SEC : std::min<int64_t>(timeoutNs, 10 * SEC)) / 4 * (int64_t)choose(4);
	if (d > 0 && !ready()) block(nm, ready, now() + d, false);
}
static int selectImpl(int nfds, fd_set *r, fd_set *w, fd_set *x, int64_t timeoutNs, int64_t *left)
{
	yield("select"); ENGINE
	std::vector<Want> v;
	for (int i = 0; i < nfds && i < FD_SETSIZE; i++) {
		bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), c = x && FD_ISSET(i, x);
		if (!a && !b && !c) continue;
		if (!getFd(i)) { ev("select", -EBADF); return (int)err(EBADF); }
		v.push_back(Want{ i, a, b, c });
	}
	int64_t t0 = now(), dl = timeoutNs < 0 ? -1 : t0 + timeoutNs;
	auto cnt = [&v]() { int n = 0; for (auto& e : v) { Ofd *o = getFd(e.fd); if (!o) { n++; continue; } if (e.r && fdReadable(o)) n++; if (e.w && fdWritable(o)) n++; } return n; };
	if (fault("select.EINTR")) { interrupted("select", timeoutNs, [&] { return cnt() > 0; }); if (left) *left = dl < 0 ? 0 : std::max<int64_t>(0, dl - now()); ev("select", -EINTR); return (int)err(EINTR); }
	Wake k = READY;
	if (!cnt()) k = block("select", [&] { return cnt() > 0; }, dl, true);
	if (left) *left = dl < 0 ? 0 : std::max<int64_t>(0, dl - now());
	if (k == SIGNALED) { ev("select", -EINTR); return (int)err(EINTR); }
	int n = 0;
	fd_set nr, nw; FD_ZERO(&nr); FD_ZERO(&nw);
	for (auto& e : v) {
		Ofd *o = getFd(e.fd); if (!o) continue;
		if (e.r && fdReadable(o)) { FD_SET(e.fd, &nr); n++; }
		if (e.w && fdWritable(o)) { FD_SET(e.fd, &nw); n++; }
	}
	if (r) *r = nr;
	if (w) *w = nw;
	if (x) FD_ZERO(x);
	if (n == 0) probe("select timed out");
	ev("select", n);
	return n;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t)
{
	if (!active()) return __real_select(n, r, w, x, t);
	if (t && (t->tv_sec < 0 || t->tv_usec < 0)) return (int)err(EINVAL);
	int64_t left = 0;
	int k = selectImpl(n, r, w, x, t ? tvNs(t) : -1, &left);
	if (t) { t->tv_sec = left / SEC; t->tv_usec = left % SEC / 1000; } // Linux reports the time left
	return k;
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *) { return selectImpl(n, r, w, x, t ? t->tv_sec * SEC + t->tv_nsec : -1, nullptr); }
static short pollEv(struct pollfd& p)
{
	Ofd *o = getFd(p.fd);
	if (!o) return POLLNVAL;
	short e = 0;
	if ((p.events & (POLLIN | POLLRDNORM)) && fdReadable(o)) e |= p.events & (POLLIN | POLLRDNORM);
	if ((p.events & (POLLOUT | POLLWRNORM)) && fdWritable(o)) e |= p.events & (POLLOUT | POLLWRNORM);
	if (o->kind == Ofd::SOCK) { if (sockError(o->sock.get())) e |= POLLERR; if (sockHup(o->sock.get())) e |= POLLHUP; }
	if (o->kind == Ofd::PIPE_R && o->pipe->writers == 0) e |= POLLHUP;
	return e;
}
static int pollImpl(struct pollfd *f, nfds_t n, int64_t timeoutNs)
{
	yield("poll"); ENGINE
	auto cnt = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) if (f[i].fd >= 0 && pollEv(f[i])) c++; return c; };
	if (fault("select.EINTR")) { interrupted("poll", timeoutNs, [&] { return cnt() > 0; }); ev("poll", -EINTR); return (int)err(EINTR); }
	int64_t dl = timeoutNs < 0 ? -1 : now() + timeoutNs;
	Wake k = READY;
	if (!cnt()) k = block("poll", [&] { return cnt() > 0; }, dl, true);
	if (k == SIGNALED) { ev("poll", -EINTR); return (int)err(EINTR); }
	int c = 0;
	for (nfds_t i = 0; i < n; i++) { f[i].revents = f[i].fd >= 0 ? pollEv(f[i]) : 0; if (f[i].revents) c++; }
	ev("poll", c);
	return c;
}
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { return active() ? pollImpl(f, n, ms < 0 ? -1 : ms * MS) : __real_poll(f, n, ms); }
int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *) { return pollImpl(f, n, t ? t->tv_sec * SEC + t->tv_nsec : -1); }
int __wrap_epoll_create1(int fl)
{
	yield("epoll_create"); ENGINE
	if (fault("epoll_create.EMFILE")) { ev("epoll_create", -EMFILE); return (int)err(EMFILE); }
	OfdP o(new Ofd()); o->kind = Ofd::EPOLL; o->ep.reset(new Epoll()); o->path = "epoll";
	int fd = allocFd(o);
	if (fl & EPOLL_CLOEXEC) fdt().t[fd].cloexec = true;
	ev("epoll_create", fd);
	return fd;
}
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
	yield("epoll_ctl"); ENGINE
	OfdP o = getFdP(ep);
	if (!o || o->kind != Ofd::EPOLL || !getFd(fd)) { ev("epoll_ctl", -EBADF); return (int)err(EBADF); }
	auto& w = o->ep->w;
	if (op == EPOLL_CTL_ADD) { if (fault("epoll_ctl.ENOMEM")) return (int)err(ENOMEM); if (w.count(fd)) return (int)err(EEXIST); w[fd] = std::make_pair((uint32_t)e->events, (uint64_t)e->data.u64); }
	else if (op == EPOLL_CTL_MOD) { if (!w.count(fd)) return (int)err(ENOENT); w[fd] = std::make_pair((uint32_t)e->events, (uint64_t)e->data.u64); }
	else { if (!w.count(fd)) return (int)err(ENOENT); w.erase(fd); }
	ev("epoll_ctl", op, fd);
	return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *e, int max, int ms)
{
	yield("epoll_wait"); ENGINE
	OfdP o = getFdP(ep);
	if (!o || o->kind != Ofd::EPOLL) return (int)err(EBADF);
	if (max <= 0) return (int)err(EINVAL);
	auto get = [&](int fd, uint32_t want) -> uint32_t { struct pollfd p; p.fd = fd; p.events = (short)((want & EPOLLIN ? POLLIN : 0) | (want & EPOLLOUT ? POLLOUT : 0)); p.revents = 0; Ofd *q = getFd(fd); if (!q) return 0; short r = pollEv(p); return (r & POLLIN ? EPOLLIN : 0) | (r & POLLOUT ? EPOLLOUT : 0) | (r & POLLERR ? EPOLLERR : 0) | (r & POLLHUP ? EPOLLHUP : 0); };
	auto any = [&] { for (auto& x : o->ep->w) if (get(x.first, x.second.first)) return true; return false; };
	if (fault("select.EINTR")) { interrupted("epoll_wait", ms < 0 ? -1 : ms * MS, any); ev("epoll_wait", -EINTR); return (int)err(EINTR); }
	Wake k = READY;
	if (!any()) k = block("epoll_wait", any, ms < 0 ? -1 : now() + ms * MS, true);
	if (k == SIGNALED) { ev("epoll_wait", -EINTR); return (int)err(EINTR); }
	int n = 0;
	for (auto& x : o->ep->w) { uint32_t r = get(x.first, x.second.first); if (r && n < max) { e[n].events = r; e[n].data.u64 = x.second.second; n++; } }
	ev("epoll_wait", n);
	return n;
}
int __wrap_epoll_pwait(int ep, struct epoll_event *e, int max, int ms, const sigset_t *) { return __wrap_epoll_wait(ep, e, max, ms); }

int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
	if (!active()) return __real_getaddrinfo(node, svc, h, res);
	yield("getaddrinfo"); ENGINE
	if (fault("getaddrinfo.EAI_AGAIN")) { ev("getaddrinfo", EAI_AGAIN); return EAI_AGAIN; }
	int fam = h ? h->ai_family : AF_UNSPEC;
	int flags = h ? h->ai_flags : 0;
	std::vector<std::string> addrs;
	unsigned char tmp[32];
	std::string nm = node ? node : (flags & AI_PASSIVE) ? "0.0.0.0" : "127.0.0.1";
	if (inet_pton(AF_INET, nm.c_str(), tmp) == 1 || inet_pton(AF_INET6, nm.c_str(), tmp) == 1) addrs.push_back(nm);
	else if (flags & AI_NUMERICHOST) return EAI_NONAME;
	else if (g_hosts.count(nm)) addrs = g_hosts[nm];
	else if (nm == "localhost") { addrs.push_back("127.0.0.1"); addrs.push_back("::1"); }
	else { ev("getaddrinfo", EAI_NONAME); return EAI_NONAME; }
	std::vector<std::pair<int, std::string>> out;
	for (auto& a : addrs) { int f = a.find(':') != std::string::npos ? AF_INET6 : AF_INET; if (fam == AF_UNSPEC || fam == f) out.push_back({ f, a }); }
	if (out.empty() && fam == AF_INET6 && (flags & AI_V4MAPPED)) for (auto& a : addrs) if (a.find(':') == std::string::npos) out.push_back({ AF_INET6, "::ffff:" + a });
	if (out.empty()) { ev("getaddrinfo", EAI_NONAME); return addrs.size() && h && h->ai_family == AF_INET && nm == addrs[0] ? EAI_ADDRFAMILY : EAI_NONAME; }
	uint16_t port = svc ? (uint16_t)atoi(svc) : 0;
	struct addrinfo *head = nullptr, **tail = &head;
	for (auto& a : out) {
		struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof(*ai) + sizeof(sockaddr_in6));
		ai->ai_family = a.first; ai->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; ai->ai_protocol = h && h->ai_protocol ? h->ai_protocol : IPPROTO_TCP;
		ai->ai_addr = (struct sockaddr *)(ai + 1);
		socklen_t n = sizeof(sockaddr_in6);
		fillAddr(a.first, a.second, port, ai->ai_addr, &n);
		ai->ai_addrlen = n;
		*tail = ai; tail = &ai->ai_next;
	}
	g_ai[head] = 1;
	*res = head;
	ev("getaddrinfo", 0, (int64_t)out.size());
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a)
{
	if (!active()) { __real_freeaddrinfo(a); return; }
	ENGINE
	if (!a) return;
	if (!g_ai.count(a)) fail("resource:bad-freeaddrinfo", "freeaddrinfo of a list that is not live (double free or never allocated)");
	g_ai.erase(a);
	while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; }
}
}
