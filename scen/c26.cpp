#include "sock.h"
SIM_PROPERTY("C26", "cybozu/socket.hpp (Socket::bind, queryAccept, queryAcceptNoThrow, accept, SocketAddr, experimental::Epoll)", "TCP stack, descriptor numbers, system call failures, raw clients")
using namespace sk;
typedef cybozu::Socket Socket;
typedef cybozu::SocketAddr Addr;
static uint16_t PORT; // chosen per run
static void anyPort() { PORT = (uint16_t)(chance(0.5) ? 5000 : h::pickOf({ 1, 80, 1023, 9999, 10000, 32767, 32768, 49152, 65535 })); }
#ifdef CYBOZU_SOCKET_USE_EPOLL
static const bool EP = true;
#else
static const bool EP = false;
#endif
static uint16_t localPort(int fd) { struct sockaddr_in6 a; socklen_t n = sizeof(a); memset(&a, 0, sizeof(a)); net::PeerScope q; getsockname(fd, (sockaddr *)&a, &n); return ntohs(a.sin6_port); }
static void waitFaults() { allow("select.EINTR", 0.2); allow("epoll_create.EMFILE", 0.1); allow("epoll_ctl.ENOMEM", 0.1); }
static uint64_t waitFired() { return fired("select.EINTR") + fired("epoll_create.EMFILE") + fired("epoll_ctl.ENOMEM"); }
static uint64_t accFired() { return fired("accept.EINTR") + fired("accept.EMFILE") + fired("accept.ECONNABORTED"); }
// one wait with its checks; returns >0, 0, <0
static int waitOnce(Socket& srv, int msec, bool big)
{
	uint64_t f0 = waitFired(); int64_t t0 = now(); int r; bool nothrow = chance(0.5), x = false;
	if (nothrow) { x = threw([&] { r = srv.queryAcceptNoThrow(msec); }); SIM_CHECK(!x || EP, "nothrow", "queryAcceptNoThrow threw"); }
	else { bool b = false; x = threw([&] { b = msec == 1000 && chance(0.5) ? srv.queryAccept() : srv.queryAccept(msec); }); r = b; }
	if (x) r = -1;
	int64_t el = now() - t0; uint64_t f = waitFired() - f0;
	if (r < 0 && nothrow && !x && f > 0 && !big) SIM_CHECK(r == -EINTR || r == -EMFILE || r == -ENOMEM, "error-code", "queryAcceptNoThrow returned %d", r);
	if (big && !EP) { SIM_CHECK(r < 0, "big-descriptor", "a descriptor that select can not handle gave %d", r); return r; }
	SIM_CHECK(r >= 0 || f > 0, "spurious-error", "waiting failed without a reason");
	SIM_CHECK(el <= (int64_t)msec * MS + 20 * MS, "too-late", "waited %lld ms instead of %d", (long long)(el / MS), msec);
	if (r == 0) SIM_CHECK(el >= (int64_t)msec * MS, "too-early", "timeout reported after %lld of %d ms", (long long)(el / MS), msec);
	return r;
}
struct Cli { int port = 0; bool v6 = false; Str data; bool served = false; bool done = false; };
static int serve(Socket& c, std::vector<Cli>& cl, int n)
{
	SIM_CHECK(c.isValid(), "accept-invalid", "accept returned without a connection");
	char id; c.read(&id, 1); SIM_CHECK(id >= 0 && id < n && !cl[id].served, "twice", "a connection was handed out twice"); Cli& k = cl[id]; k.served = true;
	Str in(k.data.size(), 0); c.read(&in[0], in.size()); SIM_CHECK(in == k.data, "unusable", "wrong bytes on the accepted connection");
	Str m = Str(1, id) + k.data; c.write(m.data(), m.size());
	if (chance(0.5)) c.close(); else if (chance(0.5)) c.waitForClose();
	return id;
}
SCENARIO(serving, 6)
{
	anyPort();
	noTimeSkips(); int64_t dmax = h::pickOf<int64_t>({ 0, 1 * MS, 30 * MS }); net::delays(0, dmax);
	int base = chance(0.3) ? h::pickOf({ 1020, 1022, 1023, 1024, 1500, 5000 }) : 200; setFdBase(base);
	int mode = h::pickOf({ 1, 2, 3 }); auto *srv = new Socket();
	bool dflt = mode == 3 && chance(0.5); if (dflt) srv->bind(PORT); else srv->bind(PORT, mode);
	bool big = net::newest() >= FD_SETSIZE;
	int n = range(1, 4); auto *cl = new std::vector<Cli>(n); int thr = chance(0.7) ? 1 : 2; bool flt = thr == 1 && chance(0.4);
	if (flt) { waitFaults(); allow("accept.EINTR", 0.1); allow("accept.EMFILE", 0.1); allow("accept.ECONNABORTED", 0.1); }
	auto *gave = new bool(false); auto *arrived = new int(0); auto *lastArr = new int64_t(0); auto *handed = new int(0);
	for (int i = 0; i < n; i++) {
		(*cl)[i].v6 = mode == 2 || (mode == 3 && chance(0.5)); (*cl)[i].data = bytes(range(1, 20)); int64_t w = (int64_t)choose(8) * 300 * MS;
		spawn("client", [=] {
			Cli& c = (*cl)[i]; h::pause(w); Peer p; bool ok = c.v6 ? p.connect6(PORT) : p.connect4(PORT); if (*gave) return; SIM_CHECK(ok, "refused", "a client could not connect to a bound port (mode %d)", mode);
			++*arrived; *lastArr = now(); c.port = localPort(p.fd);
			Str m = Str(1, (char)i) + c.data; p.sendAll(m); Str r; while (r.size() < m.size()) { char b[64]; ssize_t k = p.recv(b, sizeof(b)); if (k <= 0) break; r.append(b, (size_t)k); }
			if (r != m) SIM_CHECK(r.empty() && (*gave || fired("accept.ECONNABORTED") > 0), "unusable", "the accepted connection does not answer"); else c.done = true;
		});
	}
	for (int t = 0; t < thr; t++) spawn("server", [=] {
		if (thr == 2) { // plain blocking accepts from two threads
			for (int i = t; i < n; i += 2) { Socket c; srv->accept(c); serve(c, *cl, n); }
			return;
		}
		for (int idle = 0; idle < 8 && *handed + (int)fired("accept.ECONNABORTED") < n;) {
			int msec = h::pickOf(EP ? std::initializer_list<int>{ 1, 100, 999, 1000, 1001, 2500 } : std::initializer_list<int>{ 0, 1, 100, 999, 1000, 1001, 2500 });
			int before = *arrived - *handed - (int)fired("accept.ECONNABORTED"); int r = waitOnce(*srv, msec, big);
			if (r == 0) { SIM_CHECK(before <= 0, "missed", "a connection was pending but the wait timed out"); if (msec >= 100) idle++; else h::pause(100 * MS); continue; }
			if (r < 0 && !big) { idle++; h::pause(50 * MS); continue; }
			uint64_t f0 = accFired(); Socket c; Addr a; bool wantA = chance(0.6);
			auto body = [&] { if (wantA) srv->accept(c, &a); else srv->accept(c); };
			if (big && !EP) { int avail = *arrived - *handed - (int)fired("accept.ECONNABORTED"); if (avail <= 0) { h::pause(200 * MS); if (now() > 20 * SEC) break; continue; } }
			bool x = threw(body);
			if (x) { SIM_CHECK(accFired() > f0, "spurious-error", "accept failed without a reason"); SIM_CHECK(!c.isValid(), "accept-valid", "a failed accept left a valid socket"); idle++; continue; }
			SIM_CHECK(c.isValid(), "accept-invalid", "accept returned without a connection"); ++*handed;
			int id = serve(c, *cl, n); Cli& k = (*cl)[id];
			if (wantA) {
				Str ip = k.v6 ? "[::1]" : mode == 1 ? "127.0.0.1" : "[::ffff:127.0.0.1]"; Str want = ip + ":" + std::to_string(k.port ? k.port : a.getPort());
				SIM_CHECK(a.toStr() == want && a.getFamily() == (mode == 1 ? AF_INET : AF_INET6), "address", "peer address %s instead of %s", a.toStr().c_str(), want.c_str());
				NoFault nf; Addr same(k.v6 ? "::1" : "127.0.0.1", 1), mapped("127.0.0.1", 1, true);
				SIM_CHECK(a.hasSameAddr(same) && same.hasSameAddr(a) && a.hasSameAddr(mapped) == !k.v6, "address", "hasSameAddr does not know the peer %s", a.toStr().c_str());
				for (const char *o : { "127.0.0.2", "126.0.0.1", "10.0.0.1", "::2", "::127.0.0.1", "::fffe:127.0.0.1", "1::ffff:127.0.0.1", "::ffff:127.0.1.1", "2001:db8::1" }) { Addr b(o, 1); SIM_CHECK(!a.hasSameAddr(b) && !b.hasSameAddr(a), "address", "peer %s is taken for %s", a.toStr().c_str(), o); }
			}
		}
		if (*handed + (int)fired("accept.ECONNABORTED") < n) { SIM_CHECK(flt || big || *arrived - *handed <= 0 || now() - *lastArr < 2 * SEC, "lost", "no connection is reported although one is pending"); *gave = true; srv->close(true); }
	});
	joinAll(); disallowAll();
	if (!*gave && fired("accept.ECONNABORTED") == 0) for (auto& c : *cl) SIM_CHECK(c.done, "lost", "a connection was never handed out");
	delete srv; SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open: %s", net::sutFdCount(), fs::describeOpen().c_str());
	delete cl; delete arrived; delete lastArr; delete handed; delete gave;
}
// waiting without any client, any time value
SCENARIO(waiting, 2)
{
	anyPort();
	noTimeSkips(); Socket srv; if (chance(0.1)) { int r = srv.queryAcceptNoThrow(1000); SIM_CHECK(r < 0, "no-socket", "waiting on an unbound socket gave %d", r); bool x = threw([&] { srv.queryAccept(1000); }); SIM_CHECK(x, "no-socket", "waiting on an unbound socket did not throw"); return; }
	setFdBase(h::pickOf({ 3, 200, 1022, 1023, 1024, 1030, 4000 })); srv.bind(PORT); bool big = net::newest() >= FD_SETSIZE; int fd0 = fs::openCount();
	if (chance(0.4)) waitFaults(); Peer p; int64_t come = chance(0.5) ? (int64_t)choose(60) * 100 * MS : -1;
	if (come >= 0) spawn("client", [&] { h::pause(come); p.connect4(PORT); });
	for (int i = 0; i < 3; i++) { int msec = come >= 0 && chance(0.2) ? h::pickOf({ 61000, 2147484, 4294968, 1000000000, 0x7fffffff }) : h::pickOf({ 1, 7, 500, 999, 1000, 1500, 2000, 3999 }); if (i && msec > 4000) msec = 4000; bool pend = p.fd >= 0 && net::connected(p.fd); uint64_t f = waitFired(); int r = waitOnce(srv, msec, big); if (pend && waitFired() == f && !(big && !EP)) SIM_CHECK(r > 0, "missed", "a pending connection is not reported"); if (come < 0) SIM_CHECK(r <= 0, "invented", "a connection was reported although nobody connected");
		if (r > 0) SIM_CHECK(net::connected(p.fd), "invented", "a connection was reported too early"); }
	joinAll(); disallowAll(); (void)fd0;
	if (p.fd >= 0) { Socket c; srv.accept(c); char b = 'q'; p.send(&b, 1); b = 0; c.read(&b, 1); SIM_CHECK(b == 'q', "unusable", "the accepted connection does not work"); }
	p.close(); srv.close(); SIM_CHECK(net::sutFdCount() == 0 && fs::openCount() == 0, "descriptor", "descriptors left open: %s", fs::describeOpen().c_str());
}
// a server that restarts gets its port back although connections of the old one linger
SCENARIO(restart, 2)
{
	anyPort();
	net::delays(0, h::pickOf<int64_t>({ 0, MS })); int rounds = range(2, 3); std::vector<std::unique_ptr<Peer>> old; std::vector<std::unique_ptr<Socket>> kept; int mode = h::pickOf({ 1, 2, 3 });
	for (int i = 0; i < rounds; i++) {
		Socket srv; bool x = threw([&] { srv.bind(PORT, mode); }); SIM_CHECK(!x, "rebind", "the port of a closed server can not be bound again (round %d)", i);
		int n = range(0, 2);
		for (int k = 0; k < n; k++) {
			std::unique_ptr<Peer> p(new Peer()); std::unique_ptr<Socket> c(new Socket()); bool ok = mode == 2 ? p->connect6(PORT) : p->connect4(PORT); SIM_CHECK(ok, "refused", "a client could not connect to a bound port"); srv.accept(*c);
			char b = (char)('a' + k); c->write(&b, 1); char r = 0; p->recv(&r, 1); SIM_CHECK(r == b, "unusable", "the accepted connection does not work");
			if (chance(0.3)) kept.push_back(std::move(c)); else c->close();
			if (chance(0.5)) old.push_back(std::move(p));
		}
		if (chance(0.3)) h::pause((int64_t)choose(100) * SEC);
		srv.close();
	}
	kept.clear(); SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount());
}
// one object is used for one connection after the other: the connection it held is closed
SCENARIO(reuse, 1)
{
	anyPort();
	net::delays(0, h::pickOf<int64_t>({ 0, MS })); Socket srv, c; srv.bind(PORT); std::unique_ptr<Peer> last; int rounds = range(2, 4); bool flt = chance(0.3);
	for (int i = 0; i < rounds; i++) {
		if (chance(0.2)) { bool x = threw([&] { srv.bind(PORT); }); SIM_CHECK(!x, "rebind", "a bound socket can not be bound again"); SIM_CHECK(net::sutFdCount() == 1 + c.isValid(), "descriptor", "%d sockets open", net::sutFdCount()); }
		std::unique_ptr<Peer> p(new Peer()); bool ok = p->connect4(PORT); SIM_CHECK(ok, "refused", "a client could not connect to a bound port");
		if (chance(0.1)) { // the descriptors stay exhausted: accept gives up
			failNext("accept.EMFILE", 300); uint64_t k0 = fired("accept.EMFILE"); bool x = threw([&] { srv.accept(c); });
			SIM_CHECK(x && fired("accept.EMFILE") < k0 + 300, "livelock", "accept does not end while no descriptor is free"); SIM_CHECK(!c.isValid() && net::sutFdCount() == 1, "accept-report", "a failed accept kept a socket"); disallowAll();
			if (last) { char b; SIM_CHECK(last->recv(&b, 1) == 0, "descriptor", "the connection the object held is still open"); last.reset(); }
		}
		Addr a; if (flt) allow("accept.EMFILE", 0.3, 1); uint64_t f0 = accFired(); bool x = threw([&] { if (chance(0.5)) srv.accept(c, &a); else srv.accept(c); }); disallowAll();
		if (x) { SIM_CHECK(accFired() > f0 && !c.isValid() && net::sutFdCount() == 1, "accept-report", "accept failed without a reason or kept a socket"); srv.accept(c); }
		SIM_CHECK(c.isValid() && net::sutFdCount() == 2, "descriptor", "%d sockets open: the one the object held was not closed", net::sutFdCount());
		if (last) { char b; SIM_CHECK(last->recv(&b, 1) == 0, "descriptor", "the connection the object held is still open"); }
		char b = (char)('a' + i), r = 0; c.write(&b, 1); p->recv(&r, 1); SIM_CHECK(r == b, "unusable", "the accepted connection does not work");
		last = std::move(p);
	}
	c.close(); srv.close(); SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount());
}
// binding: modes, occupied ports, failing calls
SCENARIO(binding, 3)
{
	anyPort();
	auto s = new Socket(); int mode = h::pickOf({ 1, 2, 3 }); Peer other; int occ = chance(0.3) ? h::pickOf({ AF_INET, AF_INET6 }) : 0; if (occ) other.listen(PORT, occ);
	bool flt = chance(0.5); if (flt) { allow("socket.EMFILE", 0.2); allow("setsockopt.ENOBUFS", 0.1); allow("setsockopt.EINVAL", 0.1); allow("bind.EACCES", 0.2); allow("listen.EADDRINUSE", 0.2); }
	for (int i = 0; i < 3; i++) {
		uint64_t f0 = firedTotal(); bool x = threw([&] { s->bind(PORT, mode); }); uint64_t f = firedTotal() - f0;
		bool clash = occ && (occ == AF_INET6 || mode != 2);
		SIM_CHECK(x == (f > 0 || clash), "bind-report", "bind %s (%d faults, port %s)", x ? "failed" : "succeeded", (int)f, clash ? "occupied" : "free");
		if (x) { SIM_CHECK(!s->isValid() && net::sutFdCount() == 0, "kept", "the socket of a failed bind is kept (%d)", net::sutFdCount()); other.close(); occ = 0; continue; }
		disallowAll(); other.close(); Peer a, b; bool c4 = a.connect4(PORT), c6 = b.connect6(PORT);
		SIM_CHECK(c4 == ((mode & 1) != 0), "mode", "IPv4 client %s in mode %d", c4 ? "accepted" : "refused", mode); SIM_CHECK(c6 == ((mode & 2) != 0), "mode", "IPv6 client %s in mode %d", c6 ? "accepted" : "refused", mode);
		break;
	}
	delete s; SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount());
}
