#include "sock.h"
SIM_PROPERTY("C25", "cybozu/socket.hpp (Socket::connect, SocketAddr, queryAccept)", "TCP handshake (refusal, silence, late answers, delays), resolver, system call failures, raw servers")
using namespace sk;
typedef cybozu::Socket Socket;
typedef cybozu::SocketAddr Addr;
static uint16_t PORT; // chosen per run
static void anyPort() { PORT = (uint16_t)(chance(0.5) ? 5000 : h::pickOf({ 1, 80, 1023, 9999, 10000, 32767, 32768, 49152, 65535 })); }
static uint64_t faults() { uint64_t n = 0; for (const char *k : { "socket.EMFILE", "connect.ENETUNREACH", "connect.EINTR", "connect.async", "select.EINTR", "ioctl.EIO", "epoll_create.EMFILE", "epoll_ctl.ENOMEM", "getaddrinfo.EAI_AGAIN" }) n += fired(k); return n; }
static void usable(Socket& s, Peer& p)
{
	NoFault q;
	// blocking: a read waits for late data
	Str in = bytes(range(1, 30)), out = bytes(range(1, 30)); Peer *pp = &p;
	int t = spawn("late", [=] { h::pause(200 * MS); pp->sendAll(in); });
	std::vector<char> b(in.size());
	bool x = threw([&] { s.read(b.data(), b.size()); }); SIM_CHECK(!x && Str(b.data(), b.size()) == in, "unusable", "the connection returned by connect can not be read in blocking mode");
	join(t);
	x = threw([&] { s.write(out.data(), out.size()); }); SIM_CHECK(!x, "unusable", "the connection returned by connect can not be written");
	Str got; while (got.size() < out.size()) { char c[64]; ssize_t r = p.recv(c, sizeof(c)); if (r <= 0) break; got.append(c, (size_t)r); }
	SIM_CHECK(got == out, "unusable", "the bytes written after connect did not arrive");
}
SCENARIO(connecting, 6)
{
	anyPort();
	noTimeSkips();
	int64_t dmax = h::pickOf<int64_t>({ 0, 1 * MS, 300 * MS }); net::delays(dmax && chance(0.5) ? dmax : 0, dmax);
	enum { LISTENING, REFUSED, SILENT, HEALED, LATE } sv = (decltype(LISTENING))choose(5);
	int msec = chance(0.25) ? 0 : h::pickOf({ 1, 10, 250, 999, 1000, 1001, 1500, 2750, 5000, 60999, 200000, 3000000 });
	bool v6 = chance(0.3), byName = chance(0.6); int family = v6 ? AF_INET6 : AF_INET;
	int64_t heal = (int64_t)range(1, 40) * 250 * MS;
	Peer srv; if (sv != REFUSED && sv != LATE) srv.listen(PORT, family);
	if (sv == SILENT || sv == HEALED) net::blackhole(PORT, true);
	if (sv == HEALED) at(now() + heal, [] { net::blackhole(PORT, false); });
	const char *name = v6 ? "::1" : "127.0.0.1";
	if (chance(0.4)) { net::setHost("server.example", { name }); name = "server.example"; }
	if (chance(0.5)) { allow("socket.EMFILE", 0.1); allow("connect.ENETUNREACH", 0.15); allow("connect.EINTR", 0.2); allow("connect.async", 0.2); allow("select.EINTR", 0.3); allow("ioctl.EIO", 0.15); allow("epoll_create.EMFILE", 0.1); allow("epoll_ctl.ENOMEM", 0.1); allow("getaddrinfo.EAI_AGAIN", 0.1); }
	Socket s; int tries = range(1, 3); bool ok = false;
	for (int i = 0; i < tries && !ok; i++) {
		uint64_t f0 = faults(); int64_t t0 = now();
		bool x = threw([&] { if (byName) s.connect(name, PORT, msec); else { Addr a(name, PORT, v6); s.connect(a, msec); } });
		int64_t el = now() - t0; uint64_t f = faults() - f0; ok = !x;
		if (x) { probe("connect failed"); } else probe("connect succeeded");
		SIM_CHECK(net::addrinfoLive() == 0, "resolver-leak", "%d resolver results not released", net::addrinfoLive());
		if (!x) {
			int fd = net::newest(); SIM_CHECK(s.isValid() && net::connected(fd), "not-connected", "connect returned although the connection is not established");
			SIM_CHECK(!net::opts(fd).nonblock, "nonblocking", "the socket is left in non-blocking mode");
		} else {
			SIM_CHECK(!s.isValid() && net::sutFdCount() == 0, "kept", "the socket of a failed connect is kept");
			if (f == 0) {
				bool must = sv == LISTENING && (msec == 0 || dmax + 5 * MS < (int64_t)msec * MS); SIM_CHECK(!must, "spurious-failure", "connect to a listening server failed without a reason");
				if (sv == SILENT && msec) SIM_CHECK(el >= std::min((int64_t)msec * MS, 63 * SEC), "too-early", "gave up on a silent server after %lld of %d ms", (long long)(el / MS), msec);
				if (sv == HEALED && msec && msec * MS > heal * 3 + SEC && i == 0) SIM_CHECK(false, "spurious-failure", "the server answered after %lld ms, before the timeout of %d ms", (long long)(heal / MS), msec);
			}
		}
		if (msec) SIM_CHECK(el <= (int64_t)msec * MS + 20 * MS, "too-late", "connect with a timeout of %d ms took %lld ms", msec, (long long)(el / MS));
		if (sv == REFUSED || (sv == LATE && i == 0)) SIM_CHECK(el <= dmax + 20 * MS, "too-late", "a refused connect took %lld ms", (long long)(el / MS));
		if (sv == LATE && i == 0) { SIM_CHECK(x, "not-connected", "nobody listens"); srv.listen(PORT, family); sv = LISTENING; }
		if (sv == REFUSED) SIM_CHECK(x, "not-connected", "nobody listens");
		if (sv == SILENT) SIM_CHECK(x, "not-connected", "nobody answers");
	}
	disallowAll();
	if (ok) {
		net::blackhole(PORT, false); Peer p;
		// earlier attempts may have left dead connections in the queue
		for (;;) { p.close(); srv.accept(p); if (net::connected(p.fd) && !net::finReceived(p.fd)) { char c; net::PeerScope q; struct pollfd pf = { p.fd, POLLIN, 0 }; if (::poll(&pf, 1, 1000) > 0 && ::recv(p.fd, &c, 1, MSG_PEEK) <= 0) continue; break; } }
		usable(s, p);
		if (chance(0.3)) { bool x = threw([&] { s.connect("127.0.0.1", PORT, msec); }); SIM_CHECK(x, "reconnect", "a connected socket was connected again"); usable(s, p); }
	}
	s.close(); SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount());
}
// several threads connect at once, each gets its own connection
SCENARIO(many, 1)
{
	anyPort();
	net::delays(0, 5 * MS); Peer *srv = new Peer(); srv->listen(PORT); int n = range(2, 4); bool tmo = chance(0.7); auto *got = new std::vector<int>(n);
	for (int i = 0; i < n; i++) spawn("client", [=] { Socket s; s.connect("127.0.0.1", PORT, tmo ? 1000 : 0); char c = (char)i, r = 0; s.write(&c, 1); s.read(&r, 1); SIM_CHECK(r == c, "mixed-up", "connection %d answers for %d", i, r); });
	for (int i = 0; i < n; i++) spawn("server", [=] { Peer p; srv->accept(p); char c; SIM_CHECK(p.recv(&c, 1) == 1, "unusable", "a connected client sent nothing"); (*got)[i] = c; p.send(&c, 1); p.recv(&c, 1); });
	joinAll(); std::sort(got->begin(), got->end()); for (int i = 0; i < n; i++) SIM_CHECK((*got)[i] == i, "mixed-up", "a client is missing");
	SIM_CHECK(net::sutFdCount() == 0, "descriptor", "sockets left open"); delete got; delete srv;
}
// name resolution
SCENARIO(resolve, 2)
{
	static const char *v4[] = { "192.0.2.1", "127.0.0.1", "10.1.2.3", "255.255.255.254" }; static const char *v6[] = { "::1", "2001:db8::1234:ace:6006:1e", "fe80::1", "::" };
	std::vector<Str> as; std::set<Str> s4, s6; int n4 = (int)choose(3), n6 = (int)choose(3);
	for (int i = 0; i < n4 + n6; i++) { bool six = (n4 == 0 || (n6 && chance(0.5))); if (six) { if (!n6) continue; as.push_back(v6[choose(4)]); s6.insert(as.back()); } else { as.push_back(v4[choose(4)]); s4.insert(as.back()); } }
	bool known = chance(0.8); Str name = "host.example"; if (known && as.size()) net::setHost(name, as); else { as.clear(); s4.clear(); s6.clear(); }
	if (chance(0.2)) { bool six = chance(0.5); name = six ? v6[choose(4)] : v4[choose(4)]; s4.clear(); s6.clear(); (six ? s6 : s4).insert(name); }
	if (chance(0.3)) allow("getaddrinfo.EAI_AGAIN", 0.5, 2);
	Addr a; int rounds = range(1, 3);
	for (int i = 0; i < rounds; i++) {
		bool force = chance(0.4); uint16_t port = (uint16_t)h::pickOf({ 0, 1, 80, 255, 256, 32767, 32768, 65535 }); uint64_t f0 = fired("getaddrinfo.EAI_AGAIN");
		bool ctor = chance(0.4); bool x = threw([&] { if (ctor) { Addr b(name, port, force); a = b; } else a.set(name, port, force); }); uint64_t f = fired("getaddrinfo.EAI_AGAIN") - f0;
		SIM_CHECK(net::addrinfoLive() == 0, "resolver-leak", "%d resolver results not released", net::addrinfoLive());
		if (x) { SIM_CHECK(f > 0 || (s4.empty() && s6.empty()), "resolve", "a known name was not resolved"); continue; }
		SIM_CHECK(!(s4.empty() && s6.empty()), "resolve", "an unknown name was resolved");
		std::set<Str> want4, want6; if (!force && !s4.empty()) for (auto& v : s4) want4.insert(v + ":" + std::to_string(port));
		if (force || s4.empty() || f) { if (s6.empty()) for (auto& v : s4) want6.insert("[::ffff:" + v + "]:" + std::to_string(port)); for (auto& v : s6) want6.insert("[" + v + "]:" + std::to_string(port)); }
		Str got = a.toStr(); int fam = a.getFamily();
		SIM_CHECK((fam == AF_INET && want4.count(got) && a.getSize() == sizeof(sockaddr_in)) || (fam == AF_INET6 && want6.count(got) && a.getSize() == sizeof(sockaddr_in6)), "resolve", "resolved to %s (family %d, forced %d)", got.c_str(), fam, force);
		SIM_CHECK(a.getPort() == port, "resolve", "port %d instead of %d", a.getPort(), port);
	}
}
