#include "sock.h"
#include <netinet/tcp.h>
SIM_PROPERTY("C27", "cybozu/socket.hpp (Socket timeouts, buffer sizes, linger, setSocketOption/getSocketOption)", "TCP stack with timeouts and options, failing option calls, raw peers")
using namespace sk;
typedef cybozu::Socket Socket;
static const uint16_t PORT = 5000;
static int T() { return chance(0.5) ? h::pickOf({ 1, 9, 10, 99, 100, 500, 999, 1000, 1001, 1500, 1999, 2000, 12345 }) : range(1, 5000); }
SCENARIO(receive, 4)
{
	noTimeSkips(); net::delays(0, 0); Peer l, p; l.listen(PORT); Socket s; s.connect("127.0.0.1", PORT); l.accept(p);
	bool set = chance(0.85); int t = T(); if (set) { if (chance(0.2)) s.setReceiveTimeout(T()); s.setReceiveTimeout(t); } else if (chance(0.5)) { s.setReceiveTimeout(T()); s.setReceiveTimeout(0); }
	if (chance(0.3)) s.setSendTimeout(T()); // must not matter
	for (int i = 0; i < 3; i++) {
		int wait = h::pickOf({ 0, t / 2, t - 1, t + 1, t * 2, 7000 }); if (wait < 0) wait = 0; Str d = bytes(range(1, 10)); Peer *pp = &p; bool cut = chance(0.1);
		int th = spawn("peer", [=] { h::pause((int64_t)wait * MS); if (cut) pp->shut(); else pp->sendAll(d); });
		int64_t t0 = now(); char b[32]; size_t k = 0; bool full = chance(0.4);
		bool x = threw([&] { if (full) { s.read(b, d.size()); k = d.size(); } else k = s.readSome(b, sizeof(b)); }); int64_t el = now() - t0;
		if (set && wait > t) { SIM_CHECK(x, "no-timeout", "a read with a timeout of %d ms returned data that came after %d ms", t, wait); SIM_CHECK(el >= (int64_t)t * MS, "too-early", "timed out after %lld us instead of %d ms", (long long)(el / 1000), t); SIM_CHECK(el <= (int64_t)t * MS + 15 * MS, "too-late", "timed out after %lld ms instead of %d", (long long)(el / MS), t);
			join(th); if (!cut) { s.read(b, d.size()); SIM_CHECK(Str(b, d.size()) == d, "lost", "data that came after a timeout is lost"); } }
		else if (set ? wait < t : true) { if (cut) { SIM_CHECK(full ? x : (!x && k == 0), "eof", "end of stream not seen"); } else SIM_CHECK(!x && Str(b, k) == d, "spurious-timeout", "data that came after %d ms was not delivered (timeout %d)", wait, set ? t : 0); join(th); }
		else { join(th); break; }
		if (cut) break;
	}
}
SCENARIO(sending, 3)
{
	noTimeSkips(); net::delays(0, 0); net::bufs(h::pickOf({ 1, 64, 1000 }), h::pickOf({ 1, 64, 1000 })); Peer l, p; l.listen(PORT); Socket s; s.connect("127.0.0.1", PORT); l.accept(p);
	bool set = chance(0.85); int t = T(); if (set) s.setSendTimeout(t); if (chance(0.3)) s.setReceiveTimeout(T());
	Str d = bytes(range(2100, 2500)); bool reads = !set || chance(0.5); int wait = reads ? h::pickOf({ 0, t / 2, 3 * t + 50 }) : 0; bool inTime = !set || wait < t; Peer *pp = &p; auto *got = new Str(); size_t n = d.size();
	if (reads) spawn("peer", [=] { h::pause((int64_t)wait * MS); while (got->size() < n) { char b[400]; ssize_t r = pp->recv(b, sizeof(b)); if (r <= 0) return; got->append(b, (size_t)r); } });
	int64_t t0 = now(); bool x; if (chance(0.5)) x = threw([&] { s.write(d.data(), d.size()); }); else { bool ok = false; s.write(&ok, d.data(), d.size()); x = !ok; } int64_t el = now() - t0;
	if (reads && inTime) SIM_CHECK(!x, "spurious-timeout", "a write failed although the peer read after %d ms (timeout %d)", wait, set ? t : 0);
	else { SIM_CHECK(x, "no-timeout", "a write to a stalled peer returned normally"); SIM_CHECK(el >= (int64_t)t * MS, "too-early", "timed out after %lld us instead of %d ms", (long long)(el / 1000), t); SIM_CHECK(el <= 2 * (int64_t)t * MS + 30 * MS, "too-late", "timed out after %lld ms instead of %d", (long long)(el / MS), t); }
	s.close(true); p.fd >= 0 ? (void)0 : (void)0; joinAll(); if (!x) SIM_CHECK(*got == d, "lost", "bytes lost"); delete got;
}
// option values read back, other socket untouched, failures reported
SCENARIO(options, 4)
{
	Peer l, p; l.listen(PORT); Socket a, b; b.bind(PORT + 1); int fb = net::newest(); a.connect("127.0.0.1", PORT); int fa = net::newest(); l.accept(p); net::Opt b0 = net::opts(fb);
	if (chance(0.4)) { allow("setsockopt.ENOBUFS", 0.2); allow("setsockopt.EINVAL", 0.2); allow("getsockopt.ENOBUFS", 0.3); }
	net::Opt ref = net::opts(fa);
	for (int i = range(1, 8); i > 0; i--) {
		uint64_t f0 = firedTotal(); bool x = false; int v = chance(0.5) ? h::pickOf({ 0, 1, 999, 1000, 1001, 54000, 12000, 2147483, 2147483647 }) : range(0, 100000); int got = -1; net::Opt was = ref;
		int op = (int)choose(10);
		x = threw([&] { switch (op) {
			case 0: ref.rcvtimeo_us = v * 1000ll; a.setReceiveTimeout(v); break;
			case 1: ref.sndtimeo_us = v * 1000ll; a.setSendTimeout(v); break;
			case 2: v &= 0xffffff; ref.rcvbuf = std::max(2304, 2 * v); a.setReceiveBufferSize(v); break;
			case 3: v &= 0xffffff; ref.sndbuf = std::max(4608, 2 * v); a.setSendBufferSize(v); break;
			case 4: { uint16_t on = (uint16_t)choose(2), sec = (uint16_t)h::pickOf({ 0, 1, 5, 300, 65535 }); ref.lingerOn = on; ref.lingerSec = sec; ref.lingerSet = true; a.setLinger(on, sec); break; }
			case 5: { int k = (int)choose(2); ref.keepalive = k; a.setSocketOption(SO_KEEPALIVE, k); break; }
			case 6: { int k = (int)choose(2); ref.nodelay = k; a.setSocketOption(TCP_NODELAY, k, IPPROTO_TCP); break; }
			case 7: got = a.getReceiveTimeout(); v = (int)(ref.rcvtimeo_us / 1000); break;
			case 8: got = a.getSendTimeout(); v = (int)(ref.sndtimeo_us / 1000); break;
			default: switch (choose(4)) { case 0: got = a.getReceiveBufferSize(); v = ref.rcvbuf; break; case 1: got = a.getSendBufferSize(); v = ref.sndbuf; break; case 2: v = ref.keepalive; got = a.getSocketOption(SO_KEEPALIVE); break; default: { int k = -1; v = ref.nodelay; a.getSocketOption(TCP_NODELAY, &k, IPPROTO_TCP); got = k; } }
		} });
		uint64_t f = firedTotal() - f0; SIM_CHECK(x == (f > 0), "option-report", "an option call %s (%d system failures, operation %d)", x ? "threw" : "returned", (int)f, op);
		if (x) { ref = was; continue; }
		if (op >= 7) SIM_CHECK(got == v, "read-back", "read back %d instead of %d (operation %d)", got, v, op);
		net::Opt n = net::opts(fa), bb = net::opts(fb);
		SIM_CHECK(memcmp(&n, &ref, sizeof(n)) == 0, "not-applied", "the option of operation %d (value %d) is not in effect: rcvto %lld/%lld sndto %lld/%lld rcvbuf %d/%d sndbuf %d/%d linger %d,%d/%d,%d", op, v, (long long)n.rcvtimeo_us, (long long)ref.rcvtimeo_us, (long long)n.sndtimeo_us, (long long)ref.sndtimeo_us, n.rcvbuf, ref.rcvbuf, n.sndbuf, ref.sndbuf, n.lingerOn, n.lingerSec, ref.lingerOn, ref.lingerSec);
		SIM_CHECK(memcmp(&bb, &b0, sizeof(bb)) == 0, "other-socket", "an option changed another socket");
	}
	disallowAll(); a.close(); bool x = threw([&] { a.setReceiveTimeout(5); }), y = threw([&] { a.getSendTimeout(); }); SIM_CHECK(x && y, "option-report", "option calls on a closed socket report nothing");
}
// options survive a move and the linger setting decides how a close looks to the peer
SCENARIO(moved, 1)
{
	noTimeSkips(); net::delays(0, 0); Peer l, p; l.listen(PORT); Socket a; a.connect("127.0.0.1", PORT); l.accept(p); int t = T(); a.setReceiveTimeout(t); bool hard = chance(0.5), any = chance(0.7); if (any) a.setLinger(hard ? 1 : (uint16_t)choose(2), hard ? 0 : 5);
	Socket b(std::move(a)); int64_t t0 = now(); char c; bool x = threw([&] { b.readSome(&c, 1); }); int64_t el = now() - t0; SIM_CHECK(x && el >= (int64_t)t * MS && el <= (int64_t)t * MS + 15 * MS, "moved", "the timeout is lost by a move"); SIM_CHECK(b.getReceiveTimeout() == t, "moved", "the timeout is lost by a move");
	b.close(); ssize_t r = p.recv(&c, 1); if (any && hard) SIM_CHECK(r < 0, "linger", "close with linger time 0 did not abort the connection"); else SIM_CHECK(r == 0, "linger", "close without abort was not orderly");
}
