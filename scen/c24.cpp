#include "sock.h"
SIM_PROPERTY("C24", "cybozu/socket.hpp (Socket read/write/close/shutdown/waitForClose/move)", "TCP stack (segmentation, delays, buffers, interrupts, partial transfers, resets), thread scheduling, raw peers")
using namespace sk;
typedef cybozu::Socket Socket;
static const uint16_t PORT = 5000;
static void makePair(Socket& a, Socket& b) { NoFault q; Socket l; l.bind(PORT); a.connect("127.0.0.1", PORT); l.accept(b); }
// one end of a connection: cybozu or raw
struct End { std::unique_ptr<Socket> s; Peer p; bool errored = false; bool raw() const { return !s; } };
struct Dir { Str data; Str got; bool wfail = false, rfail = false, eof = false, done = false, early = false; };
static uint64_t resets() { return fired("net.reset"); }
static void writer(End& e, Dir& d)
{
	size_t k = 0; bool first = true;
	while (k < d.data.size() || (first && chance(0.2))) {
		first = false; size_t n = std::min<size_t>(d.data.size() - k, smallSize(h::pickOf({ 8, 200, 5000 }))); if (n == 0 && !chance(0.1)) n = std::min<size_t>(1, d.data.size() - k);
		bool bad;
		if (e.raw()) bad = !e.p.sendAll(d.data.substr(k, n));
		else if (chance(0.5)) bad = threw([&] { e.s->write(d.data.data() + k, n); });
		else { bool b = chance(0.5); e.s->write(&b, d.data.data() + k, n); bad = !b; }
		if (bad) { SIM_CHECK(resets() > 0, "spurious-error", "a write failed although the connection is fine"); e.errored = true; d.wfail = true; return; }
		k += n;
		if (chance(0.1)) h::pause((int64_t)choose(20) * MS);
	}
	// end of data: orderly shutdown of this direction
	if (e.raw()) e.p.shut();
	else { bool x = threw([&] { e.s->shutdown(1); }); SIM_CHECK(!x || resets() > 0, "spurious-error", "shutdown failed although the connection is fine"); if (x) e.errored = true; }
	d.done = true;
}
static void reader(End& e, Dir& d)
{
	std::vector<char> buf;
	for (;;) {
		size_t n = 1 + smallSize(h::pickOf({ 4, 100, 6000 })); buf.assign(n + 2, 'Z'); size_t got = 0; bool bad = false, full = false;
		if (e.raw()) { ssize_t r = e.p.recv(buf.data() + 1, n); if (r < 0) bad = true; else got = (size_t)r; }
		else if (chance(0.3)) { // exact read
			full = true; size_t left = d.data.size() - d.got.size();
			bad = threw([&] { e.s->read(buf.data() + 1, n); });
			if (bad) { SIM_CHECK(n > left || resets() > 0, "read-failed", "an exact read of %zu bytes failed with %zu bytes to come", n, left); e.errored = e.errored || resets() > 0; d.rfail = true; return; }
			got = n;
		} else bad = threw([&] { got = e.s->readSome(buf.data() + 1, n); });
		if (bad) { SIM_CHECK(resets() > 0, "spurious-error", "a read failed although the connection is fine"); e.errored = true; d.rfail = true; return; }
		SIM_CHECK(got <= n && buf[0] == 'Z' && buf[n + 1] == 'Z', "overrun", "%zu bytes returned for a request of %zu", got, n);
		(void)full;
		d.got.append(buf.data() + 1, got);
		SIM_CHECK(d.data.compare(0, d.got.size(), d.got) == 0 && d.got.size() <= d.data.size(), "stream", "the bytes received are not the bytes sent (after %zu)", d.got.size());
		if (got == 0) {
			if (resets() > 0 && d.got.size() != d.data.size()) d.early = true; // legal only if the reset was reported to another call of this end
			SIM_CHECK(d.got.size() == d.data.size() || d.early, "early-eof", "end of stream reported after %zu of %zu bytes", d.got.size(), d.data.size());
			d.eof = true; return;
		}
		if (chance(0.1)) h::pause((int64_t)choose(20) * MS);
	}
}
SCENARIO(duplex, 6)
{
	size_t cap = netShape(); End *a = new End(), *b = new End(); Dir *ab = new Dir(), *ba = new Dir();
	int kind = (int)choose(3); // both ends cybozu, client raw, server raw
	{ NoFault q; Socket l; Peer pl;
	if (kind == 2) { pl.listen(PORT); a->s.reset(new Socket()); a->s->connect("127.0.0.1", PORT); pl.accept(b->p); }
	else { l.bind(PORT); if (kind == 1) a->p.connect4(PORT); else { a->s.reset(new Socket()); a->s->connect("127.0.0.1", PORT); } b->s.reset(new Socket()); l.accept(*b->s); } }
	size_t mx = std::min<size_t>(cap, h::pickOf({ 30, 3000, 20000 })); ab->data = bytes(smallSize((uint32_t)mx)); ba->data = bytes(chance(0.5) ? smallSize((uint32_t)mx) : 0);
	softFaults(); if (chance(0.25)) allow("net.reset", 0.05, 1);
	spawn("wa", [=] { writer(*a, *ab); }); spawn("wb", [=] { writer(*b, *ba); });
	spawn("ra", [=] { reader(*a, *ba); }); spawn("rb", [=] { reader(*b, *ab); });
	joinAll();
	if (resets() == 0) for (Dir *d : { ab, ba }) SIM_CHECK(d->done && (d->got == d->data || d->rfail), "lost", "%zu of %zu bytes arrived", d->got.size(), d->data.size());
	disallowAll();
	SIM_CHECK((!ab->early || b->errored || b->raw()) && (!ba->early || a->errored || a->raw()), "early-eof", "a reset connection was reported only as the end of the stream");
	delete a; delete b; delete ab; delete ba;
	SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open, %d wrong closes", net::sutFdCount(), fs::badCloses());
}
// data written before close arrives, then end of stream
SCENARIO(write_close, 3)
{
	size_t cap = netShape(); auto *a = new Socket(), *b = new Socket(); makePair(*a, *b); Str data = bytes(smallSize((uint32_t)std::min<size_t>(cap, h::pickOf({ 20, 4000 })))); softFaults(); bool wait = chance(0.5), late = chance(0.3);
	auto *st = new int[4]();
	spawn("w", [=] {
		a->write(data.data(), data.size());
		if (wait) { bool x = threw([&] { a->waitForClose(); }); SIM_CHECK(!x, "spurious-error", "waitForClose failed"); SIM_CHECK(st[0], "wait-early", "waitForClose returned before the peer closed"); }
		if (chance(0.5)) a->close(); delete a;
	});
	spawn("r", [=] {
		Str got; if (late) h::pause(3 * SEC); char buf[300];
		for (;;) { size_t n = b->readSome(buf, 1 + choose(300)); if (n == 0) break; got.append(buf, n); }
		SIM_CHECK(got == data, "lost", "%zu of %zu bytes arrived before the end of the stream", got.size(), data.size());
		st[0] = 1; b->close(); SIM_CHECK(!b->isValid(), "close", "valid after close"); delete b;
	});
	joinAll(); SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount()); delete[] st;
}
// waitForClose reports unexpected data
SCENARIO(wait_data, 1)
{
	netShape(); net::bufs(65536, 65536); Socket a, b; makePair(a, b); softFaults(); bool data = chance(0.5);
	spawn("peer", [&] { if (data) b.write("x", 1); h::pause((int64_t)choose(50) * MS); char c[4]; while (!data && b.readSome(c, 4)) {} b.close(); });
	bool x = threw([&] { a.waitForClose(); });
	SIM_CHECK(x == data, "wait-data", "waitForClose %s although the peer %s", x ? "threw" : "returned", data ? "sent data" : "just closed");
	joinAll();
}
// a failing close is reported and still happens once; concurrent closers
SCENARIO(closing, 2)
{
	auto *a = new Socket(), *b = new Socket(); makePair(*a, *b); int fdn = net::sutFdCount(); allow("close.EIO", 0.3); allow("close.EINTR", 0.3);
	auto *err = new int[3](); int nt = range(1, 3); auto *dt = new int[3]();
	for (int t = 0; t < nt; t++) spawn("closer", [=] { bool d = chance(0.5); bool ok = true; dt[t] = d; bool x = threw([&] { ok = a->close(d); }); SIM_CHECK(!x || !d, "close-throws", "close(dontThrow) threw"); if (x || !ok) err[t] = 1; });
	joinAll(); uint64_t f = fired("close.EIO") + fired("close.EINTR"); int e = err[0] + err[1] + err[2];
	SIM_CHECK((uint64_t)e == f, "close-report", "%d failures reported, %llu occurred", e, (unsigned long long)f);
	SIM_CHECK(!a->isValid() && net::sutFdCount() == fdn - 1 && fs::badCloses() == 0, "descriptor", "not closed exactly once");
	if (chance(0.5)) disallowAll(); // the destructor must not throw even if close fails
	delete a; delete b; disallowAll(); delete[] err; delete[] dt; SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "sockets left open");
}
// ownership moves
SCENARIO(moving, 2)
{
	netShape(); net::bufs(65536, 65536); Socket a, b; makePair(a, b); softFaults(); Str data = bytes(range(1, 60)); Socket other; if (chance(0.5)) { NoFault q; Socket l; l.bind(PORT + 1); Peer p; p.connect4(PORT + 1); l.accept(other); }
	b.write(data.data(), data.size() / 2);
	std::unique_ptr<Socket> c; bool viaOther = false;
	switch (choose(3)) { case 0: c.reset(new Socket(std::move(a))); break; case 1: other.moveFrom(a); viaOther = true; break; default: other = std::move(a); viaOther = true; }
	SIM_CHECK(!a.isValid(), "move", "the source is still valid after a move");
	Socket& n = viaOther ? other : *c; SIM_CHECK(n.isValid(), "move", "the target is not valid after a move");
	b.write(data.data() + data.size() / 2, data.size() - data.size() / 2);
	std::vector<char> buf(data.size()); n.read(buf.data(), buf.size()); SIM_CHECK(Str(buf.data(), buf.size()) == data, "move", "bytes lost by a move");
	a.close(); char x = 'x', y = 0; n.write(&x, 1); b.read(&y, 1); SIM_CHECK(y == 'x', "move", "the moved connection does not work");
	if (viaOther && chance(0.5)) { Socket e; other.moveFrom(e); SIM_CHECK(!other.isValid() && b.readSome(&y, 1) == 0, "move", "moving an empty socket must close the target"); }
	c.reset(); other.close(true); b.close(true);
	SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "%d sockets left open", net::sutFdCount());
}
// several threads take over or close one socket: exactly one gets it
SCENARIO(taking, 1)
{
	auto *a = new Socket(), *b = new Socket(); makePair(*a, *b); int nt = range(2, 3); auto *t = new Socket[3]; auto *how = new int[3](); int closers = 0;
	for (int i = 0; i < nt; i++) { how[i] = (int)choose(3); if (how[i] == 2) closers++; }
	for (int i = 0; i < nt; i++) spawn("taker", [=] { if (how[i] == 0) t[i].moveFrom(*a); else if (how[i] == 1) { Socket c(std::move(*a)); t[i] = std::move(c); } else a->close(); });
	joinAll(); int n = 0; for (int i = 0; i < nt; i++) n += t[i].isValid();
	SIM_CHECK(!a->isValid() && n <= 1 && (n == 1 || closers), "taken", "%d threads own the socket", n);
	SIM_CHECK(net::sutFdCount() == 1 + n && fs::badCloses() == 0, "descriptor", "%d descriptors for %d owners", net::sutFdCount(), n);
	for (int i = 0; i < nt; i++) if (t[i].isValid()) { char c = 'q', r = 0; t[i].write(&c, 1); b->read(&r, 1); SIM_CHECK(r == 'q', "taken", "the socket taken over does not work"); }
	delete[] t; delete a; delete b; delete[] how; SIM_CHECK(net::sutFdCount() == 0 && fs::badCloses() == 0, "descriptor", "sockets left open");
}
// writing to a connection that is gone is reported and does not kill the program
SCENARIO(broken, 1)
{
	netShape(); net::bufs(65536, 65536); Socket a, b; makePair(a, b); softFaults(); b.close(); h::pause(SEC); char c = 'c'; bool x = false; int n = 0;
	for (; n < 4 && !x; n++) { if (chance(0.5)) x = threw([&] { a.write(&c, 1); }); else { bool ok = true; a.write(&ok, &c, 1); x = !ok; } h::pause(SEC); }
	SIM_CHECK(x, "broken-write", "%d writes to a closed connection reported success", n);
}
// transfers beyond 2 GB
SCENARIO(huge, 0.3)
{
	Socket a, b; makePair(a, b); net::huge(net::newest()); allow("recv.short", 0.3, 3); allow("send.short", 0.3, 3); Socket& s = b;
	size_t n = h::pickOf<size_t>({ 0x7fffffff, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000005ull }); char *base = (char *)0x100000; size_t off = 0; size_t c0 = fs::hugeLog().size();
	bool rd = chance(0.5); if (rd) s.read(base, n); else s.write(base, n);
	auto& l = fs::hugeLog(); for (size_t i = c0; i < l.size(); i++) { SIM_CHECK(l[i].first == base + off, "huge", "transfer at a wrong address"); off += l[i].second; SIM_CHECK(off <= n, "huge", "more than %zu bytes transferred", n); }
	SIM_CHECK(off == n, "huge", "%zu of %zu bytes transferred", off, n);
}
// question and answer: readSome returns what has arrived and does not wait for more
SCENARIO(dialog, 1)
{
	net::delays(0, h::pickOf<int64_t>({ 0, 5 * MS })); Socket a, b; makePair(a, b); int rounds = range(1, 5); allow("read.EINTR", 0.3, 10); allow("write.EINTR", 0.3, 10);
	spawn("answer", [&] { for (int i = 0; i < rounds; i++) { char buf[64]; size_t n = b.readSome(buf, 1 + choose(64)); SIM_CHECK(n > 0, "early-eof", "end of stream in a dialog"); Str r(n, (char)i); while (n && buf[n - 1] != '.') { size_t m = b.readSome(buf, sizeof(buf)); SIM_CHECK(m > 0, "early-eof", "end of stream in a dialog"); n = m; } b.write("ok", 2); } });
	for (int i = 0; i < rounds; i++) { Str q = Str(choose(30), 'q') + '.'; a.write(q.data(), q.size()); Str r; while (r.size() < 2) { char buf[64]; size_t n = a.readSome(buf, sizeof(buf)); SIM_CHECK(n > 0, "early-eof", "end of stream in a dialog"); r.append(buf, n); } SIM_CHECK(r == "ok", "stream", "wrong answer"); }
	joinAll();
}
