#pragma once
#include "common.h"
#include <unistd.h>
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <cybozu/socket.hpp>
namespace sk {
using namespace sim;
typedef std::string Str;
inline bool threw(std::function<void()> f) { try { f(); } catch (cybozu::Exception&) { return true; } return false; }
// raw peer used by the harness; its calls never fail by injection
struct Peer {
	int fd = -1;
	~Peer() { close(); }
	void close() { net::PeerScope n; if (fd >= 0) ::close(fd); fd = -1; }
	bool connect4(uint16_t port) { net::PeerScope n; fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, "127.0.0.1", &a.sin_addr); return ::connect(fd, (sockaddr *)&a, sizeof(a)) == 0; }
	bool connect6(uint16_t port) { net::PeerScope n; fd = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 a; memset(&a, 0, sizeof(a)); a.sin6_family = AF_INET6; a.sin6_port = htons(port); inet_pton(AF_INET6, "::1", &a.sin6_addr); return ::connect(fd, (sockaddr *)&a, sizeof(a)) == 0; }
	void listen(uint16_t port, int family = AF_INET) {
		net::PeerScope n; fd = ::socket(family, SOCK_STREAM, 0); int r, one = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		if (family == AF_INET) { sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(port); r = ::bind(fd, (sockaddr *)&a, sizeof(a)); }
		else { sockaddr_in6 a; memset(&a, 0, sizeof(a)); a.sin6_family = AF_INET6; a.sin6_port = htons(port); r = ::bind(fd, (sockaddr *)&a, sizeof(a)); }
		if (r || ::listen(fd, 128)) fail("harness:listen", "cannot listen on %d", port);
	}
	void accept(Peer& c) { net::PeerScope n; c.fd = ::accept(fd, 0, 0); }
	ssize_t send(const void *p, size_t n) { net::PeerScope q; return ::send(fd, p, n, MSG_NOSIGNAL); }
	bool sendAll(const Str& s) { size_t k = 0; while (k < s.size()) { ssize_t r = send(s.data() + k, s.size() - k); if (r <= 0) return false; k += (size_t)r; } return true; }
	ssize_t recv(void *p, size_t n) { net::PeerScope q; return ::recv(fd, p, n, 0); }
	Str recvAll() { Str r; char b[4096]; for (;;) { ssize_t k = recv(b, sizeof(b)); if (k <= 0) return r; r.append(b, (size_t)k); } }
	void shut() { net::PeerScope q; ::shutdown(fd, SHUT_WR); }
};
// returns how many bytes may be moved without making the run too long
inline size_t netShape() { net::delays(0, h::pickOf<int64_t>({ 0, 200000, 5 * MS, 400 * MS })); int b = h::pickOf({ 65536, 4096, 64, 1 }), c = h::pickOf({ 65536, 4096, 64, 1 }); net::bufs(b, c); int m = std::min(b, c); return m == 1 ? 200 : m == 64 ? 2000 : 20000; }
inline void softFaults() { allow("recv.EINTR", 0.3, 20); allow("send.EINTR", 0.3, 20); allow("recv.short", 0.6); allow("send.short", 0.6); }
}
