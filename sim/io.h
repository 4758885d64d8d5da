#pragma once
#include "internal.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/stat.h>
namespace sim {

struct PendOp { enum K { WRITE, TRUNC } k; uint64_t off; std::string data; };
struct Inode {
	int id = 0;
	std::string data;                 // what the running system sees
	std::string dur;                  // what a crash leaves for sure
	std::vector<PendOp> pend;         // changes not yet made durable
	bool isDir = false;
	bool everDurable = false;
	int dtype = -1;
	size_t cap = 0;
};
typedef std::shared_ptr<Inode> InodeP;
struct Pipe { std::string buf; size_t cap = 65536; int readers = 0, writers = 0; };
struct Sock;
struct Epoll { std::map<int, std::pair<uint32_t, uint64_t>> w; };

struct Ofd {
	enum Kind { FILE_, PIPE_R, PIPE_W, SOCK, URANDOM, NULLDEV, EPOLL, DIR_, STDIO, HUGE_ } kind = FILE_;
	InodeP ino;
	uint64_t off = 0;
	int flags = 0;
	std::shared_ptr<Pipe> pipe;
	std::shared_ptr<Sock> sock;
	std::shared_ptr<Epoll> ep;
	std::string path;
	uint64_t urand = 0;
	int refs = 0;
};
typedef std::shared_ptr<Ofd> OfdP;
struct FdEnt { OfdP o; bool cloexec = false; };
struct FdTable { std::map<int, FdEnt> t; };

FdTable& fdt();                       // table of the current simulated process
FdTable& fdtOf(int role);
int allocFd(OfdP o, int minFd = -1);
Ofd *getFd(int fd);                   // nullptr if not a simulated descriptor
OfdP getFdP(int fd);
bool simRange(int fd);
void dropFd(FdTable& t, int fd);
void releaseOfd(OfdP o);
bool isSimPath(const char *p);
extern int g_badClose;

// network
ssize_t sockRecv(OfdP o, void *buf, size_t n, int flags);
ssize_t sockSend(OfdP o, const void *buf, size_t n, int flags);
void sockClose(Ofd *o);
bool sockReadable(Sock *s);
bool sockWritable(Sock *s);
bool sockError(Sock *s);
bool sockHup(Sock *s);
bool fdReadable(Ofd *o);
bool fdWritable(Ofd *o);
size_t sockAvail(Sock *s);
ssize_t err(int e);

} // sim
