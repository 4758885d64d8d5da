// Simulated byte sources and sinks: the simulator decides every chunk size and failure.
#pragma once
#include "common.h"
#include <istream>
#include <ostream>
#include <streambuf>
namespace st {
struct Broken : std::exception { const char *what() const noexcept override { return "simulated stream failure"; } };
// fault kinds: src.short (fewer bytes than asked), src.error (the call throws), sink.error
inline void sourceFaults() { sim::allow("src.short", 0.9); sim::allow("src.error", 0.1); }
inline void sinkFaults() { sim::allow("sink.error", 0.15); }
inline size_t chunk(size_t n) { return n > 1 && sim::fault("src.short") ? 1 + sim::choose((uint32_t)std::min<size_t>(n - 1, 4000)) : n; }
// user-defined source
struct Src {
	std::string d; size_t pos = 0; int calls = 0, failedAt = -1; uint64_t errors = 0; bool sticky = false, sawEof = false;
	explicit Src(const std::string& s) : d(s) {}
	size_t readSome(void *buf, size_t n)
	{
		calls++;
		if ((sticky && errors) || sim::fault("src.error")) { errors++; throw Broken(); }
		n = std::min(n, d.size() - pos);
		n = n ? chunk(n) : 0;
		if (!n) sawEof = true;
		memcpy(buf, d.data() + pos, n); pos += n;
		return n;
	}
};
// user-defined sink: all or nothing per call, like the documented contract
struct Dst {
	std::string d; uint64_t errors = 0, calls = 0;
	void write(const void *buf, size_t n)
	{
		calls++;
		if (sim::fault("sink.error")) { errors++; throw Broken(); }
		d.append((const char *)buf, n);
	}
	void write(bool *pb, const void *buf, size_t n)
	{
		calls++;
		if (sim::fault("sink.error")) { errors++; *pb = false; return; }
		d.append((const char *)buf, n); *pb = true;
	}
};
// std::istream over a chunking, failing buffer
struct InBuf : std::streambuf {
	std::string d; size_t pos = 0; char b[64]; uint64_t errors = 0;
	explicit InBuf(const std::string& s) : d(s) {}
	int_type underflow() override
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (sim::fault("src.error")) { errors++; throw Broken(); }
		size_t n = std::min(d.size() - pos, sizeof(b));
		if (!n) return traits_type::eof();
		n = chunk(n);
		memcpy(b, d.data() + pos, n); pos += n;
		setg(b, b, b + n);
		return traits_type::to_int_type(b[0]);
	}
	size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
};
struct OutBuf : std::streambuf {
	std::string d; uint64_t errors = 0;
	std::streamsize xsputn(const char *p, std::streamsize n) override
	{
		if (n && sim::fault("sink.error")) { errors++; size_t k = n ? sim::choose((uint32_t)n) : 0; d.append(p, k); return (std::streamsize)k; }
		d.append(p, (size_t)n); return n;
	}
	int_type overflow(int_type c) override { char x = (char)c; return xsputn(&x, 1) == 1 ? c : traits_type::eof(); }
};
struct In : std::istream { InBuf sb; explicit In(const std::string& s) : std::istream(nullptr), sb(s) { rdbuf(&sb); } };
struct Out : std::ostream { OutBuf sb; Out() : std::ostream(nullptr) { rdbuf(&sb); } };
inline bool allHash(const std::string& s, size_t o, size_t n) { for (size_t i = 0; i < n; i++) if (s[o + i] != '#') return false; return true; }
template<class F> inline bool threw(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
}
