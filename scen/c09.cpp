#include "common.h"
#include <cybozu/log.hpp>
#include <syslog.h>
SIM_PROPERTY("C09", "cybozu/log.hpp (Logger, PutLog, Log), cybozu/format.hpp, cybozu/time.hpp, glibc stdio", "files (errors, short writes, full disk), syslog, stderr, wall clock (jumps), thread scheduling, operator new failure")
using namespace sim;

struct Msg { int th, no; int pri; std::string text; int64_t t0, t1; bool logged; };
struct Sh { std::vector<Msg> m; bool msec = false; int threshold = cybozu::LogInfo; };
static std::string body(int th, int no, size_t len)
{
	std::string s = "<" + std::to_string(th) + ":" + std::to_string(no) + ">";
	while (s.size() < len) s += (char)('a' + (s.size() * 7 + th * 3 + no) % 26);
	return s + "%s%d#";
}
static size_t pickLen() { return h::pickOf({ 0, 0, 10, 100, 1000, 1023, 1024, 4090, 5000, 9000 }); }
static void logOne(Sh *s, int th, int no)
{
	Msg m; m.th = th; m.no = no; m.pri = (int)choose(4); m.logged = m.pri >= s->threshold;
	std::string t;
	int how = (int)choose(3);
	{ Quiet q; m.text = t = body(th, no, pickLen()); m.t0 = realtime(); }
	size_t idx;
	{ Quiet q; idx = s->m.size(); s->m.push_back(m); }
	if (how == 0) cybozu::PutLog((cybozu::LogPriority)m.pri, "%s", t.c_str());
	else if (how == 1) { std::string a, b; { Quiet q; a = "<" + std::to_string(th) + ":"; b = t.substr(a.size() + std::to_string(no).size()); } cybozu::PutLog((cybozu::LogPriority)m.pri, "%s%d%s", a.c_str(), no, b.c_str()); }
	else { cybozu::Log lg((cybozu::LogPriority)m.pri); { Quiet q; lg << t.substr(0, t.size() / 2) << t.substr(t.size() / 2); } }
	Quiet q; s->m[idx].t1 = realtime();
}
static bool parseTime(const std::string& l, bool msec, int64_t *ms, size_t *len)
{
	struct tm tm; memset(&tm, 0, sizeof(tm)); int n = 0, mm = 0;
	if (sscanf(l.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &n) != 6 || n != 19) return false;
	if (msec) { int k = 0; if (sscanf(l.c_str() + n, ".%3d%n", &mm, &k) != 1 || k != 4) return false; n += k; }
	tm.tm_year -= 1900; tm.tm_mon -= 1;
	*ms = (int64_t)timegm(&tm) * 1000 + mm; *len = n;
	return true;
}
// every line of text is exactly one logged message; every logged message is there; order of one thread kept
static void verify(Sh *s, const std::string& text, const char *where, bool msec, bool jumps)
{
	Quiet q;
	std::map<std::string, int> byText;
	for (size_t i = 0; i < s->m.size(); i++) byText[s->m[i].text] = (int)i;
	std::vector<int> seen(s->m.size(), 0); std::map<int, int> lastNo;
	SIM_CHECK(text.empty() || text.back() == '\n', "torn-line", "%s does not end with a complete line", where);
	size_t p = 0;
	while (p < text.size()) {
		size_t e = text.find('\n', p);
		std::string l = text.substr(p, e - p); p = e + 1;
		int64_t ms; size_t tl;
		SIM_CHECK(parseTime(l, msec, &ms, &tl) && l.size() > tl && l[tl] == ' ', "torn-line", "%s: line without a time stamp: %.80s", where, l.c_str());
		auto it = byText.find(l.substr(tl + 1));
		SIM_CHECK(it != byText.end(), "torn-line", "%s: a line is not one logged message: %.100s", where, l.c_str());
		Msg& m = s->m[it->second];
		SIM_CHECK(m.logged, "priority", "a message below the threshold was written");
		SIM_CHECK(++seen[it->second] == 1, "duplicate", "message %d of thread %d was written twice", m.no, m.th);
		SIM_CHECK(!lastNo.count(m.th) || lastNo[m.th] < m.no, "order", "messages of one thread are out of order");
		lastNo[m.th] = m.no;
		if (!jumps) {
			int64_t g = msec ? 1 : 1000;
			SIM_CHECK(ms >= m.t0 / 1000000 / g * g && ms <= m.t1 / 1000000, "timestamp", "time stamp %lld of a message logged in [%lld,%lld] ms", (long long)ms, (long long)(m.t0 / 1000000), (long long)(m.t1 / 1000000));
		}
	}
	for (size_t i = 0; i < s->m.size(); i++) if (s->m[i].logged) SIM_CHECK(seen[i], "lost", "%s: message %d of thread %d is missing", where, s->m[i].no, s->m[i].th);
}
static void verifySyslog(Sh *s)
{
	Quiet q;
	std::map<std::string, int> cnt;
	auto& v = syslogEntries();
	static const int want[4] = { LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_CRIT };
	std::map<int, int> lastNo;
	for (auto& e : v) {
		std::string t = e.msg;
		if (!t.empty() && t.back() == '\n') t.pop_back();
		int k = -1;
		for (size_t i = 0; i < s->m.size(); i++) if (s->m[i].text == t) k = (int)i;
		SIM_CHECK(k >= 0, "torn-line", "syslog: an entry is not one logged message: %.100s", t.c_str());
		SIM_CHECK(++cnt[t] == 1, "duplicate", "syslog: message twice");
		SIM_CHECK(s->m[k].logged, "priority", "syslog: a message below the threshold was written");
		SIM_CHECK((e.pri & 7) == want[s->m[k].pri], "syslog-level", "priority %d logged as syslog level %d", s->m[k].pri, e.pri & 7);
		SIM_CHECK(!lastNo.count(s->m[k].th) || lastNo[s->m[k].th] < s->m[k].no, "order", "messages of one thread are out of order");
		lastNo[s->m[k].th] = s->m[k].no;
	}
	for (auto& m : s->m) if (m.logged) SIM_CHECK(cnt[m.text] == 1, "lost", "syslog: message %d of thread %d is missing", m.no, m.th);
}
static bool clockNoise() { bool j = chance(0.3); if (j) for (int i = 0; i < 3; i++) after((int64_t)range(1, 200) * 10000, [] { jumpRealtime((int64_t)h::pickOf({ -5000, 400, 86400000 }) * MS); }); return j; }
static void setup(Sh *s)
{
	s->msec = chance(0.5); s->threshold = (int)choose(4);
	cybozu::SetLogUseMsec(s->msec);
	static bool first = true; bool f = first; first = false;
	if (!f || s->threshold != cybozu::LogInfo || chance(0.5)) cybozu::SetLogPriority((cybozu::LogPriority)s->threshold);
}
static void writers(Sh *s, int base)
{
	int nt = range(1, 4), per = range(1, 4);
	for (int t = 0; t < nt; t++) spawn("log", [=] { for (int i = 0; i < per; i++) { logOne(s, base + t, i); if (chance(0.2)) h::pause(300 * MS); } });
	joinAll();
}
// several threads, one log file; short writes are ordinary
SCENARIO(to_file, 4)
{
	allow("write.short", 0.3);
	Sh *s = new Sh(); setup(s);
	bool pre = chance(0.4);
	if (pre) fs::put("/sim/log", "2001-02-03 04:05:06 old\n");
	cybozu::OpenLogFile("/sim/log");
	bool both = chance(0.3);
	if (both) cybozu::useSyslog(true);
	bool j = clockNoise();
	writers(s, 0);
	std::string t = fs::get("/sim/log"); // visible without closing the log
	if (pre) { SIM_CHECK(t.compare(0, 24, "2001-02-03 04:05:06 old\n") == 0, "overwrote", "the log file was not appended to"); t = t.substr(24); }
	verify(s, t, "log file", s->msec, j);
	if (both) verifySyslog(s); else SIM_CHECK(syslogEntries().empty(), "destination", "messages went to syslog after a log file was chosen");
	delete s;
}
// destinations are switched between phases; nothing leaks or is lost
SCENARIO(switching, 3)
{
	allow("write.short", 0.2);
	allow("open.EACCES", 0.4, 3); allow("open.EMFILE", 0.4, 3);
	int phases = range(1, 4);
	std::vector<Sh *> all; std::vector<int> kind; std::vector<FILE *> fps; std::vector<bool> sysl;
	int cur = -1; // -1: default destination (stderr and syslog)
	bool sl = true; FILE *mine = nullptr; std::string curPath;
	std::map<std::string, std::string> expectFile;
	int opened = 0;
	for (int ph = 0; ph < phases; ph++) {
		Sh *s = new Sh(); setup(s);
		switch (choose(4)) {
		case 0: {
			std::string p = "/sim/log" + std::to_string(ph);
			uint64_t f0 = firedTotal();
			try { cybozu::OpenLogFile(p); cur = 1; sl = false; curPath = p; opened = 1; if (fired("open.EACCES") + fired("open.EMFILE") != 0) {} } catch (std::exception&) { SIM_CHECK(firedTotal() > f0, "open", "OpenLogFile failed without reason"); }
			break; }
		case 1: {
			FILE *f; { NoFault n; f = fopen(("/sim/mine" + std::to_string(ph)).c_str(), "w"); }
			cybozu::SetLogFILE(f); cur = 2; sl = false; curPath = "/sim/mine" + std::to_string(ph); opened = 0; fps.push_back(f); mine = f;
			break; }
		case 2: cybozu::SetLogFILE(nullptr); cur = 0; sl = false; opened = 0; curPath.clear(); break;
		default: sl = chance(0.5); cybozu::useSyslog(sl); break;
		}
		size_t e0 = capturedStderr().size(); size_t y0 = syslogEntries().size();
		std::string before = curPath.empty() ? "" : fs::get(curPath);
		writers(s, ph * 10);
		Quiet q;
		if (!curPath.empty()) verify(s, fs::get(curPath).substr(before.size()), "chosen file", s->msec, false);
		else if (cur == -1) verify(s, capturedStderr().substr(e0), "stderr", s->msec, false);
		if (cur != -1) SIM_CHECK(capturedStderr().size() == e0, "destination", "messages went to stderr: %.80s", capturedStderr().substr(e0).c_str());
		std::vector<SyslogEntry> y(syslogEntries().begin() + y0, syslogEntries().end());
		if (sl) { auto sv = syslogEntries(); syslogEntries() = y; verifySyslog(s); syslogEntries() = sv; }
		else SIM_CHECK(y.empty(), "destination", "messages went to syslog");
		SIM_CHECK(fs::openFiles() == (int)fps.size() + opened, "file-leak", "%d streams open, expected %d (a stream handed to the logger must stay open, its own one is closed when replaced)", fs::openFiles(), (int)fps.size() + opened);
	}
	(void)mine;
	NoFault n;
	cybozu::SetLogFILE(nullptr);
	for (FILE *f : fps) { SIM_CHECK(fputc('x', f) != EOF, "closed-foreign", "the logger closed a stream it was lent"); fclose(f); }
}
// the default destination
SCENARIO(dflt, 1) { Sh *s = new Sh(); setup(s); bool j = clockNoise(); writers(s, 0); verify(s, capturedStderr(), "stderr", s->msec, j); verifySyslog(s); }
// failures: logging never throws or ends the program, and a message that did not reach the file is reported on stderr
SCENARIO(failing, 3)
{
	Sh *s = new Sh(); setup(s);
	cybozu::OpenLogFile("/sim/log");
	bool mem = chance(0.3);
	if (mem) allow("alloc", 0.3);
	else { allow("write.EIO", 0.5); allow("write.ENOSPC", 0.5); allow("write.short", 0.3); if (chance(0.3)) fs::diskLimit(range(0, 3000)); }
	int nt = chance(0.5) ? 0 : (int)range(1, 3), per = range(1, 6);
	if (nt == 0) {
		for (int i = 0; i < per; i++) {
			size_t e0 = capturedStderr().size();
			logOne(s, 0, i);
			Quiet q;
			Msg& m = s->m.back();
			if (!m.logged) continue;
			std::string l = " " + m.text + "\n";
			bool inFile = fs::get("/sim/log").find(l) != std::string::npos;
			bool reported = capturedStderr().size() > e0;
			SIM_CHECK(inFile || reported, "silent-loss", "a message reached neither the log file nor stderr");
		}
	} else {
		NoFault nf; // this thread only
		for (int t = 0; t < nt; t++) spawn("log", [=] { for (int i = 0; i < per; i++) logOne(s, t, i); });
		joinAll();
	}
	disallowAll();
	fs::diskLimit(-1);
	probe("survived");
}
