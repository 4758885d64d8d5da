// one job = work on objects nobody else uses; its result is a text that depends on the seed only
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/hash.hpp>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
#include <cybozu/format.hpp>
#include <cybozu/string.hpp>
#include <cybozu/string_operation.hpp>
#include <cybozu/base64.hpp>
#include <cybozu/stream.hpp>
#include <cybozu/serializer.hpp>
#include <cybozu/zlib.hpp>
#include <cybozu/csv.hpp>
#include <cybozu/config.hpp>
#include <cybozu/line_stream.hpp>
#include <cybozu/minixml.hpp>
#include <cybozu/option.hpp>
#include <cybozu/json.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/time.hpp>
#include <cybozu/exception.hpp>
#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#include <cybozu/bitvector.hpp>
#include <cybozu/array.hpp>
#include <cybozu/sucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/fmindex.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/env.hpp>
#include <cybozu/json.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/top_score.hpp>
#include <cybozu/nlp/random.hpp>
#include <sstream>
using namespace sim;
// JOB_ERR(e) is what a job adds to its result for an error it caught; with JOBS_OOM the text is left out, because a text that no memory can
// be found for may be shorter, and a failing allocation is always passed on
#ifdef JOBS_OOM
static bool g_reported; // the job got an error
#define JOB_NO(ok) if (!(ok)) g_reported = true
#define JOB_CATCH(o) catch (std::bad_alloc&) { throw; } catch (std::exception&) { g_reported = true; o += "error"; }
#define JOB_OS(os) if (!(os)) throw std::bad_alloc()
#else
#define JOB_NO(ok)
#define JOB_CATCH(o) catch (std::exception& x_) { o += x_.what(); }
#define JOB_OS(os)
#endif
typedef std::string Str;
struct R { uint64_t x; explicit R(uint32_t s) : x(s * 0x9e3779b97f4a7c15ull + 0x1234567) {} uint32_t operator()() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 24); } uint32_t operator()(uint32_t n) { return (*this)() % n; } Str str(size_t n) { Str s(n, 0); for (auto& c : s) c = (char)(*this)(); return s; } Str word(size_t n) { Str s(n, 0); for (auto& c : s) c = (char)('a' + (*this)(26)); return s; } };
template<class T> static Str hx(const T& x) { Str s((const char *)&x, sizeof(x)), r; for (unsigned char c : s) { char b[4]; snprintf(b, sizeof(b), "%02x", c); r += b; } return r; }
struct Job { const char *name; Str (*fn)(R&); };
static Str text(R& r) { Str s; for (int i = 0, n = 1 + r(8); i < n; i++) { s += r.word(1 + r(5)); s += "  "; } return s; }
static Str jSha1(R& r) { cybozu::Sha1 h; h.update(r.str(r(100))); Str d = h.digest(r.str(r(80))); return d + h.toString() + h.get(); }
static Str jSha256(R& r) { cybozu::Sha256 h; Str a = r.str(r(100)); h.update(a); return h.digest(r.str(r(80))); }
static Str jSha512(R& r) { cybozu::Sha512 h; Str a = r.str(r(200)); h.update(a); return h.digest(r.str(r(80))); }
static Str jHmac(R& r) { char b[32]; Str k = r.str(r(80)), m = r.str(r(80)); cybozu::hmac256(b, k.data(), k.size(), m.data(), m.size()); return Str(b, 32); }
static Str jHash(R& r) { Str m = r.str(r(60)); return hx(cybozu::siphash24(m.data(), m.size(), r(), r())) + hx(cybozu::hash32(m.data(), m.size())) + hx(cybozu::hash64(m.data(), m.size(), r())); }
static Str jItoa(R& r) { Str o, s = cybozu::itoa((int)r()) + cybozu::itoa((long long)r() * r()) + cybozu::itoa(r()) + cybozu::itohex(r()) + cybozu::itohex(r(), false, false) + cybozu::itobin((unsigned short)r()) + cybozu::itoaWithZero(r(1000), 6); cybozu::itoa(o, -(int)r(100000)); return s + o; }
static Str jAtoi(R& r) { Str d = std::to_string(r()); int64_t a = (int64_t)(unsigned long long)cybozu::atoi(d); uint32_t h = cybozu::hextoi(cybozu::itohex(r())); bool b; short t = cybozu::atoi(&b, d.c_str(), d.size()); Str e; try { int z = cybozu::atoi(r.word(3)); e = std::to_string(z); } JOB_CATCH(e) return hx(a) + hx(h) + (b ? hx(t) : "bad") + e; }
static Str jFormat(R& r) { Str s; cybozu::format(s, "%d %s %5.2f", (int)r(), r.word(r(300)).c_str(), r() / 7.0); return s + cybozu::format("%s|%08x", r.word(5).c_str(), r()); }
static cybozu::String ustr(R& r) { cybozu::String s; for (int i = 0, n = 1 + r(12); i < n; i++) { static const cybozu::Char t[] = { 'a', 'Z', 0x3042, 0x10437, 0xe9, ' ' }; s += t[r(6)]; } return s; }
static Str jString(R& r) { cybozu::String s = ustr(r), t = ustr(r); s += t; s.insert(r((uint32_t)s.size()), ustr(r)); s.erase(r((uint32_t)s.size()), r(3)); s.replace(0, 1, t); return s.toUtf8() + "|" + s.substr(r((uint32_t)s.size())).toUtf8() + hx(s.find(t)); }
static Str jUtf(R& r) { Str u = ustr(r).toUtf8(); cybozu::String16 w = cybozu::ToUtf16(u); Str b = cybozu::ToUtf8(w); cybozu::Char c; Str o; cybozu::Utf8ref ref(u); while (ref.next(&c)) o += hx(c); try { cybozu::String bad(r.str(5)); o += "ok"; } JOB_CATCH(o) return u + b + o; }
static Str jStrOp(R& r) { Str s = "  " + text(r); cybozu::Trim(s); Str l; cybozu::ToUpper(l, s); std::vector<Str> v; cybozu::Split(v, s, ' ', 5); Str o = s + l; for (auto& x : v) o += "[" + x + "]"; Str z = text(r); for (auto& x : cybozu::Split(z, ' ')) o += "<" + x + ">"; cybozu::Strip(z); return o + hx(cybozu::CaseCompare(s, l)) + hx(cybozu::CaseFind<char>(s, "a")) + (cybozu::CaseEqual(s, l) ? "eq" : "ne") + cybozu::TrimCopy(z); }
static Str jBase64(R& r) { Str in = r.str(r(300)), enc, dec; { cybozu::StringInputStream is(in); cybozu::StringOutputStream os(enc); cybozu::EncodeToBase64(os, is, 4 * (1 + r(19)), (int)r(2)); } { cybozu::StringInputStream is(enc); cybozu::StringOutputStream os(dec); cybozu::DecodeFromBase64(os, is); } return enc + (dec == in ? "ok" : "BAD"); }
static Str jSerial(R& r) { Str out; std::vector<uint32_t> v(r(10)); for (auto& x : v) x = r(); std::map<Str, int> m; for (int i = 0; i < 4; i++) m[r.word(3)] = (int)r(100); { cybozu::StringOutputStream os(out); cybozu::save(os, v); cybozu::save(os, m); cybozu::save(os, r.word(5)); } std::vector<uint32_t> v2; std::map<Str, int> m2; Str s2; cybozu::StringInputStream is(out); cybozu::load(v2, is); cybozu::load(m2, is); cybozu::load(s2, is); return out + (v == v2 && m == m2 ? "ok" : "BAD") + s2; }
static Str jZlib(R& r) { Str in = r(2) ? r.str(r(200)) : Str(r(600), 'a'), z, o; bool gz = r(2); { cybozu::StringOutputStream os(z); if (gz) { cybozu::ZlibCompressorT<cybozu::StringOutputStream, 64> c(os, true); c.write(in.data(), in.size()); c.flush(); } else { cybozu::ZlibCompressorT<cybozu::StringOutputStream, 64> c(os); c.write(in.data(), in.size()); c.flush(); } } if (gz && r(2)) { z[3] = (char)8; Str nm = r.word(r(6)); z.insert(10, nm.c_str(), nm.size() + 1); } { cybozu::StringInputStream is(z); cybozu::ZlibDecompressorT<cybozu::StringInputStream, 64> d(is, gz); char b[50]; for (;;) { size_t n = d.readSome(b, sizeof(b)); if (n == 0) break; o.append(b, n); } } return z + (o == in ? "ok" : "BAD"); }
static Str jCsv(R& r) { Str out; std::vector<Str> row; for (int i = 0, n = 1 + r(4); i < n; i++) { Str c = r.word(r(5)); if (r(2)) c += "\"x,y\r\n"; row.push_back(c); } { cybozu::StringOutputStream os(out); cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, ','); w.write(row.begin(), row.end()); w.write(row.begin(), row.end()); } cybozu::StringInputStream is(out); cybozu::CsvReaderT<cybozu::StringInputStream> rd(is, ','); std::vector<Str> got; Str o = out; while (rd.read(got)) o += got == row ? "ok" : "BAD"; return o; }
static Str jConfig(R& r) { Str t; for (int i = 0; i < 3; i++) t += "[s" + std::to_string(i) + "]\nkey" + std::to_string(i) + "=" + std::to_string(r(1000)) + "\nb=" + r.word(4) + "\n"; if (r(4) == 0) t += "bad line\n"; std::istringstream is(t); Str o; try { cybozu::Config c; c.load(is); for (int i = 0; i < 3; i++) { const cybozu::Config::Section *s = c.querySection("s" + std::to_string(i)); int k = s->getValue("key" + std::to_string(i)); o += std::to_string(k) + (Str)s->getValue("b") + std::to_string(s->getValue("none", (int)r(9))); } } JOB_CATCH(o) return o; }
static Str jLines(R& r) { Str t; for (int i = 0, n = r(6); i < n; i++) t += r.word(r(40)) + (r(2) ? "\r\n" : "\n"); cybozu::StringInputStream is(t); cybozu::LineStreamT<cybozu::StringInputStream> ls(is, 64); Str o, l; while (ls.next(l)) o += "[" + l + "]"; return o; }
static Str jXml(R& r) { Str t = "<?xml version=\"1.0\"?><a b=\"" + r.word(3) + "\"><c>" + r.word(4) + "&lt;" + "</c><d e='" + r.word(2) + "'/>" + (r(4) ? "</a>" : "</b>"); Str o; try { cybozu::MiniXml x; x.parse(t.data(), t.data() + t.size()); std::ostringstream os; os << x.get(); JOB_OS(os); o = os.str() + x.get().getFirstTagByName("c")->content; Str k = r.word(3) + "<&'" + r.word(1) + "\">" + r.word(2), g = cybozu::minixml::escape(k); o += g + cybozu::minixml::unescape(g); } JOB_CATCH(o) return o; }
static Str jOption(R& r) { int a, n; double dbl; Str f; Str sd = std::to_string(r(1000)) + ".25"; std::vector<int> v; bool b; cybozu::Option opt; opt.appendMust(&n, "n", "number"); opt.appendOpt(&a, 5, "a", "x"); opt.appendOpt(&dbl, 0.5, "d", "x"); opt.appendVec(&v, "v"); opt.appendBoolOpt(&b, "b"); opt.appendParam(&f, "file"); Str sn = std::to_string(r(1000)), sa = std::to_string(r(100)), s1 = std::to_string(r(10)), sf = r.word(4); const char *av[] = { "prog", "-n", sn.c_str(), "-d", sd.c_str(), "-a", r(5) ? sa.c_str() : "bad", sf.c_str(), "-v", s1.c_str(), "7", "9" }; bool ok = opt.parse((int)(sizeof(av) / sizeof(*av)) - (int)r(3), av); JOB_NO(ok); Str o = ok ? hx(dbl) + std::to_string(n) + "," + std::to_string(a) + "," + f : "no"; if (ok) for (int x : v) o += "," + std::to_string(x); return o; }
static Str jRand(R& r) { cybozu::XorShift x(r(), r(), r(), r()); cybozu::XorShift128Plus y(r(), r() + 1); cybozu::Xoroshiro128Plus z(r(), r() + 1); cybozu::Pcg32 p(r()); cybozu::nlp::NormalRandomGenerator g(0, 1, (int)r(100)); Str o; for (int i = 0; i < 4; i++) o += hx(x.get32()) + hx(x.get64()) + hx(y.get64()) + hx(z.get64()) + hx(p.get32()) + hx(g.get()); uint8_t b[8]; bool ok; x.read(&ok, b, 8); return o + hx(b); }
static Str jTime(R& r) { cybozu::Time t((time_t)r(), (int)r(1000)); Str s = t.toString(), u; t.toString(u, false); cybozu::Time b(s); cybozu::Time c; bool ok; c.fromString(&ok, u + "x"); return s + u + std::to_string(b.getTime()) + "." + std::to_string(b.getMsec()) + (ok ? "ok" : "no"); }
static Str jErr(R& r) { int e = r(3) ? 1 + (int)r(30) : 500 + (int)r(1000); Str s = cybozu::ConvertErrorNoToString(e) + cybozu::ErrorNo(e + 1).toString(); cybozu::Exception x("a:b"); x << (int)r(100) << r.word(3) << 1.5; try { throw x; } catch (cybozu::Exception& y) { JOB_NO(false); s += y.what(); } return s; }
static Str jBits(R& r) { char b[16] = {}; cybozu::Set32bitAsBE(b, r()); cybozu::Set64bitAsLE(b + 4, (uint64_t)r() * r()); uint64_t v = ((uint64_t)r() << 32 | r()) | 1; return Str(b, 16) + hx(cybozu::Get32bitAsLE(b)) + hx(cybozu::Get16bitAsBE(b + 3)) + hx(cybozu::bsf<uint64_t>(v)) + hx(cybozu::bsr<uint64_t>(v)) + hx(cybozu::popcnt<uint64_t>(v)); }
static Str jBitVec(R& r) { cybozu::BitVector v; for (int i = 0, n = 1 + r(6); i < n; i++) v.append(r(), 1 + r(32)); cybozu::BitVector d; size_t p = r((uint32_t)v.size()); v.extract(d, p, v.size() - p); v.append(d); Str o; for (size_t i = 0; i < v.size(); i++) o += v.get(i) ? '1' : '0'; return o; }
static Str jArray(R& r) { cybozu::AlignedArray<uint32_t> a(r(20)); for (size_t i = 0; i < a.size(); i++) a[i] = r(); cybozu::AlignedArray<uint32_t> b(a); b.resize(30); b.swap(a); Str o; for (size_t i = 0; i < b.size(); i++) o += hx(b[i]) + hx(a[i]); return o + hx((uintptr_t)a.data() % 16); }
static Str jSuc(R& r) { size_t n = 1 + r(900); std::vector<uint64_t> w((n + 63) / 64); for (size_t i = 0; i < n; i++) if (r(3) == 0) w[i / 64] |= 1ull << (i % 64); cybozu::SucVector v(&w[0], n); Str o; for (int i = 0; i < 5; i++) { o += hx(v.rank1(r((uint32_t)n))); uint64_t k = v.size(true); if (k) o += hx(v.select1(r((uint32_t)k))); } return o; }
static Str jWave(R& r) { std::vector<uint8_t> v(1 + r(120)); for (auto& x : v) x = (uint8_t)r(16); cybozu::WaveletMatrix w; w.init(v, 4); Str o; for (int i = 0; i < 4; i++) { uint32_t p = r((uint32_t)v.size()); o += hx(w.get(p)) + hx(w.rank(v[p], p)) + hx(w.select(v[p], w.rank(v[p], p))) + hx(w.rankLt(8, p)); } return o; }
static Str jFm(R& r) { Str t; for (int i = 0, n = 10 + r(50); i < n; i++) t += (char)('a' + r(3)); cybozu::FMindex f; f.init(t.begin(), t.end(), 1 + r(5)); size_t b, e; Str o; for (int i = 0; i < 3; i++) { Str k; for (int j = 0, m = 1 + r(3); j < m; j++) k += (char)('a' + r(3)); if (f.getRange(&b, &e, k)) o += hx(e - b) + hx(f.convertPosition(b)); else o += "-"; } return o; }
static Str jFreq(R& r) { std::vector<Str> v; for (int i = 0, n = 1 + r(20); i < n; i++) v.push_back(r.word(1)); cybozu::Frequency<Str, uint32_t> f(v.begin(), v.end()); Str o; for (size_t i = 0; i < f.size(); i++) o += f.getElement(i) + hx(f.getFrequency(f.getElement(i))); return o; }
static Str jSparse(R& r) { typedef cybozu::nlp::SparseVector<double, cybozu::nlp::option::CompressedPositionTbl> V; V a, b; size_t p = 0; for (int i = 0, n = 1 + r(6); i < n; i++) { p += 1 + r(70000); a.push_back(p, r(100)); if (r(2)) b.push_back(p, r(100)); } Str o = hx(a.norm()); cybozu::nlp::Intersection<V, V> x(a, b); for (cybozu::nlp::Intersection<V, V>::const_iterator i = x.begin(), e = x.end(); i != e; ++i) o += hx(i->pos()) + hx(i->val1() * i->val2()); cybozu::nlp::TopScore<int> t(3); for (int i = 0; i < 8; i++) t.add(r(50), i); for (auto& q : t.getTable()) o += hx(q.score) + hx(q.idx); return o; }
static Str jEnv(R& r) { Str v; bool b = cybozu::QueryEnv(v, "SIM_NO_SUCH_VARIABLE"); return (b ? "yes" : "no") + cybozu::GetEnv("SIM_NO_SUCH_VARIABLE", r.word(5)); }
static Str jsonText(const cybozu::Json::Value& v) { Str o; if (v.isNull()) return "null"; if (v.isBool()) return v.getBool() ? "true" : "false"; if (v.isNumber()) return hx(v.getNumber()); if (v.isString()) return "'" + v.getString() + "'"; if (v.isArray()) { for (auto& x : v.getArray()) o += jsonText(x) + ","; return "[" + o + "]"; } for (auto& x : v.getObject()) o += x.first + ":" + jsonText(x.second) + ","; return "{" + o + "}"; }
static Str jJson(R& r) { typedef cybozu::Json J; J::Array a; for (int i = 0, n = 1 + r(5); i < n; i++) switch (r(4)) { case 0: a.push_back(J::Value((double)r(100))); break; case 1: a.push_back(J::Value(r.word(1 + r(30)))); break; case 2: a.push_back(J::Value(r(2) == 1)); break; default: a.push_back(J::Value()); } J::Object o; o["a"] = J::Value(a); o["s"] = J::Value(r.word(20)); J::Value v(o), w; w = v; v = J::Value("x"); J::Array b; b.push_back(w); b.push_back(v); J::Value z(b); v.swap(z); return jsonText(v) + jsonText(w) + jsonText(z); }
static Str jStr16(R& r) { cybozu::String s = ustr(r), t = ustr(r); cybozu::String16 a = s.toUtf16(); Str u = t.toUtf8(); cybozu::String x(a), y(u); x.append(u); const cybozu::Char16 *ap = a.data(); y.append(ap, ap + a.size()); x.assign(y); y.insert(r((uint32_t)y.size()), t); cybozu::String w = x.substr(0, r((uint32_t)x.size())); cybozu::String16 b; cybozu::ConvertUtf8ToUtf16(&b, y.toUtf8()); return x.toUtf8() + "|" + cybozu::ToUtf8(b) + "|" + w.toUtf8() + (x < y ? "<" : ">") + hx(y.compare(s)); }
static const Job g_jobs[] = { { "sha1", jSha1 }, { "sha256", jSha256 }, { "sha512", jSha512 }, { "hmac", jHmac }, { "hash", jHash }, { "itoa", jItoa }, { "atoi", jAtoi }, { "format", jFormat }, { "string", jString }, { "utf", jUtf }, { "strop", jStrOp }, { "base64", jBase64 }, { "serializer", jSerial }, { "zlib", jZlib }, { "csv", jCsv }, { "config", jConfig }, { "lines", jLines }, { "xml", jXml }, { "option", jOption }, { "random", jRand }, { "time", jTime }, { "error", jErr }, { "endian", jBits }, { "bitvector", jBitVec }, { "array", jArray }, { "sucvector", jSuc }, { "wavelet", jWave }, { "fmindex", jFm }, { "frequency", jFreq }, { "sparse", jSparse }, { "env", jEnv }, { "json", jJson }, { "string16", jStr16 } };
static const int JN = sizeof(g_jobs) / sizeof(*g_jobs);
