// T08: threads that use objects of their own (and const ones together) get what they would get alone
#include "h.hpp"
#include <Lintel/Base64.hpp>
#include <Lintel/BoyerMooreHorspool.hpp>
#include <Lintel/ByteBuffer.hpp>
#include <Lintel/Clock.hpp>
#include <Lintel/Deque.hpp>
#include <Lintel/Double.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashTupleStats.hpp>
#include <Lintel/HashUnique.hpp>
#include <Lintel/LeastSquares.hpp>
#include <Lintel/MarsagliaRandom.hpp>
#include <Lintel/MathSpecialFunctions.hpp>
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/PriorityQueue.hpp>
#include <Lintel/RotatingHashMap.hpp>
#include <Lintel/Stats.hpp>
#include <Lintel/StatsCube.hpp>
#include <Lintel/StatsHistogram.hpp>
#include <Lintel/StatsQuantile.hpp>
#include <Lintel/StatsSequence.hpp>
#include <Lintel/StringUtil.hpp>
#include <Lintel/Tuples.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <map>
#include <stdarg.h>
using lintel::ByteBuffer;
struct Op { unsigned kind, a, b, n; };
static const unsigned NKIND = 18;
static const char *KN[] = {"byte buffer", "quantile", "random", "hash map", "deque, queue, rotating map", "string functions", "base64", "search", "least squares", "statistics", "assertions", "tables of statistics", "numbers", "string error", "shared const map", "hash unique", "ipv4 and numbers", "special functions"};
typedef boost::tuple<int, string> Key; typedef lintel::HashTupleStats<Key> Table;
struct Shared { lintel::BoyerMooreHorspool *bmh; HashMap<string, int> *map; ByteBuffer *cbuf; Stats *stats; vector<string> text; };
static Shared *S;
struct Own { vector<ByteBuffer> bb; vector<string> ref; };
static string f(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static string out(const Stats &s) { std::ostringstream o; s.printText(o); s.printRome(1, o); return o.str(); }
struct R { uint64_t s; explicit R(const Op &o) : s(o.a * 7919ull + o.b * 104729ull + o.kind + 1) { } unsigned operator()(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(s >> 33) % n; } };
static string bytes(R &r, unsigned n, unsigned lo = 0, unsigned m = 256) { string s; for (unsigned i = 0; i < n; ++i) s += (char)(lo + r(m)); return s; }
static string doOp(const Op &o, Own &w) {
    R r(o); string d;
    switch (o.kind) {
    case 0: for (unsigned i = 0; i < o.n; ++i) {
            unsigned k = r(w.bb.size()), x = r(9), y = r(w.bb.size()); ByteBuffer &b = w.bb[k]; string &e = w.ref[k];
            if (x < 2) { string t = bytes(r, r(12)); b.append(t); e += t; }
            else if (x == 2) { unsigned c = r(e.size() + 1); b.consume(c); e.erase(0, c); }
            else if (x == 3) { if (!e.empty()) { unsigned at = r(e.size()); char c = (char)r(256); b.replace(at, &c, 1); e[at] = c; } }
            else if (x == 4) { b = w.bb[y]; e = w.ref[y]; }
            else if (x == 5) { ByteBuffer t(b); string te = e; t.append("zz", 2); te += "zz"; SIM_CHECK(string((const char *)t.readStart(), t.readAvailable()) == te, "buffer-contents", "a copy that was appended to has %zu bytes, expected %zu", t.readAvailable(), te.size()); }
            else if (x == 6) { b = ByteBuffer(*S->cbuf); e.assign((const char *)S->cbuf->readStart(), S->cbuf->readAvailable()); }
            else if (x == 7) { b.shift(); }
            else { b = ByteBuffer(true); e.clear(); }
            for (size_t j = 0; j < w.bb.size(); ++j) SIM_CHECK(w.bb[j].readAvailable() == w.ref[j].size() && (w.ref[j].empty() || memcmp(w.bb[j].readStart(), w.ref[j].data(), w.ref[j].size()) == 0), "buffer-contents", "after operation %u on buffer %u of this thread, its buffer %zu does not have its %zu bytes", x, k, j, w.ref[j].size());
            d += f("%zu,", b.readAvailable()); } break;
    case 1: { static const double eps[] = {0.1, 0.05, 0.02, 0.15}; StatsQuantile q(eps[o.a % 4], 100 + 1000 * (o.b % 5)); for (unsigned i = 0; i < o.n * 3; ++i) q.add(r(1000)); d += f("%d %d ", q.getBufferSize(), q.getNBuffers()); d += f("%g %g ", q.getQuantile(0.5), q.getQuantile(0.9)); std::ostringstream s; q.printTextRanges(s, 4); d += s.str(); } break;
    case 2: { if (o.a % 2) { MersenneTwisterRandom m(o.b + 1); for (unsigned i = 0; i < o.n; ++i) d += f("%u ", m.randInt()); d += f("%g", m.randDouble()); } else { lintel::MarsagliaRNGMicro m(o.b + 1); for (unsigned i = 0; i < o.n; ++i) d += f("%u ", m.randInt()); } } break;
    case 3: { HashMap<string, string> m; std::map<string, string> e; for (unsigned i = 0; i < o.n * 2; ++i) { string k = f("k%u", r(8)); if (r(4)) { m[k] = k + "v"; e[k] = k + "v"; } else { bool h = m.remove(k, false); SIM_CHECK(h == (e.erase(k) > 0), "map-contents", "removing %s said %d", k.c_str(), h); } d += m.dGet(f("k%u", r(8))); }
            for (int i = 0; i < 8; ++i) { string k = f("k%d", i); SIM_CHECK(m.dGet(k) == (e.count(k) ? e[k] : string()), "map-contents", "own map: key %s has %s", k.c_str(), m.dGet(k).c_str()); } d += f("%zu", m.size()); } break;
    case 4: { Deque<string> q; PriorityQueue<int> p; RotatingHashMap<string, int> m; for (unsigned i = 0; i < o.n * 2; ++i) { q.push_back(f("%u", r(100))); if (r(3) == 0) { d += q.front(); q.pop_front(); } p.push((int)r(1000)); m[f("r%u", r(6))] += i; if (r(4) == 0) m.rotate(); } while (!p.empty()) { d += f("%d ", p.top()); p.pop(); } for (size_t i = 0; i < q.size(); ++i) d += q.at(i); for (int i = 0; i < 6; ++i) { int *v = m.lookup(f("r%d", i)); d += f("/%d", v ? *v : -1); } } break;
    case 5: { string t = bytes(r, o.n * 2), t2 = bytes(r, o.n, 'a', 4); string h = hexstring(t); SIM_CHECK(hex2raw(h) == t, "hex", "hex2raw(hexstring(x)) != x"); d += h + maybehexstring(t2) + escapeUnprintable(t) + toCSVform(t) + mysqlEscape(t);
            vector<string> v = split(t2, "a"); SIM_CHECK(join("a", v) == t2, "split", "join(split(%s)) != it", t2.c_str()); d += f("%zu %d %d", v.size(), prefixequal(t2, "ab"), suffixequal(t2, "cd")); } break;
    case 6: { string t = bytes(r, o.n + 1); string e = lintel::ASCIIbeticalB64::encode(t, 0); string b = lintel::ASCIIbeticalB64::decode(e); b.resize(t.size()); SIM_CHECK(b == t, "base64", "decode(encode(x)) != x, %zu bytes", t.size()); d += e + lintel::ASCIIbeticalB64::encode((uint32_t)o.b * 77777u, 6); } break;
    case 7: { string t = bytes(r, o.n * 4, 'a', 3), n2 = bytes(r, 2, 'a', 3); size_t p = S->bmh->find(t.data(), t.size()), ep = t.find("abca"); SIM_CHECK(p == ep || (p == lintel::BoyerMooreHorspool::npos && ep == string::npos), "search", "found at %zu, expected %zu", p, ep); lintel::BoyerMooreHorspool own(n2); d += f("%zu %d", own.find(t.data(), t.size()), own.matches(t.data(), t.size())); } break;
    case 8: { LeastSquares l; for (unsigned i = 0; i < o.n + 2; ++i) l.add(i, r(50), 1 + r(3)); LeastSquares::Linear v = l.fitLinearVertical(); std::ostringstream s; l.printText(s); d += f("%.9g %.9g", v.intercept, v.slope) + s.str(); } break;
    case 9: { Stats s; StatsHistogramUniform hu(6, 0, 30); StatsSequence sq(4); for (unsigned i = 0; i < o.n * 2; ++i) { double v = r(40); s.add(v); hu.add(v); sq.add(v); } Stats t; t.add(s); t.add(*S->stats); d += out(s) + out(hu) + out(sq) + out(t) + s.debugString(); } break;
    case 10: { string msg; int x = (int)r(1000); bool ft = fatal([&] { INVARIANT(x < 0, boost::format("value %d of %d") % x % o.a); }, &msg); SIM_CHECK(ft && msg == f("value %d of %u", x, o.a), "assertion-message", "a failed assertion's message is \"%s\"", msg.c_str()); HashMap<int, int> m; d += f("%d", fatal([&] { m.cGet(x); })); d += msg; } break;
    case 11: { Table t; lintel::StatsCube<Key> c; for (unsigned i = 0; i < o.n; ++i) t.add(Key((int)r(3), f("s%u", r(2))), r(10)); std::map<string, string> x; t.walk([&](const Key &k, Stats &s) { x[f("%d%s", k.get<0>(), k.get<1>().c_str())] = f("%lu:%g", s.count(), s.total()); }); for (auto &p : x) d += p.first + "=" + p.second + " "; } break;
    case 12: { double a = r(1000) / 7.0; d += f("%d %d %g", Double::eq(a, a * (1 + 1e-14)), Double::lt(a, a + 1), stringToDouble(f("%u.25", r(1000)))); d += f("%d %lld", stringToInteger<int32_t>(f("%u", r(100000))), (long long)stringToInteger<int64_t>(f("-%x", r(100000)), 16)); d += f("%u", lintel::hashBytes(d.data(), d.size(), o.a)); } break;
    case 13: { int en[] = {2, 13, 28, 9999, 5000, -1}; int e = en[r(6)]; d += stringError(e) + stringError(en[r(6)]); char b[200]; SIM_CHECK(stringError(e) == strerror_r(e, b, sizeof b), "string-error", "stringError(%d) is %s", e, stringError(e).c_str()); } break;
    case 14: { for (unsigned i = 0; i < o.n; ++i) { string k = f("m%u", r(12)); const HashMap<string, int> &m = *S->map; unsigned n = atoi(k.c_str() + 1); bool in = n < 8; const int *v = m.lookup(k); SIM_CHECK((v != NULL) == in && (!v || *v == (int)n * 3), "shared-map", "key %s of the shared const map has %d", k.c_str(), v ? *v : -1); SIM_CHECK(m.dGet(k) == (in ? (int)n * 3 : 0), "shared-map", "dGet(%s) is %d", k.c_str(), m.dGet(k)); d += f("%d", m.exists(k)); } d += string((const char *)S->cbuf->readStart(), S->cbuf->readAvailable()); d += out(*S->stats); } break;
    case 15: { HashUnique<string> u; for (unsigned i = 0; i < o.n * 2; ++i) d += f("%d", u.add(f("u%u", r(7)))); } break;
    case 16: { unsigned ip = r(1u << 30); string s = ipv4tostring(ip); d += s; SIM_CHECK(stringtoipv4(s) == ip, "ipv4", "%s came back as another address", s.c_str()); d += f("%lld", (long long)Clock::secondsToTfrac(r(100) / 4.0)); d += f("%g", Clock::TfracToDouble((uint64_t)r(1000) << 30)); } break;
    case 17: { for (unsigned i = 0; i < o.n; ++i) d += f("%.9g %.9g %.9g ", unitNormalPDF(r(100) / 20.0), unitNormalCDF(r(40) / 10.0 - 2), probAbsNormal(r(100) / 30.0)); } break;
    }
    return d;
}
static string all(const vector<Op> &ops, Own &w, bool sim, vector<string> *each) {
    string d; for (size_t i = 0; i < ops.size(); ++i) { if (sim && faultsEnabled() && chance(S_FAULT, tid(), 0.1)) { fault("stalled thread"); sleepNs(1000 + range(S_FAULT, 32 + tid(), 0, 100000)); } string x = doOp(ops[i], w); if (sim) { uint64_t h = mix64(ops[i].kind); for (unsigned char c : x) h = mix64(h ^ c); NoPreempt np; ev(KN[ops[i].kind], tid(), (int)i, (int)(h & 0x7fffffff)); stateHash(h); } if (each) each->push_back(x); d += x + "\n"; }
    return d;
}
static void scenario(unsigned only) {
    throwingAsserts(); S = new Shared; S->bmh = new lintel::BoyerMooreHorspool("abca"); S->map = new HashMap<string, int>; for (int i = 0; i < 8; ++i) (*S->map)[f("m%d", i)] = i * 3; S->cbuf = new ByteBuffer(string("##shared contents"), true); S->cbuf->consume(2); S->stats = new Stats; for (int i = 0; i < 5; ++i) S->stats->add(i * 1.5);
    int nt = range(S_CFG, 0, 2, 4), no = range(S_CFG, 0, 1, only < NKIND ? 3 : 5); bool mix = only >= NKIND; unsigned k1 = choose(S_CFG, 0, NKIND); bool same = choose(S_CFG, 0, 2);
    vector<vector<Op> > ops(nt);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { Op o; o.kind = mix ? (choose(S_CFG, 0, 3) == 0 ? k1 : choose(S_CFG, 0, NKIND)) : only; o.a = choose(S_CFG, 0, 64); o.b = choose(S_CFG, 0, 64); o.n = range(S_CFG, 0, 1, 8); if (same && t > 0 && choose(S_CFG, 0, 2)) o = ops[0][i]; ops[t].push_back(o); }
    // what each thread gets alone: in another process, so that nothing is initialised yet when the threads start
    auto makeOwn = [&](bool shared, vector<ByteBuffer> *base) { Own w; for (size_t i = 0; i < base->size(); ++i) { const ByteBuffer &b = (*base)[i]; w.ref.push_back(string((const char *)b.readStart(), b.readAvailable())); w.bb.push_back(b); } (void)shared; return w; };
    vector<ByteBuffer> *base = new vector<ByteBuffer>; int nb = range(S_CFG, 0, 1, 3); for (int i = 0; i < nb; ++i) { ByteBuffer b(true); if (choose(S_CFG, 0, 2)) { b.append(string("consumed before")); b.append(f("initial contents of buffer %d", i)); b.consume(15); } else b.append(f("initial contents of buffer %d", i)); base->push_back(b); }
    int p[2]; if (pipe(p)) abort(); vector<vector<string> > alone(nt);
    pid_t c = fork();
    if (c == 0) { struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); string res; try { for (int t = 0; t < nt; ++t) { Own w = makeOwn(true, base); vector<string> e; all(ops[t], w, false, &e); for (auto &s : e) { uint32_t n = s.size(); res.append((char *)&n, 4); res += s; } } } catch (AssertBoostException &x) { fprintf(stderr, "alone: %s\n", x.msg.c_str()); _exit(3); } size_t at = 0; while (at < res.size()) { ssize_t n = write(p[1], res.data() + at, res.size() - at); if (n <= 0) _exit(2); at += n; } _exit(0); }
    close(p[1]); string in; char buf[4096]; for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) in.append(buf, n); close(p[0]); int st; waitpid(c, &st, 0); SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "alone-failed", "one of the operations failed with nothing else running (status %d)", st); if (in.size() < 4u * nt * no) return; // the other process has reported a violation
    { size_t at = 0; for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { uint32_t n; memcpy(&n, &in[at], 4); at += 4; alone[t].push_back(in.substr(at, n)); at += n; } }
    thrBegin(); vector<Own> *own = new vector<Own>; for (int t = 0; t < nt; ++t) own->push_back(makeOwn(true, base));
    bool drop = choose(S_CFG, 0, 2); vector<vector<string> > *got = new vector<vector<string> >(nt); vector<int> *done = new vector<int>(nt);
    for (int t = 0; t < nt; ++t) spawn([=] { try { Own w; { Own &x = (*own)[t]; w.bb.swap(x.bb); w.ref.swap(x.ref); } all(ops[t], w, true, &(*got)[t]); (*done)[t] = 1; } catch (AssertBoostException &e) { violate("assertion", "thread %d, operation %zu (%s): %s", t, (*got)[t].size(), KN[ops[t][(*got)[t].size() % no].kind], e.msg.c_str()); } });
    if (drop) base->clear();
    joinAll();
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { unsigned k = ops[t][i].kind; SIM_CHECK((*got)[t][i] == alone[t][i], "differs", "thread %d, %s: \"%.200s\", alone \"%.200s\"", t, KN[k], (*got)[t][i].c_str(), alone[t][i].c_str()); static string pr[NKIND]; pr[k] = string("ran: ") + KN[k]; probe(pr[k].c_str()); }
    SIM_CHECK(string((const char *)S->cbuf->readStart(), S->cbuf->readAvailable()) == "shared contents", "shared-changed", "the shared buffer changed");
    if (!drop) for (size_t i = 0; i < base->size(); ++i) SIM_CHECK(string((const char *)(*base)[i].readStart(), (*base)[i].readAvailable()) == f("initial contents of buffer %zu", i), "shared-changed", "buffer %zu changed though only copies of it were written", i);
    nontrivial(); thrEnd();
}
SIM_SCENARIO("T08", mixed, 3) { scenario(NKIND); }
SIM_SCENARIO("T08", one_kind, 3) { scenario(choose(S_CFG, 1, NKIND)); }
SIM_SCENARIO("T08", buffers, 2) { scenario(0); }
SIM_SCENARIO("T08", sketches, 1) { scenario(1); }
SIM_SCENARIO("T08", first_use, 1) { static const unsigned k[] = {6, 13, 10, 3, 9, 5}; scenario(k[choose(S_CFG, 1, 6)]); }
