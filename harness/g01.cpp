// G01: random generators: seeded ones repeat, unseeded ones take their seed from a simulated clock and process
#include "elem.hpp"
#include <new>
#include <unistd.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <Lintel/RandomBase.hpp>
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/MarsagliaRandom.hpp>
using namespace lintel;
namespace {
struct World { bool on; pid_t pid, ppid; struct timeval tv; unsigned asked; } world;
}
extern "C" {
pid_t getpid() __THROW { if (!world.on) return syscall(SYS_getpid); ++world.asked; return world.pid; }
pid_t getppid() __THROW { if (!world.on) return syscall(SYS_getppid); ++world.asked; return world.ppid; }
int gettimeofday(struct timeval *tv, void *) __THROW { if (!world.on) return syscall(SYS_gettimeofday, tv, NULL); ++world.asked; *tv = world.tv; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) __THROW { if (!world.on) return syscall(SYS_clock_gettime, c, t); ++world.asked; t->tv_sec = world.tv.tv_sec; t->tv_nsec = world.tv.tv_usec * 1000; return 0; }
time_t time(time_t *t) __THROW { time_t v; if (!world.on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = world.tv.tv_sec; if (t) *t = v; return v; }
}
namespace {
void newWorld() { world.pid = range(S_TIME, 0, 1, 4194303); world.ppid = range(S_TIME, 1, 0, 4194303); world.tv.tv_sec = range(S_TIME, 2, 0, 4000000000u); world.tv.tv_usec = range(S_TIME, 3, 0, 999999); simTime(range(S_TIME, 4, 0, 1000000)); }
// the published generator (Matsumoto and Nishimura, 2002), for comparison
struct RefMT { uint32_t m[624]; int n;
    RefMT(uint32_t s) { init(s); } RefMT(vector<uint32_t> a) { initArray(a); }
    void init(uint32_t s) { m[0] = s; for (n = 1; n < 624; ++n) m[n] = 1812433253u * (m[n - 1] ^ m[n - 1] >> 30) + n; }
    void initArray(vector<uint32_t> a) { init(19650218); size_t i = 1, j = 0; for (size_t k = std::max((size_t)624, a.size()); k; --k) { m[i] = (m[i] ^ (m[i - 1] ^ m[i - 1] >> 30) * 1664525u) + a[j] + (uint32_t)j; if (++i == 624) { m[0] = m[623]; i = 1; } if (++j == a.size()) j = 0; }
        for (int k = 623; k; --k) { m[i] = (m[i] ^ (m[i - 1] ^ m[i - 1] >> 30) * 1566083941u) - (uint32_t)i; if (++i == 624) { m[0] = m[623]; i = 1; } } m[0] = 0x80000000u; n = 624; }
    uint32_t randInt() { if (n >= 624) { for (int k = 0; k < 624; ++k) { uint32_t y = (m[k] & 0x80000000u) | (m[(k + 1) % 624] & 0x7fffffffu); m[k] = m[(k + 397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } n = 0; }
        uint32_t y = m[n++]; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; return y ^ y >> 18; }
};
struct Draw { unsigned kind; uint32_t max; };
template <class G> double draw(G &g, const Draw &d, const char *&bad) {
    bad = NULL; double v;
    switch (d.kind) {
    case 0: return g.randInt(); case 1: v = g.randInt(d.max); if (!(v < d.max)) bad = "randInt(max)"; return v; case 2: v = g.randIntUnbiased(d.max); if (!(v < d.max)) bad = "randIntUnbiased(max)"; return v;
    case 3: { unsigned long long x = g.randLongLong(); return (double)(x >> 32) * 7 + (double)(x & 0xffffffffu); }
    case 4: v = g.randDoubleOpen(); if (!(v >= 0 && v < 1)) bad = "randDoubleOpen"; return v; case 5: v = g.randDoubleClosed(); if (!(v >= 0 && v <= 1)) bad = "randDoubleClosed"; return v;
    case 6: v = g.randDouble(); if (!(v >= 0 && v < 1)) bad = "randDouble"; return v; case 7: v = g.randDoubleOpen53(); if (!(v >= 0 && v < 1)) bad = "randDoubleOpen53"; return v;
    case 8: v = g.randDoubleClosed53(); if (!(v >= 0 && v <= 1)) bad = "randDoubleClosed53"; return v; case 9: return g.randBool(); default: return g.randBoolFast(); }
}
const char *kinds[] = {"randInt", "randInt(max)", "randIntUnbiased", "randLongLong", "randDoubleOpen", "randDoubleClosed", "randDouble", "randDoubleOpen53", "randDoubleClosed53", "randBool", "randBoolFast"};
uint32_t seedOf(unsigned sub) { switch (choose(S_DATA, sub, 4)) { case 0: return range(S_DATA, sub, 1, 5); case 1: return 0xffffffffu - choose(S_DATA, sub, 4); default: return range(S_DATA, sub, 1, 0xffffffffu); } }
struct Any { virtual ~Any() { } virtual void seed(uint32_t) = 0; virtual bool array(const vector<uint32_t> &) = 0; virtual void check(const Draw &, unsigned times) = 0; virtual Any *copy() = 0; virtual void shuffle() = 0; virtual const char *name() = 0; unsigned reseeds; };
unsigned char fillNow;
void *place(size_t n) { unsigned char *p = (unsigned char *)::operator new(n); static const unsigned char f[] = {0, 255, 1, 0x5a, 0x80}; unsigned char c = f[choose(S_DATA, 5, 5)]; memset(p, c, n); if (choose(S_DATA, 6, 3) == 2) for (size_t i = 0; i < n; i += 61) p[i] = (unsigned char)choose(S_DATA, 7, 256); return p; }
template <class T> void drop(T *p) { p->~T(); ::operator delete(p); }
bool shuffled(MersenneTwisterRandom &g, RandomTempl<RefMT> &t) { unsigned n = choose(S_WORK, 20, 40); vector<int> v(n), w(n); for (unsigned i = 0; i < n; ++i) v[i] = w[i] = i * 3; MT_random_shuffle(v.begin(), v.end(), g); for (unsigned i = 1; i < n; ++i) t.randInt(i + 1); std::sort(v.begin(), v.end()); return v == w; }
template <class G, class T> bool shuffled(G &, T &) { return true; }
inline void arr(MersenneTwisterRandom &g, const vector<uint32_t> &a) { g.initArray(a); } template <class G> void arr(G &, const vector<uint32_t> &) { }
template <class G, class T> struct Gen : Any {
    G *g; T *t; const char *nm; bool isMT;
    Gen(const char *nm, uint32_t s, bool mt) : nm(nm), isMT(mt) { reseeds = 0; void *p = place(sizeof(G)), *q = place(sizeof(T)); newWorld(); g = new (p) G(s); newWorld(); t = new (q) T(s); }
    Gen(const Gen &o) : nm(o.nm), isMT(o.isMT) { reseeds = o.reseeds; g = new (place(sizeof(G))) G(*o.g); t = new (place(sizeof(T))) T(*o.t); }
    ~Gen() { drop(g); drop(t); }
    void fresh(T *n) { drop(t); t = n; ++reseeds; }
    void seed(uint32_t s) { newWorld(); g->init(s); newWorld(); fresh(new (place(sizeof(T))) T(s)); }
    bool array(const vector<uint32_t> &a) { if (!isMT) return false; newWorld(); string why; if (faultsEnabled()) maybeArm(0, 0.4, 2); Outcome r = attempt([&] { arr(*g, a); }, &why); disarmFault(); if (r == FAILED) { note("  refused: no memory for the seed"); return true; } SIM_CHECK(r == DONE, "valid-use-refused", "seeding with %zu numbers was refused: %s", a.size(), why.c_str()); T *n = new (place(sizeof(T))) T(1); twinArray(n, a); fresh(n); return true; }
    void twinArray(RandomTempl<RefMT> *n, const vector<uint32_t> &a) { n->~RandomTempl<RefMT>(); new (n) RandomTempl<RefMT>(a); } template <class X> void twinArray(X *, const vector<uint32_t> &) { }
    void check(const Draw &d, unsigned times) { for (unsigned i = 0; i < times; ++i) { const char *bad = NULL, *b2; if (choose(S_TIME, 5, 40) == 39) newWorld(); double a = draw(*g, d, bad); if (bad) violate("out-of-range", "%s: %s gave %.20g (max %u)", nm, bad, a, d.max); double b = draw(*t, d, b2); if (a != b) violate(isMT ? "sequence-wrong" : "not-repeated", "%s, seeded %u times: %s gives %.20g, where one seeded alike and used alike gives %.20g", nm, reseeds + 1, kinds[d.kind], a, b); stateHash((uint64_t)(a * 1e6)); } }
    Any *copy() { return new Gen(*this); } const char *name() { return nm; }
    void shuffle() { if (!shuffled(*g, *t)) violate("shuffle-loses", "a shuffled sequence is not a permutation of the original"); }
};
Any *make(unsigned k, uint32_t s) { switch (k) {
    case 0: return new Gen<MersenneTwisterRandom, RandomTempl<RefMT> >("MersenneTwisterRandom", s, true);
    case 1: return new Gen<MarsagliaRNGMicro, MarsagliaRNGMicro>("MarsagliaRNGMicro", s, false); case 2: return new Gen<MarsagliaRNGTiny, MarsagliaRNGTiny>("MarsagliaRNGTiny", s, false); case 3: return new Gen<MarsagliaRNGHuge, MarsagliaRNGHuge>("MarsagliaRNGHuge", s, false);
    case 4: return new Gen<MarsagliaRNGBig, MarsagliaRNGBig>("MarsagliaRNGBig", s, false); case 5: return new Gen<MarsagliaRNGMedium, MarsagliaRNGMedium>("MarsagliaRNGMedium", s, false); case 6: return new Gen<MarsagliaRNGSmall, MarsagliaRNGSmall>("MarsagliaRNGSmall", s, false);
    default: return new Gen<RandomTempl<Marsaglia<2048> >, RandomTempl<Marsaglia<2048> > >("Marsaglia<2048>", s, false); } }
SIM_SCENARIO("G01", repeat, 4) {
    throwingAsserts(); world = World(); world.on = true; newWorld(); vector<Any *> all; size_t blocks = libBlocks(); bool re = false; int ops = range(S_CFG, 0, 3, tierThorough() ? 120 : 50);
    for (int i = 0; i < ops; ++i) { unsigned op = choose(S_WORK, 0, 12);
        if (all.empty() || (op == 0 && all.size() < 5)) { unsigned k = choose(S_WORK, 1, 8); uint32_t s = seedOf(0); all.push_back(make(k, s)); ev("make", k, s); note("  %d: new %s seeded %u", i, all.back()->name(), s); continue; }
        Any *a = all[choose(S_WORK, 2, all.size())];
        if (op == 1) { uint32_t s = seedOf(1); a->seed(s); re = true; note("  %d: %s seeded again: %u", i, a->name(), s); }
        else if (op == 2) { vector<uint32_t> v(choose(S_WORK, 3, 6) == 5 ? range(S_WORK, 4, 600, 700) : range(S_WORK, 4, 1, 8)); for (auto &x : v) x = seedOf(2); if (a->array(v)) note("  %d: %s seeded with %zu numbers", i, a->name(), v.size()); re = true; }
        else if (op == 3 && all.size() < 5) { all.push_back(a->copy()); note("  %d: copy of %s", i, a->name()); probe("copied"); }
        else if (op == 4) { a->shuffle(); note("  %d: shuffle with %s", i, a->name()); }
        else if (op == 5 && all.size() > 1) { size_t x = choose(S_WORK, 5, all.size()); delete all[x]; all.erase(all.begin() + x); }
        else { Draw d; d.kind = choose(S_WORK, 6, 11); d.max = choose(S_WORK, 7, 3) == 2 ? 0xffffffffu - choose(S_WORK, 8, 3) * 0x3fffffffu : range(S_WORK, 8, 1, 1000); unsigned n = choose(S_WORK, 9, 5) == 4 ? range(S_WORK, 10, 100, 1500) : range(S_WORK, 10, 1, 70); note("  %d: %u of %s from %s", i, n, kinds[d.kind], a->name()); a->check(d, n); ev("draw", d.kind, n); }
    }
    for (Any *a : all) delete a; all.clear(); SIM_CHECK(libBlocks() == blocks, "memory-leaked", "%zu blocks left", libBlocks() - blocks); world.on = false; if (re) nontrivial();
}
// generators without a seed
SIM_SCENARIO("G01", unseeded, 2) {
    throwingAsserts(); world = World(); world.on = true; newWorld(); bool odd = false;
    for (int i = 0, n = range(S_CFG, 0, 1, 8); i < n; ++i) {
        newWorld(); World w = world; MersenneTwisterRandom *a = new (place(sizeof *a)) MersenneTwisterRandom; uint32_t sa = a->seedUsed(); unsigned how = choose(S_WORK, 0, 4); static const char *hows[] = {"the same", "another process", "another second", "another microsecond"}; world = w;
        if (how == 1) world.pid = (w.pid + range(S_WORK, 1, 0, 4194000)) % 4194303 + 1; else if (how == 2) world.tv.tv_sec = (w.tv.tv_sec + range(S_WORK, 1, 1, 100000)); else if (how == 3) world.tv.tv_usec = (w.tv.tv_usec + range(S_WORK, 1, 1, 999999)) % 1000000;
        bool same = world.pid == w.pid && world.tv.tv_sec == w.tv.tv_sec && world.tv.tv_usec == w.tv.tv_usec; MersenneTwisterRandom *b = new (place(sizeof *b)) MersenneTwisterRandom; uint32_t sb = b->seedUsed(); note("  two unseeded generators (%s): %u %u", hows[how], sa, sb); ev("unseeded", how);
        if (!same) { odd = true; SIM_CHECK(sa != sb, "seed-not-varied", "generators made in %s have the same seed %u", hows[how], sa); }
        RandomTempl<RefMT> r(sa); MersenneTwisterRandom *c = new (place(sizeof *c)) MersenneTwisterRandom(seedOf(0)); uint32_t s0 = seedOf(1); c->init(s0); SIM_CHECK(c->seedUsed() == s0, "seed-unknown", "seeded with %u, tells %u", s0, c->seedUsed()); c->init(sa);
        for (int k = range(S_WORK, 2, 1, 700); k > 0; --k) { uint32_t x = a->randInt(), y = r.randInt(), z = c->randInt(); SIM_CHECK(x == y && x == z, "seed-untrue", "the seed that the generator tells, %u, gives %u or %u where it gave %u", sa, y, z, x); }
        drop(a); drop(b); drop(c); stateHash(sa);
    }
    world.on = false; if (odd) nontrivial();
}
// derived draws from extreme raw numbers
struct Script { static uint32_t next; static unsigned drawn; Script(uint32_t = 0) { } uint32_t randInt() { ++drawn; if (drawn > 200) return next; static const uint32_t x[] = {0, 1, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 31, 63, 0xffffffe0u, 0xffffffc0u}; return next = choose(S_DATA, 10, 3) ? x[choose(S_DATA, 11, 10)] : range(S_DATA, 12, 0, 0xffffffffu); } };
uint32_t Script::next; unsigned Script::drawn;
SIM_SCENARIO("G01", extremes, 1) {
    throwingAsserts(); RandomTempl<Script> g; int n = range(S_CFG, 0, 5, 60);
    for (int i = 0; i < n; ++i) { Script::drawn = 0; Draw d; d.kind = choose(S_WORK, 0, 11); d.max = choose(S_WORK, 1, 2) ? range(S_WORK, 2, 1, 1000) : 0xffffffffu - choose(S_WORK, 2, 3) * 0x3fffffffu; const char *bad; double v = draw(g, d, bad); SIM_CHECK(!bad, "out-of-range", "%s (max %u) gave %.20g of raw number %u", bad, d.max, v, Script::next); ev("extreme", d.kind); stateHash((uint64_t)(v * 1e6)); }
    nontrivial();
}
}
