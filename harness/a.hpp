// atomics: histories of operations on a few shared integers, checked against one total order
#include "h.hpp"
#include "tso.hpp"
#include <Lintel/AtomicCounter.hpp>
#include <set>
#include <map>
namespace {
enum { MAXOP = 64 };
struct Op { int kind, var, th; uint64_t inv, ret; int64_t a, b, r, r2; };
static Op g_op[MAXOP]; static int g_nop;
static inline Op *opBegin(int kind, int var, int64_t a, int64_t b) { NoPreempt np; SIM_CHECK(g_nop < MAXOP, "harness", "too many operations"); Op &o = g_op[g_nop++]; o.kind = kind; o.var = var; o.th = tid(); o.a = a; o.b = b; o.inv = eventSeq(); o.ret = 0; return &o; }
static inline void opEnd(Op *o, int64_t r, int64_t r2) { NoPreempt np; o->r = r; o->r2 = r2; o->ret = eventSeq(); ev("op", o->kind, r, r2); }
static const char *kindName(int k) { static const char *n[] = {"load", "isZero", "operator T", "fetch_add(0)", "store", "operator=", "exchange", "cas", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "+=", "-=", "|=", "&=", "^=", "x++", "x--", "++x", "--x", "incThenFetch", "decThenFetch", "addThenFetch",
    "unsafe load", "unsafe store", "unsafe exchange", "unsafe cas", "unsafe fetch_add", "unsafe fetch_sub", "unsafe fetch_or", "unsafe fetch_and", "unsafe fetch_xor"}; return n[k]; }
enum { K_LOAD, K_ISZERO, K_CONV, K_ADD0, K_STORE, K_ASSIGN, K_XCHG, K_CAS, K_FADD, K_FSUB, K_FOR, K_FAND, K_FXOR, K_ADDEQ, K_SUBEQ, K_OREQ, K_ANDEQ, K_XOREQ, K_POSTINC, K_POSTDEC, K_PREINC, K_PREDEC, K_INC, K_DEC, K_ADDT, K_ULOAD, K_USTORE, K_UXCHG, K_UCAS, K_UFADD, K_UFSUB, K_UFOR, K_UFAND, K_UFXOR, K_N };
// plain integers stand beside the atomics for the unsafe helpers
template<class T> struct Cell { lintel::Atomic<T> *at; T *pl; };
template<class T> static __attribute__((noinline)) void doOp(int kind, Cell<T> &c, int var, T a, T b) {
    lintel::Atomic<T> &x = *c.at; T *p = c.pl; T e = a; int64_t r = 0, r2 = 0; Op *o = opBegin(kind, var, (int64_t)a, (int64_t)b);
    switch (kind) {
    case K_LOAD: r = x.load(); break; case K_ISZERO: r = x.isZero(); break; case K_CONV: r = (T)x; break; case K_ADD0: r = x.fetch_add(0); break;
    case K_STORE: x.store(a); break; case K_ASSIGN: r = (x = a); break; case K_XCHG: r = x.exchange(a); break;
    case K_CAS: r = x.compare_exchange_strong(&e, b); r2 = e; break;
    case K_FADD: r = x.fetch_add(a); break; case K_FSUB: r = x.fetch_sub(a); break; case K_FOR: r = x.fetch_or(a); break; case K_FAND: r = x.fetch_and(a); break; case K_FXOR: r = x.fetch_xor(a); break;
    case K_ADDEQ: r = x += a; break; case K_SUBEQ: r = x -= a; break; case K_OREQ: r = x |= a; break; case K_ANDEQ: r = x &= a; break; case K_XOREQ: r = x ^= a; break;
    case K_POSTINC: r = x++; break; case K_POSTDEC: r = x--; break; case K_PREINC: r = ++x; break; case K_PREDEC: r = --x; break;
    case K_INC: r = x.incThenFetch(); break; case K_DEC: r = x.decThenFetch(); break; case K_ADDT: r = x.addThenFetch(a); break;
    case K_ULOAD: r = lintel::unsafe::atomic_load(p); break; case K_USTORE: lintel::unsafe::atomic_store(p, a); break; case K_UXCHG: r = lintel::unsafe::atomic_exchange(p, a); break;
    case K_UCAS: r = lintel::unsafe::atomic_compare_exchange_strong(p, &e, b); r2 = e; break;
    case K_UFADD: r = lintel::unsafe::atomic_fetch_add(p, a); break; case K_UFSUB: r = lintel::unsafe::atomic_fetch_sub(p, a); break; case K_UFOR: r = lintel::unsafe::atomic_fetch_or(p, a); break; case K_UFAND: r = lintel::unsafe::atomic_fetch_and(p, a); break; case K_UFXOR: r = lintel::unsafe::atomic_fetch_xor(p, a); break;
    }
    opEnd(o, r, r2);
}
// the model: value before -> value after, and whether the returned value is the promised one
template<class T> static bool apply(const Op &o, T v, T &n) {
    T a = (T)o.a, b = (T)o.b; n = v;
    switch (o.kind) {
    case K_LOAD: case K_CONV: case K_ULOAD: case K_ADD0: return o.r == (int64_t)v;
    case K_ISZERO: return o.r == (int64_t)(v == 0);
    case K_STORE: case K_USTORE: n = a; return true; case K_ASSIGN: n = a; return o.r == (int64_t)a;
    case K_XCHG: case K_UXCHG: n = a; return o.r == (int64_t)v;
    case K_CAS: case K_UCAS: if (v == a) { n = b; return o.r == 1 && o.r2 == (int64_t)a; } return o.r == 0 && o.r2 == (int64_t)v;
    case K_FADD: case K_UFADD: n = (T)(v + a); return o.r == (int64_t)v; case K_FSUB: case K_UFSUB: n = (T)(v - a); return o.r == (int64_t)v;
    case K_FOR: case K_UFOR: n = (T)(v | a); return o.r == (int64_t)v; case K_FAND: case K_UFAND: n = (T)(v & a); return o.r == (int64_t)v; case K_FXOR: case K_UFXOR: n = (T)(v ^ a); return o.r == (int64_t)v;
    case K_ADDEQ: case K_ADDT: n = (T)(v + a); return o.r == (int64_t)n; case K_SUBEQ: n = (T)(v - a); return o.r == (int64_t)n;
    case K_OREQ: n = (T)(v | a); return o.r == (int64_t)n; case K_ANDEQ: n = (T)(v & a); return o.r == (int64_t)n; case K_XOREQ: n = (T)(v ^ a); return o.r == (int64_t)n;
    case K_POSTINC: n = (T)(v + 1); return o.r == (int64_t)v; case K_POSTDEC: n = (T)(v - 1); return o.r == (int64_t)v;
    case K_PREINC: case K_INC: n = (T)(v + 1); return o.r == (int64_t)n; case K_PREDEC: case K_DEC: n = (T)(v - 1); return o.r == (int64_t)n;
    }
    return false;
}
template<class T> struct Lin {
    int nt; std::vector<std::vector<Op *> > q; std::set<std::vector<int64_t> > seen;
    bool go(std::vector<int> &at, std::vector<T> &v) {
        bool all = true; uint64_t minret = ~0ull;
        for (int t = 0; t < nt; ++t) if (at[t] < (int)q[t].size()) { all = false; minret = std::min(minret, q[t][at[t]]->ret); }
        if (all) return true;
        std::vector<int64_t> key(at.begin(), at.end()); for (size_t i = 0; i < v.size(); ++i) key.push_back((int64_t)v[i]);
        if (!seen.insert(key).second) return false;
        for (int t = 0; t < nt; ++t) if (at[t] < (int)q[t].size()) {
            Op &o = *q[t][at[t]]; if (o.inv > minret) continue;
            T n, old = v[o.var]; if (!apply<T>(o, old, n)) continue;
            v[o.var] = n; ++at[t]; if (go(at, v)) return true; --at[t]; v[o.var] = old;
        }
        return false;
    }
};
template<class T> static void checkHistory(const std::vector<T> &init) {
    Lin<T> l; std::map<int, int> ix; for (int i = 0; i < g_nop; ++i) { if (!ix.count(g_op[i].th)) { int k = (int)ix.size(); ix[g_op[i].th] = k; l.q.resize(k + 1); } l.q[ix[g_op[i].th]].push_back(&g_op[i]); }
    l.nt = (int)l.q.size(); std::vector<int> at(l.nt, 0); std::vector<T> v = init; bool conc = false;
    for (int i = 0; i < g_nop; ++i) { for (int j = 0; j < i && !conc; ++j) if (g_op[i].th != g_op[j].th && g_op[i].inv < g_op[j].ret && g_op[j].inv < g_op[i].ret) conc = true; stateHash(g_op[i].r * 31 + g_op[i].kind + 64 * g_op[i].th); }
    if (conc) nontrivial();
    if (l.go(at, v)) return;
    std::string s; for (int i = 0; i < g_nop; ++i) { char b[200]; snprintf(b, sizeof b, " T%d[%llu-%llu] %s v%d (%lld,%lld)=%lld/%lld;", g_op[i].th, (unsigned long long)g_op[i].inv, (unsigned long long)g_op[i].ret, kindName(g_op[i].kind), g_op[i].var, (long long)g_op[i].a, (long long)g_op[i].b, (long long)g_op[i].r, (long long)g_op[i].r2); s += b; note("  %s", b); }
    violate("no-total-order", "%d-byte integers: no single order of the operations explains the returned values:%s", (int)sizeof(T), s.substr(0, 700).c_str());
}
template<class T> static T pick(unsigned s) {
    switch (choose(S_DATA, s, 8)) { case 0: return 1; case 1: return (T)-1; case 2: return 0; case 3: return std::numeric_limits<T>::max(); case 4: return std::numeric_limits<T>::min(); case 5: return (T)0x5a5a5a5a5a5a5a5aull; case 6: return (T)choose(S_DATA, s, 4); default: return (T)choose(S_DATA, s, 1u << 20) * (T)0x9e3779b97f4a7c15ull; }
}
}
