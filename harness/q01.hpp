// Q01: priority queue against a multiset
#ifndef DBG
#define DBG 0
#endif
#include "elem.hpp"
#include <Lintel/PriorityQueue.hpp>
namespace {
int cmode; // which way importance goes
inline int prio(int v) { int p = v / 100000; return cmode == 1 ? -p : cmode == 2 ? 0 : p; }
struct Less { bool operator()(const Elem &a, const Elem &b) const { return prio(a.get()) <= prio(b.get()); } };
typedef PriorityQueue<Elem, Less> PQ; typedef std::multiset<int> M;
struct St { PQ *q; M m; };
string show(const M &m) { string s; for (int p : m) s += " " + std::to_string(p / 100000) + "." + std::to_string(p % 100000); return s; }
int best(const M &m) { int b = INT32_MIN; for (int v : m) b = std::max(b, prio(v)); return b; }
M stored(St &s) { M r; for (Elem *e = s.q->PQ_Begin(); e != s.q->PQ_End(); ++e) r.insert(e->get()); return r; }
void compare(St &s, const char *op) {
    SIM_CHECK(s.q->size() == s.m.size() && s.q->empty() == s.m.empty(), "size-wrong", "after %s: size %u empty %d, expected %zu", op, s.q->size(), s.q->empty(), s.m.size());
    M got = stored(s); SIM_CHECK(got == s.m, "contents-wrong", "after %s: stored%s, expected%s", op, show(got).c_str(), show(s.m).c_str());
    if (!s.m.empty()) { int t = s.q->top().get(), u = const_cast<const PQ *>(s.q)->top().get(); SIM_CHECK(t == u && prio(t) == best(s.m), "top-wrong", "after %s: top %d.%d, most important is %d of%s", op, t / 100000, t % 100000, best(s.m), show(s.m).c_str()); }
    stateHash(s.m.size());
}
void drain(St &s, bool bottomUp) { while (!s.m.empty()) { compare(s, "draining"); int t = s.q->top().get(); s.m.erase(s.m.find(t)); { Lib l; if (bottomUp) s.q->pop_bottom_up_heuristic(); else s.q->pop(); } } compare(s, "draining"); }
void run() {
    throwingAsserts(); size_t blocks0 = libBlocks(), elems0 = elemsAlive(); bool nt = false; St s; s.q = NULL; int n0 = choose(S_CFG, 0, 3) == 1 ? 0 : range(S_CFG, 1, 1, 9), id = 0; cmode = choose(S_CFG, 2, 3); int prios = range(S_CFG, 3, 1, 40), ops = range(S_CFG, 4, 1, tierThorough() ? 160 : 80), own = choose(S_CFG, 5, 2);
    unsigned bias = choose(S_CFG, 6, 3); auto val = [&] { return (int)choose(S_WORK, 1, prios) * 100000 + id++; };
    maybeArm(0, 0.1, 12); Outcome o = attempt([&] { s.q = own ? new PQ(n0) : new PQ(Less(), n0); }); if (o == FAILED) { SIM_CHECK(libBlocks() == blocks0 && elemsAlive() == elems0, "leak", "failed construction leaks"); Lib l; s.q = new PQ(n0); }
    for (int i = 0; i < ops; ++i) {
        unsigned op = chooseW(S_WORK, 0, {bias == 1 ? 26u : 12u, bias == 2 ? 14u : 6u, 4, 6, 1, 2, 1, 1, 1}); const char *name = ""; M after = s.m; bool either = false; ev("op", op, s.m.size());
        switch (op) {
        case 0: { name = "push"; int v = val(); Elem e(v); after.insert(v); maybeArm(0, 0.3, 30); o = attempt([&] { s.q->push(e); }); break; }
        case 1: { name = "pop"; if (s.m.empty()) continue; after.erase(after.find(s.q->top().get())); maybeArm(0, 0.3, 6); o = attempt([&] { s.q->pop(); }); break; }
        case 2: { name = "pop_bottom_up"; if (s.m.empty()) continue; after.erase(after.find(s.q->top().get())); maybeArm(0, 0.3, 6); o = attempt([&] { s.q->pop_bottom_up_heuristic(); }); break; }
        case 3: { name = "replaceTop"; if (s.m.empty()) continue; int v = val(); Elem e(v); after.erase(after.find(s.q->top().get())); after.insert(v); maybeArm(0, 0.4, 6); o = attempt([&] { s.q->replaceTop(e); }); break; }
        case 4: { name = "clear"; after.clear(); o = attempt([&] { s.q->clear(); }); break; }
        case 5: { name = "reserve"; unsigned n = choose(S_WORK, 2, 30); maybeArm(0, 0.5, 12); o = attempt([&] { s.q->reserve(n); }); if (!s.m.empty()) { SIM_CHECK(o != DONE, "reserve-nonempty", "reserve on a non-empty queue accepted"); if (o == FATAL) o = DONE; } break; }
        case 6: { name = "push(top())"; if (s.m.empty()) continue; after.insert(s.q->top().get()); maybeArm(0, 0.2, 30); o = attempt([&] { s.q->push(s.q->top()); }); break; }
        case 7: { name = "drain"; drain(s, choose(S_WORK, 3, 2)); after = s.m; o = DONE; break; }
        case 8: { name = "empty use"; if (!DBG || !s.m.empty()) continue; unsigned w = choose(S_WORK, 4, 3); o = attempt([&] { if (w == 0) s.q->top(); else if (w == 1) s.q->pop(); else s.q->pop_bottom_up_heuristic(); }); SIM_CHECK(o == FATAL, "empty-unchecked", "use %u of an empty queue not reported", w); o = DONE; break; }
        }
        (void)either; SIM_CHECK(o != FATAL, "valid-use-refused", "%s refused", name);
        if (o == FAILED) { nt = true; M got = stored(s); if (got == after) s.m = after; } else s.m = after;
        note("   %s -> %s:%s", name, o == DONE ? "done" : "failed", show(s.m).c_str()); compare(s, name); if ((int)s.m.size() > n0) nt = true;
    }
    if (choose(S_CFG, 7, 2) == 0) drain(s, choose(S_CFG, 8, 2));
    { Lib l; delete s.q; } SIM_CHECK(elemsAlive() == elems0, "elements-leaked", "%zu elements never destroyed", elemsAlive() - elems0); SIM_CHECK(libBlocks() == blocks0, "leak", "%zu blocks never freed", libBlocks() - blocks0); if (nt) nontrivial();
}
template<int N> struct Big { int v; char pad[N]; Big(int x = 0) : v(x) { memset(pad, x, N); } bool operator<=(const Big &o) const { return v <= o.v; } };
template<int N> void sized() { PriorityQueue<Big<N> > q; M m; int ops = range(S_CFG, 1, 1, 200); for (int i = 0; i < ops; ++i) { if (m.empty() || choose(S_WORK, 0, 3)) { int v = choose(S_WORK, 1, 50); q.push(Big<N>(v)); m.insert(v); } else { SIM_CHECK(q.top().v == *m.rbegin(), "top-wrong", "top %d of a queue with most important %d", q.top().v, *m.rbegin()); m.erase(m.find(q.top().v)); if (choose(S_WORK, 2, 2)) q.pop(); else q.pop_bottom_up_heuristic(); } } SIM_CHECK(q.size() == m.size(), "size-wrong", "size"); nontrivial(); }
}
#if DBG
SIM_SCENARIO("Q01", history_debug, 1) { run(); }
#else
SIM_SCENARIO("Q01", history, 3) { run(); }
// deep heaps: sorting and a long run at a constant size
SIM_SCENARIO("Q01", deep, 1) {
    throwingAsserts(); typedef PriorityQueue<long> LQ; LQ q; unsigned n = 1u << choose(S_CFG, 0, tierThorough() ? 16 : 12), shape = choose(S_CFG, 2, 5), kinds = 1 + choose(S_CFG, 3, n + 2), churn = choose(S_CFG, 4, 2) ? 2 * n : 0; n += choose(S_CFG, 1, n + 1); if (choose(S_CFG, 7, 40) == 39) { n = 66000 + choose(S_CFG, 1, 70000); churn = 0; } std::multiset<long> m; uint64_t z = choose(S_CFG, 5, 1u << 30); auto next = [&] { z = z * 6364136223846793005ull + 1442695040888963407ull; return z >> 33; };
    for (unsigned i = 0; i < n; ++i) { long v = shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? (long)(next() % kinds) : shape == 3 ? (long)next() : (long)(i & 1 ? n - i : i); q.push(v); m.insert(v); }
    for (unsigned i = 0; i < churn; ++i) { SIM_CHECK(q.top() == *m.rbegin(), "top-wrong", "top %ld, most important is %ld of %zu", q.top(), *m.rbegin(), m.size()); m.erase(std::prev(m.end())); long v = shape == 3 ? (long)next() : (long)(next() % kinds); switch (choose(S_WORK, 0, 3)) { case 0: q.replaceTop(v); break; case 1: q.pop(); q.push(v); break; default: q.pop_bottom_up_heuristic(); q.push(v); } m.insert(v); }
    unsigned how = choose(S_CFG, 6, 3); while (!m.empty()) { SIM_CHECK(q.size() == m.size() && !q.empty(), "size-wrong", "size %u, expected %zu", q.size(), m.size()); SIM_CHECK(q.top() == *m.rbegin(), "top-wrong", "top %ld, most important is %ld of %zu", q.top(), *m.rbegin(), m.size()); m.erase(std::prev(m.end())); if (how == 0 || (how == 2 && choose(S_WORK, 1, 2))) q.pop(); else q.pop_bottom_up_heuristic(); }
    SIM_CHECK(q.empty() && q.size() == 0, "size-wrong", "%u left over", q.size()); stateHash(n); if (n > 64) nontrivial();
}
SIM_SCENARIO("Q01", default_size, 1) { throwingAsserts(); switch (choose(S_CFG, 0, 4)) { case 0: sized<4>(); break; case 1: sized<100>(); break; case 2: sized<700>(); break; default: sized<1500>(); } }
#endif
