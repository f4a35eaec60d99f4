// T02: condition variables
#include "h.hpp"
#include <Lintel/PThread.hpp>
#include <deque>

static bool held(PThreadMutex &m) { return ownerWithin(&m, sizeof m) == tid(); }
// one wait inside a predicate loop; style picks the spelling.
static void doWait(PThreadCond &c, PThreadMutex &m, unsigned style) {
    uint64_t rel = mutexReleases(tid());
    if (style == 0) { c.wait(m); }
    else {
        bool to;
        if (style == 1) to = c.timedWait(m, 1000.0);
        else { int64_t t = realtimeNow() + 2000ll * 1000000000ll; struct timespec ts = {t / 1000000000, t % 1000000000}; to = c.timedWaitAbs(m, ts); }
        // without injected time jumps a timeout means that nothing else in the program could run: the wake-up was lost
        if (to) SIM_CHECK(faultsEnabled(), "lost-wakeup", "timed wait ran to its far deadline although a wake-up was due");
    }
    SIM_CHECK(mutexReleases(tid()) > rel, "wait-kept-mutex", "wait (style %u) never released the mutex", style);
    SIM_CHECK(held(m), "wait-returned-without-mutex", "wait (style %u) returned without holding the mutex", style);
}
struct Q { PThreadMutex m; PThreadCond ne, nf; std::deque<int> q; size_t cap; int producers; vector<int> got; int waiting; Q() : producers(0), waiting(0) { } };
SIM_SCENARIO("T02", queue, 4) {
    throwingAsserts(); thrBegin(); 
    Q *q = new Q; int np = range(S_CFG, 0, 1, 3), nc = range(S_CFG, 0, 1, 3), items = range(S_CFG, 0, 1, 4); q->cap = range(S_CFG, 0, 1, 3); unsigned sig = choose(S_CFG, 0, 3); bool outside = choose(S_CFG, 0, 2);
    q->producers = np; int *taken = new int[np * items](); bool styleMix = choose(S_CFG, 0, 2);
    // with several consumers/producers on one condition signal() is only right for one-item transitions, which is what happens here
    auto wake = [=](PThreadCond &c) { if (sig == 2) c.broadcast(); else c.signal(); };
    for (int p = 0; p < np; ++p) spawn([=] {
        for (int i = 0; i < items; ++i) {
            {
                PThreadScopedLock l(q->m);
                while (q->q.size() >= q->cap) { probe("wait-full"); doWait(q->nf, q->m, styleMix ? choose(S_WORK, tid(), 3) : 0); }
                q->q.push_back(p * items + i);
                if (!outside) wake(q->ne);
            }
            if (outside) wake(q->ne);
        }
        PThreadScopedLock l(q->m);
        if (--q->producers == 0) q->ne.broadcast();
    });
    for (int c = 0; c < nc; ++c) spawn([=] {
        vector<int> last(np, -1);
        for (;;) {
            int v = -1;
            {
                PThreadScopedLock l(q->m);
                while (q->q.empty() && q->producers > 0) { probe("wait-empty"); doWait(q->ne, q->m, styleMix ? choose(S_WORK, tid(), 3) : 0); }
                if (q->q.empty()) break;
                v = q->q.front(); q->q.pop_front();
                SIM_CHECK(taken[v]++ == 0, "delivered-twice", "item %d delivered twice", v);
                if (!outside) wake(q->nf);
            }
            if (outside) wake(q->nf);
            SIM_CHECK(v % items > last[v / items], "order", "producer %d items out of order", v / items); last[v / items] = v % items;
            ev("got", tid(), v);
        }
    });
    joinAll();
    for (int i = 0; i < np * items; ++i) SIM_CHECK(taken[i] == 1, "lost-item", "item %d delivered %d times", i, taken[i]);
    nontrivial(); stateHash(now()); delete q; thrEnd();
}
SIM_SCENARIO("T02", barrier, 2) {
    throwingAsserts(); thrBegin();
    struct B { PThreadMutex m; PThreadCond c; int n, gen; B() : n(0), gen(0) { } }; B *b = new B; int nt = range(S_CFG, 0, 2, 5), rounds = range(S_CFG, 0, 1, 3); int *phase = new int[8]();
    for (int i = 0; i < nt; ++i) spawn([=] {
        for (int r = 0; r < rounds; ++r) {
            phase[i] = r;
            { PThreadScopedLock l(b->m); int g = b->gen;
              if (++b->n == nt) { b->n = 0; ++b->gen; b->c.broadcast(); }
              else while (b->gen == g) doWait(b->c, b->m, choose(S_WORK, tid(), 3)); }
            for (int k = 0; k < nt; ++k) SIM_CHECK(phase[k] >= r, "barrier-early", "thread passed the barrier before all arrived");
        }
    });
    joinAll(); nontrivial(); delete b; thrEnd();
}
// tokens: each signal hands over one token; every signal must reach a waiter that can use it
SIM_SCENARIO("T02", tokens, 2) {
    throwingAsserts(); thrBegin();
    struct S { PThreadMutex m; PThreadCond c; int tokens, waiting; S() : tokens(0), waiting(0) { } }; S *s = new S; int nt = range(S_CFG, 0, 1, 4); bool allWaitFirst = choose(S_CFG, 0, 2);
    for (int i = 0; i < nt; ++i) spawn([=] { PThreadScopedLock l(s->m); ++s->waiting; while (s->tokens == 0) doWait(s->c, s->m, choose(S_WORK, tid(), 3)); --s->tokens; });
    spawn([=] {
        if (allWaitFirst) for (;;) { { PThreadScopedLock l(s->m); if (s->waiting == nt) break; } sleepNs(1000); }
        for (int i = 0; i < nt; ++i) { PThreadScopedLock l(s->m); ++s->tokens; s->c.signal(); } });
    joinAll(); SIM_CHECK(s->tokens == 0, "token-left", "%d tokens left", s->tokens); nontrivial(); delete s; thrEnd();
}
SIM_SCENARIO("T02", pingpong, 1) {
    throwingAsserts(); thrBegin();
    struct S { PThreadMutex m; PThreadCond c[2]; int turn; S() : turn(0) { } }; S *s = new S; int rounds = range(S_CFG, 0, 1, 6);
    for (int me = 0; me < 2; ++me) spawn([=] { for (int r = 0; r < rounds; ++r) { s->m.lock(); while (s->turn != me) doWait(s->c[me], s->m, choose(S_WORK, tid(), 3)); SIM_CHECK(held(s->m), "lost-mutex", "x"); s->turn = 1 - me; s->c[1 - me].signal(); s->m.unlock(); } });
    joinAll(); nontrivial(); delete s; thrEnd();
}
// waiting really releases the mutex, and a timed wait that expires while others hold the mutex returns only once it has it
SIM_SCENARIO("T02", release, 1) {
    throwingAsserts(); thrBegin();
    struct S { PThreadMutex m; PThreadCond c; int in; bool stop; bool got; S() : in(0), stop(false), got(false) { } }; S *s = new S;
    int nt = range(S_CFG, 0, 1, 3); unsigned style = choose(S_CFG, 0, 2);
    spawn([=] { s->m.lock(); int n = 0; while (!s->got) { uint64_t rel = mutexReleases(tid()); if (style == 0) s->c.wait(s->m); else { (void)s->c.timedWait(s->m, 0.000001 * choose(S_WORK, tid(), 50)); SIM_CHECK(mutexReleases(tid()) > rel, "wait-kept-mutex", "a timed wait never released the mutex"); if (++n > 200) { s->m.unlock(); sleepNs(1000000); s->m.lock(); } }
            SIM_CHECK(held(s->m) && s->in == 0, "wait-returned-without-mutex", "returned while another thread is inside"); } s->m.unlock(); });
    for (int i = 0; i < nt; ++i) spawn([=] { for (int k = 0; k < 3; ++k) { PThreadScopedLock l(s->m); SIM_CHECK(s->in++ == 0, "not-exclusive", "two inside"); sleepNs(choose(S_WORK, tid(), 4) * 10000); --s->in; } PThreadScopedLock l(s->m); s->got = true; s->c.broadcast(); });
    joinAll(); nontrivial(); delete s; thrEnd();
}
