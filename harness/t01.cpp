// T01: mutex classes and scoped lock / unlock objects
#include "h.hpp"
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>

struct Res {   // a resource protected by one mutex, watched by the oracle
    PThreadMutex m; 
    int owner; unsigned long counter; unsigned long model; uint64_t lb, ub; int idx;
    Res(bool ec, int i) : m(ec), owner(-1), counter(0), model(0), lb(0), ub(0), idx(i) { }
    bool mine() { return ownerWithin(&m, sizeof m) == tid(); }
    void enter() { 
        SIM_CHECK(owner == -1, "not-exclusive", "T%d entered mutex %d while T%d is inside", tid(), idx, owner);
        owner = tid(); 
        SIM_CHECK(m.isLocked(), "islocked-wrong", "isLocked() false while held");
    }
    void work() { unsigned long c = counter; point(0); if (chance(S_SCHED, 70 + tid(), 0.2)) yieldForced(); ++model; counter = c + 1; SIM_CHECK(owner == tid(), "not-exclusive", "owner changed to T%d inside T%d's section", owner, tid()); }
    void leave() { SIM_CHECK(owner == tid(), "not-exclusive", "T%d leaves but T%d is inside", tid(), owner); owner = -1; }
};
struct Count { Res &r; uint64_t b, y; Count(Res &r) : r(r), b(mutexBlocks(tid())), y(mutexBusy(tid())) { } void done() { if (mutexBlocks(tid()) != b) ++r.lb; if (mutexBusy(tid()) != y) ++r.ub; } };

static vector<Res *> R;
static int work_sub() { return tid(); }

static void absIn(struct timespec &ts, int64_t ns) { int64_t t = realtimeNow() + ns; if (t < 0) t = 0; ts.tv_sec = t / 1000000000; ts.tv_nsec = t % 1000000000; }

static void scopedOp(Res &r, int depth, bool thr) {
    Count c(r);
    PThreadScopedLock l(r.m);
    c.done();
    SIM_CHECK(r.mine(), "scoped-not-held", "scoped lock constructed but mutex not held");
    r.enter(); r.work(); r.leave();
    if (depth & 1) {
        Count c2(r);
        try {
            {
                PThreadScopedUnlock u(l);
                SIM_CHECK(!r.mine(), "scoped-unlock-held", "scoped unlock constructed but mutex still held");
                if (depth & 4) { // nested lock inside the unlocked region
                    Count c3(r); PThreadScopedLock l2(r.m); c3.done(); r.enter(); r.work(); r.leave();
                    SIM_CHECK(r.mine(), "scoped-not-held", "nested scoped lock does not hold");
                }
                c2.b = mutexBlocks(tid()); c2.y = mutexBusy(tid());
                if (depth & 2) throw TestExc(1);
            }
            c2.done();
        } catch (TestExc &) { c2.done(); }
        SIM_CHECK(r.mine(), "scoped-unlock-norelock", "scoped unlock ended but mutex not held again");
        r.enter(); r.work(); r.leave();
    }
    if (thr) throw TestExc(2);
}
static void worker(int nops) {
    for (int i = 0; i < nops; ++i) {
        unsigned s = tid();
        unsigned op = chooseW(S_WORK, s, {1, 3, 3, 2, 5, 3}); int ri = choose(S_WORK, s, R.size()); Res &r = *R[ri];
        int depth = choose(S_WORK, s, 8); bool thr = choose(S_WORK, s, 3) == 1; int64_t tmo = choose(S_WORK, s, 4) * 40000;
        ev("op", s, op * 100 + ri * 10 + depth, thr);
        switch (op) {
        case 0: break;
        case 1: { Count c(r); r.m.lock(); c.done(); SIM_CHECK(r.mine(), "lock-not-held", "lock() returned without the mutex"); r.enter(); r.work(); r.leave(); r.m.unlock(); SIM_CHECK(!r.mine(), "unlock-still-held", "unlock() returned but the mutex is still held"); break; }
        case 2: if (r.m.trylock()) { SIM_CHECK(r.mine(), "trylock-not-held", "trylock() true without the mutex"); r.enter(); r.work(); r.leave(); r.m.unlock(); SIM_CHECK(!r.mine(), "unlock-still-held", "unlock"); }
                else SIM_CHECK(!r.mine(), "trylock-false-held", "trylock() false but took the mutex");
                break;
        case 3: { struct timespec ts; absIn(ts, tmo); if (r.m.timedLock(ts)) { SIM_CHECK(r.mine(), "timedlock-not-held", "timedLock() true without the mutex"); r.enter(); r.work(); r.leave(); r.m.unlock(); } else { SIM_CHECK(!r.mine(), "timedlock-false-held", "timedLock() false but took the mutex"); probe("timedlock-false"); } break; }
        case 4: try { scopedOp(r, depth, thr); SIM_CHECK(!thr, "exception-lost", "exception swallowed"); } catch (TestExc &) { probe("exception-exit"); }
                SIM_CHECK(!r.mine(), "scope-exit-held", "scope left (exception=%d) but mutex still held", thr); break;
        case 5: { // two resources nested in a fixed order
            if (R.size() < 2) break;
            try { PThreadScopedLock a(R[0]->m); R[0]->enter(); 
                  try { Count c(*R[1]); PThreadScopedLock b(R[1]->m); c.done(); R[1]->enter(); R[1]->work(); R[1]->leave(); if (thr) throw TestExc(3); } catch (TestExc &) { R[0]->leave(); throw; }
                  R[0]->leave(); } catch (TestExc &) { probe("exception-exit"); }
            break; }
        }
    }
}
SIM_SCENARIO("T01", mutex_mix, 6) {
    throwingAsserts();
    thrBegin();
    int nt = range(S_CFG, 0, 2, 4), nr = range(S_CFG, 0, 1, 2), nops = range(S_CFG, 0, 2, 8); bool ec = choose(S_CFG, 0, 2);
    for (int i = 0; i < nr; ++i) R.push_back(new Res(ec, i));
    for (int i = 0; i < nt; ++i) spawn([=] { worker(nops); });
    joinAll();
    uint64_t tot = 0;
    for (Res *r : R) {
        SIM_CHECK(r->counter == r->model, "lost-update", "counter %lu, %lu updates made under the lock", r->counter, r->model);
        SIM_CHECK(!r->m.isLocked(), "islocked-wrong", "isLocked() true on a free mutex");
        SIM_CHECK(!r->m.debugInfo().empty(), "debuginfo", "no debug info");
        if (r->idx != 0 || nr == 1) { // resource 0's nested locks are not counted by the model when nested
            SIM_CHECK(r->m.getContention() >= r->lb && r->m.getContention() <= r->ub, "contention-count", "contention %u, but %lu blocked and %lu found it held", r->m.getContention(), r->lb, r->ub);
        }
        tot += r->model; ev("end", r->idx, r->model, r->m.getContention()); stateHash(r->m.getContention() * 1000 + r->model);
        bool ok = r->m.trylock(); SIM_CHECK(ok, "left-locked", "mutex cannot be taken at the end"); r->m.unlock();
        delete r;
    }
    if (tot >= 2) nontrivial();
    thrEnd();
}
// scoped-only mutex shared by scoped locks only; deterministic hand-over: the last waiter must get in
SIM_SCENARIO("T01", scoped_only, 2) {
    throwingAsserts(); thrBegin();
    struct S { PThreadScopedOnlyMutex m; int in; unsigned long n; S() : in(0), n(0) { } } s;
    S *p = new S; int nt = range(S_CFG, 0, 2, 4), k = range(S_CFG, 0, 1, 5); uint64_t *lb = new uint64_t(0), *ub = new uint64_t(0);
    (void)s;
    for (int i = 0; i < nt; ++i) spawn([=] { for (int j = 0; j < k; ++j) {
        uint64_t b = mutexBlocks(tid()), y = mutexBusy(tid());
        PThreadScopedLock l(p->m); *lb += mutexBlocks(tid()) != b; *ub += mutexBusy(tid()) != y;
        SIM_CHECK(p->in == 0, "not-exclusive", "two threads inside"); p->in = 1; unsigned long c = p->n; point(1); p->n = c + 1;
        SIM_CHECK(p->m.isLocked(), "islocked-wrong", "isLocked false while held"); p->in = 0; } });
    joinAll();
    SIM_CHECK(p->n == (unsigned long)nt * k, "lost-update", "n=%lu", p->n);
    SIM_CHECK(p->m.getContention() >= *lb && p->m.getContention() <= *ub, "contention-count", "contention %u not in [%lu,%lu]", p->m.getContention(), *lb, *ub);
    SIM_CHECK(!p->m.isLocked(), "islocked-wrong", "locked at the end");
    ev("n", p->n, p->m.getContention()); stateHash(p->m.getContention()); nontrivial(); delete p;
    thrEnd();
}
// error checking mutexes report misuse and stay usable
SIM_SCENARIO("T01", errorcheck, 1) {
    throwingAsserts(); thrBegin();
    PThreadMutex *m = new PThreadMutex(true); int *in = new int(0);
    int nt = range(S_CFG, 0, 1, 3);
    for (int i = 0; i < nt; ++i) spawn([=] {
        int k = range(S_WORK, tid(), 1, 4);
        for (int j = 0; j < k; ++j) {
            int w = choose(S_WORK, tid(), 3);
            if (w == 0) { PThreadScopedLock l(*m); SIM_CHECK((*in)++ == 0, "not-exclusive", "two inside"); SIM_CHECK(!m->trylock(), "trylock-owner", "trylock by owner succeeded"); --*in; }
            else if (w == 1) { m->lock(); SIM_CHECK((*in)++ == 0, "not-exclusive", "two inside"); bool f = fatal([&] { m->lock(); }); SIM_CHECK(f, "relock-unreported", "relock of an error-checking mutex not reported"); SIM_CHECK(ownerWithin(m, sizeof *m) == tid(), "relock-lost", "lock lost after misuse"); --*in; m->unlock(); probe("relock"); }
            else { bool f = fatal([&] { m->unlock(); }); SIM_CHECK(f, "bad-unlock-unreported", "unlock by a non-owner not reported"); probe("bad-unlock"); }
        } });
    joinAll();
    SIM_CHECK(!m->isLocked(), "islocked-wrong", "locked at end"); nontrivial(); delete m;
    thrEnd();
}
// deprecated spelling + the simple mutex
SIM_SCENARIO("T01", simple_and_auto, 1) {
    throwingAsserts(); thrBegin();
    PThreadMutex *m = new PThreadMutex(); SimpleMutex *sm = new SimpleMutex; struct C { int in; unsigned long n; }; C *c = new C[2]; c[0].in = c[1].in = 0; c[0].n = c[1].n = 0;
    int nt = range(S_CFG, 0, 2, 4), k = range(S_CFG, 0, 1, 5);
    for (int i = 0; i < nt; ++i) spawn([=] { for (int j = 0; j < k; ++j) {
        int w = choose(S_WORK, tid(), 3); bool t = choose(S_WORK, tid(), 2);
        auto body = [&](C &x) { SIM_CHECK(x.in == 0, "not-exclusive", "two inside (variant %d)", w); x.in = 1; unsigned long v = x.n; point(1); x.n = v + 1; x.in = 0; if (t) throw TestExc(1); };
        try {
            if (w == 0) { PThreadAutoLocker l(*m); body(c[0]); }
            else if (w == 1) { SimpleScopedLock l(*sm); body(c[1]); }
            else { sm->lock(); try { body(c[1]); } catch (TestExc &) { } sm->unlock(); }
        } catch (TestExc &) { }
        SIM_CHECK(ownerWithin(m, sizeof *m) != tid() && ownerWithin(sm, sizeof *sm) != tid(), "scope-exit-held", "still held after scope");
    } });
    joinAll();
    SIM_CHECK(c[0].n + c[1].n == (unsigned long)nt * k, "lost-update", "%lu+%lu != %d*%d", c[0].n, c[1].n, nt, k);
    nontrivial(); delete m; delete sm; thrEnd();
}
