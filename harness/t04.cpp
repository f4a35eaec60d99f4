// T04: thread lifecycle
#include "h.hpp"
#include <Lintel/PThread.hpp>
#include <boost/bind.hpp>
struct Job { int starts, runs, done; pthread_t self; int simtid; void *ret; int effect; size_t stack; int work; PThread *obj; bool selfJoin; volatile bool startDone; Job() : starts(0), runs(0), done(0), simtid(-1), ret(0), effect(0), stack(0), work(0), obj(NULL), selfJoin(false), startDone(false) { } 
    void *body() { ++runs; self = pthread_self(); simtid = tid(); void *r = ret; for (int i = 0; i < work; ++i) { point(0); if (i % 3 == 2) sleepNs(100); }
        pthread_attr_t a; size_t sz = 0; void *addr; { NoPreempt np; if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &addr, &sz); pthread_attr_destroy(&a); } } stack = sz;
        if (selfJoin) { while (!startDone) sleepNs(1000); bool ft = fatal([&] { obj->join(); }); SIM_CHECK(ft, "self-join", "a thread joined itself without an error"); probe("self-join"); }
        effect += 7; done = starts; return r; } };
struct Plain : PThread { Job j; void *run() { return j.body(); } };
struct NoSig : PThreadNoSignals { Job j; void *run() { return j.body(); } };
struct Fn { Job j; PThreadFunction *t; };
static bool refuse_next; static int refuse_errno;
static int refuse() { if (refuse_next) { refuse_next = false; return refuse_errno; } return 0; }

static void life(int gens, bool faults) {
    unsigned s = tid(); unsigned kind = choose(S_WORK, s, 3);
    Plain *p = NULL; NoSig *n = NULL; Fn *f = NULL; PThread *t; Job *j;
    if (kind == 0) { p = new Plain; t = p; j = &p->j; } else if (kind == 1) { n = new NoSig; t = n; j = &n->j; } else { f = new Fn; f->t = new PThreadFunction(boost::bind(&Job::body, &f->j)); t = f->t; j = &f->j; }
    size_t want = 0; bool live = false; 
    if (choose(S_WORK, s, 3) == 1) { want = 65536 * (1 + choose(S_WORK, s, 4)) + 131072; t->setStackSize(want); SIM_CHECK(t->getStackSize() == want, "stacksize", "stack size not kept"); }
    int nops = gens * 3;
    for (int i = 0; i < nops; ++i) {
        unsigned op = chooseW(S_WORK, s, {1, 6, 6, 1, 1});
        bool rf = faults && choose(S_FAULT, s, 5) == 1;
        ev("life", s, op, live);
        if (op == 1) {
            if (live) { int r = j->starts; bool ft = fatal([&] { t->start(); }); SIM_CHECK(ft, "double-start", "starting a live thread was not reported"); SIM_CHECK(j->starts == r, "double-start", "x"); probe("start-live"); continue; }
            j->ret = (void *)(intptr_t)(1000 + i + 100 * s); if (unsigned o = choose(S_WORK, s, 5)) { if (o == 3) j->ret = NULL; if (o == 4) j->ret = (void *)-1; } j->obj = t; j->startDone = false; j->selfJoin = choose(S_WORK, s, 8) == 7; j->work = choose(S_WORK, s, 6); int runs0 = j->runs;
            if (rf) { // only this thread's next create is refused
                refuse_errno = choose(S_FAULT, s, 2) ? EPERM : EAGAIN; NoPreempt np; refuse_next = true;
                bool ft = fatal([&] { t->start(); }); SIM_CHECK(!refuse_next, "create-not-called", "start() made no thread"); 
                SIM_CHECK(ft, "refusal-ignored", "system refused to create a thread but start() returned"); SIM_CHECK(j->runs == runs0, "ran-after-refusal", "body ran"); probe("refused-start"); continue;
            }
            ++j->starts; pthread_t id = t->start(); live = true; j->startDone = true;
            if (choose(S_WORK, s, 3) == 1) sleepNs(50000);
            j->effect += 0; (void)id;
            // id is checked after the join
            SIM_CHECK(j->runs <= runs0 + 1, "ran-twice", "body ran %d times after one start", j->runs - runs0);
            t->kill(0);
            void *r; bool joinNow = choose(S_WORK, s, 2);
            if (joinNow) { r = t->join(); live = false; SIM_CHECK(j->done == j->starts, "join-early", "join returned before the body finished"); SIM_CHECK(r == j->ret, "join-value", "join returned %p, body returned %p", r, j->ret); SIM_CHECK(pthread_equal(id, j->self), "wrong-thread", "start() returned another thread's id"); SIM_CHECK(j->runs == runs0 + 1, "run-count", "body ran %d times", j->runs - runs0); SIM_CHECK(j->simtid != (int)s, "not-a-new-thread", "body ran in the caller"); }
        } else if (op == 2) {
            if (!live) { bool ft = fatal([&] { t->join(); }); SIM_CHECK(ft, "join-not-live", "joining a thread that is not live was not reported"); probe("join-dead"); }
            else { void *r = t->join(); live = false; SIM_CHECK(j->done == j->starts, "join-early", "join returned before the body finished"); SIM_CHECK(r == j->ret, "join-value", "join returned %p, body returned %p", r, j->ret); SIM_CHECK(j->runs == j->starts, "run-count", "body ran %d times for %d starts", j->runs, j->starts); SIM_CHECK(j->effect == 7 * j->starts, "effects-lost", "effects of the body not visible"); 
                   if (want) SIM_CHECK(j->stack + 8192 >= want, "stack-size", "asked for %zu bytes of stack, body had %zu", want, j->stack); }
        } else if (op == 3) { sleepNs(20000); }
        else if (op == 4) { SIM_CHECK(j->runs <= j->starts, "ran-unstarted", "body ran without a start"); }
    }
    if (live) { t->join(); }
    SIM_CHECK(j->runs == j->starts && j->done == j->starts, "run-count", "%d starts, %d runs", j->starts, j->runs);
    if (p) delete p;
    if (n) delete n;
    if (f) { delete f->t; delete f; }
}
SIM_SCENARIO("T04", lifecycle, 4) {
    throwingAsserts(); thrBegin(); on_thread_create = refuse;
    int nt = range(S_CFG, 0, 1, 3), gens = range(S_CFG, 0, 1, 3); bool f = faultsEnabled();
    for (int i = 0; i < nt; ++i) spawn([=] { life(gens, f); });
    joinAll(); nontrivial(); stateHash(threadCount()); thrEnd();
}
// many children of one parent, joined in another order
SIM_SCENARIO("T04", fanout, 2) {
    throwingAsserts(); thrBegin();
    int n = range(S_CFG, 0, 2, 8); vector<Plain *> v; vector<int> order;
    for (int i = 0; i < n; ++i) { Plain *p = new Plain; p->j.ret = (void *)(intptr_t)(i + 1); p->j.work = choose(S_WORK, 0, 8); p->j.starts = 1; v.push_back(p); p->start(); order.push_back(i); }
    for (int i = 0; i < n; ++i) std::swap(order[i], order[i + choose(S_WORK, 0, n - i)]);
    for (int i : order) { void *r = v[i]->join(); SIM_CHECK(v[i]->j.done == 1 && v[i]->j.runs == 1, "join-early", "joined before its end"); SIM_CHECK(r == v[i]->j.ret, "join-value", "wrong value"); delete v[i]; }
    nontrivial(); thrEnd();
}
// detached threads run once as well, and joining them is an error, not a hang
struct Det : PThread { int *cnt; PThreadMutex *m; PThreadCond *c; void *run() { PThreadMutex *mm = m; mm->lock(); ++*cnt; c->broadcast(); mm->unlock(); return NULL; } };
SIM_SCENARIO("T04", detached, 1) {
    throwingAsserts(); thrBegin();
    int *cnt = new int(0); PThreadMutex *m = new PThreadMutex; PThreadCond *c = new PThreadCond; int n = range(S_CFG, 0, 1, 4); vector<Det *> v; bool tryjoin = choose(S_CFG, 0, 2);
    for (int i = 0; i < n; ++i) { Det *d = new Det; d->cnt = cnt; d->m = m; d->c = c; d->setDetached(true); d->start(); v.push_back(d); }
    m->lock(); while (*cnt < n) c->wait(*m); m->unlock(); sleepNs(1000000);
    SIM_CHECK(*cnt == n, "run-count", "%d detached bodies ran %d times", n, *cnt);
    if (tryjoin) { bool ft = fatal([&] { v[0]->join(); }); SIM_CHECK(ft, "join-detached", "joining a detached thread not reported"); }
    nontrivial(); thrEnd();
}
