// T05: signal blocking threads
#include "h.hpp"
#include <Lintel/PThread.hpp>
#include <boost/bind.hpp>
#include <signal.h>
static sigset_t callerMask[64]; static bool otherExc[64]; static bool ns[64]; static bool starting[64], refuse_next[64]; static bool inBody[64]; static bool optOut[64];
static int onCreate() { // called by the creating thread inside pthread_create
    if (refuse_next[tid()]) { refuse_next[tid()] = false; return EAGAIN; }
    if (starting[tid()]) ns[threadCount()] = true;
    return 0;
}
static bool full(const sigset_t &s, int *which) { for (int i = 1; i <= 64; ++i) { if (i == SIGKILL || i == SIGSTOP || i == 32 || i == 33) continue; if (!sigismember(&s, i)) { *which = i; return false; } } return true; }
static bool same(const sigset_t &a, const sigset_t &b) { for (int i = 1; i <= 64; ++i) { if (i == 32 || i == 33) continue; if (sigismember(&a, i) != sigismember(&b, i)) return false; } return true; }
static void invariant(int) {
    for (int i = 0; i < threadCount(); ++i) if (starting[i]) { sigset_t s; shadowMask(i, &s); for (int g = 1; g <= 31; ++g) SIM_CHECK(!sigismember(&callerMask[i], g) || sigismember(&s, g), "caller-opened", "start() opens signal %d, which its caller (T%d) has blocked", g, i); }
    for (int i = 0; i < threadCount(); ++i) if (ns[i] && inBody[i] && !optOut[i]) { sigset_t s; shadowMask(i, &s); int w = 0; SIM_CHECK(full(s, &w), "signal-unblocked", "signal %d is not blocked in a signal-blocking thread (T%d)", w, i); }
    // a process-directed signal arrives now: who could get it?
    if (faultsEnabled() && chance(S_FAULT, 1, 0.02)) { int sg = 1 + choose(S_FAULT, 1, 31); if (sg != SIGKILL && sg != SIGSTOP) { fault("signal-arrives"); for (int i = 0; i < threadCount(); ++i) if (ns[i] && inBody[i] && !optOut[i]) { sigset_t s; shadowMask(i, &s); SIM_CHECK(sigismember(&s, sg), "signal-handled", "signal %d could be handled by T%d", sg, i); } } }
}
// the program's own way of reporting a fatal error
static void onFatal(const char *e, const char *f, int l, const std::string &m) { if (simActive() && otherExc[tid()]) throw TestExc(1); AssertBoostThrowExceptionFn(e, f, l, m); }
static void *body(int work, bool opt) {
    int me = tid(); inBody[me] = true; 
    SIM_CHECK(ns[me], "not-tracked", "thread not created inside start()");
    sigset_t s; sigprocmask(SIG_BLOCK, NULL, &s); int w = 0; SIM_CHECK(full(s, &w), "signal-unblocked", "signal %d not blocked at the first instruction", w);
    for (int i = 0; i < work; ++i) { point(1); sigprocmask(SIG_BLOCK, NULL, &s); SIM_CHECK(full(s, &w), "signal-unblocked", "signal %d not blocked in the body", w); }
    if (opt) { optOut[me] = true; sigset_t u; sigemptyset(&u); sigaddset(&u, SIGUSR1); pthread_sigmask(SIG_UNBLOCK, &u, NULL); sigset_t q; pthread_sigmask(SIG_BLOCK, NULL, &q); SIM_CHECK(!sigismember(&q, SIGUSR1), "opt-in", "cannot enable a signal"); }
    inBody[me] = false; return NULL;
}
struct N : PThreadNoSignals { int work; bool opt; void *run() { return body(work, opt); } };
static void parent(int n) {
    unsigned s = tid(); sigset_t m; sigemptyset(&m); 
    unsigned style = choose(S_WORK, s, 4); 
    for (int i = 1; i <= 31; ++i) { if (i == SIGKILL || i == SIGSTOP || i == SIGVTALRM || i == SIGALRM || i == SIGSEGV || i == SIGABRT) continue; if (style == 3 || (style && choose(S_WORK, s, 3) == 1)) sigaddset(&m, i); }
    pthread_sigmask(SIG_SETMASK, &m, NULL);
    for (int k = 0; k < n; ++k) {
        bool fn = choose(S_WORK, s, 2), opt = choose(S_WORK, s, 5) == 1, rf = faultsEnabled() && choose(S_FAULT, s, 3) == 1, dbl = choose(S_WORK, s, 5) == 1; int work = choose(S_WORK, s, 4);
        PThreadNoSignals *t; if (fn) t = new PThreadFunction(boost::bind(body, work, opt)); else { N *x = new N; x->work = work; x->opt = opt; t = x; }
        sigset_t before, after; pthread_sigmask(SIG_BLOCK, NULL, &before);
        bool ft = false; callerMask[tid()] = before; bool oe = otherExc[tid()] = rf && choose(S_FAULT, s, 4) == 3;
        starting[tid()] = true; refuse_next[tid()] = rf;
        try { ft = fatal([&] { t->start(); }); } catch (TestExc &) { SIM_CHECK(oe, "start-result", "an exception of another kind"); ft = true; probe("other-exception"); }
        otherExc[tid()] = false; refuse_next[tid()] = false; starting[tid()] = false;
        pthread_sigmask(SIG_BLOCK, NULL, &after);
        SIM_CHECK(ft == rf, "start-result", "refused=%d but start failed=%d", rf, ft);
        SIM_CHECK(same(before, after), rf ? "parent-mask-after-failure" : "parent-mask", "start() %s changed the caller's signal mask", rf ? "that failed" : "that succeeded");
        if (rf) { probe("refused"); delete t; continue; }
        if (dbl) { sigset_t b2, a2; pthread_sigmask(SIG_BLOCK, NULL, &b2); bool f2 = fatal([&] { t->start(); }); pthread_sigmask(SIG_BLOCK, NULL, &a2); SIM_CHECK(f2, "double-start", "not reported"); SIM_CHECK(same(b2, a2), "parent-mask-after-failure", "failed second start() changed the caller's signal mask"); probe("double-start"); }
        if (choose(S_WORK, s, 2)) { pthread_sigmask(SIG_BLOCK, NULL, &after); SIM_CHECK(same(before, after), "parent-mask-later", "mask changed later"); }
        t->join(); delete t;
    }
    sigset_t e; pthread_sigmask(SIG_BLOCK, NULL, &e); SIM_CHECK(same(e, m), "parent-mask-end", "mask differs at the end");
}
SIM_SCENARIO("T05", masks, 1) {
    throwingAsserts(); AssertBoostClearFns(); AssertBoostFnBefore(onFatal); thrBegin(); on_thread_create = onCreate; on_point = invariant;
    int np = range(S_CFG, 0, 1, 3), n = range(S_CFG, 0, 1, 3);
    for (int i = 0; i < np; ++i) spawn([=] { parent(n); });
    joinAll(); nontrivial(); stateHash(threadCount()); on_point = NULL; thrEnd();
}
