// T03: try-lock and deadlines
#include "h.hpp"
#include <Lintel/PThread.hpp>
#include <math.h>
static bool held(PThreadMutex &m) { return ownerWithin(&m, sizeof m) == tid(); }
static void phase() { // arbitrary sub-second phase of the wall clock
    static const int64_t ph[] = {0, 1, 999999999, 999999998, 500000000, 499999999, 750000000, 999000000};
    unsigned w = choose(S_CFG, 1, 3); int64_t ns = w == 0 ? 0 : w == 1 ? ph[choose(S_CFG, 1, 8)] : (int64_t)choose(S_CFG, 1, 1000000000);
    setRealtime((1600000000ll + (int64_t)choose(S_CFG, 1, 1000)) * 1000000000ll + ns);
}
static double duration(unsigned sub) {
    static const double ds[] = {0, 1, 0.5, 1e-9, 0.25, 0.999999999, 1.5, 2.999999999, 1e-6, 0.75, 3600, 1e-3, 86400.125, 0.9999999996, 5e-10, 31536000.75};
    unsigned w = choose(S_WORK, sub, 3);
    return w < 2 ? ds[choose(S_WORK, sub, 16)] : choose(S_WORK, sub, 5) + choose(S_WORK, sub, 1000000000) * 1e-9;
}
static int64_t slack() { return (int64_t)(400 * step_ns + 1000); }

// a lone waiter whose wake-up never comes: must time out, not early, promptly
SIM_SCENARIO("T03", lone_timeout, 3) {
    throwingAsserts(); thrBegin(); spurious_ok = false; time_faults = false; phase();
    PThreadMutex *m = new PThreadMutex; PThreadCond *c = new PThreadCond; int n = range(S_CFG, 0, 1, 4);
    for (int i = 0; i < n; ++i) {
        double d = duration(0); unsigned style = choose(S_WORK, 0, 3); int64_t want = (int64_t)llround(d * 1e9); 
        int64_t t0, t1; bool to;
        if (style < 2) m->lock();
        if (style == 0) { t0 = realtimeNow(); to = c->timedWait(*m, d); }
        else if (style == 1) { t0 = realtimeNow(); int64_t t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)}; to = c->timedWaitAbs(*m, ts); }
        else { int h = spawn([=] { m->lock(); sleepNs(want + 3000000000ll); m->unlock(); }); while (!m->isLocked()) sleepNs(1); 
               t0 = realtimeNow(); int64_t t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)}; to = !m->timedLock(ts); t1 = realtimeNow(); 
               SIM_CHECK(to, "timedlock-not-timeout", "timedLock succeeded on a mutex held past its deadline"); (void)h; }
        t1 = realtimeNow();
        if (style < 2) { SIM_CHECK(held(*m), "returned-without-mutex", "timed wait returned without the mutex"); m->unlock(); }
        else joinAll();
        int64_t e = t1 - t0; ev("timeout", style, want, e - want);
        SIM_CHECK(to, "no-timeout-reported", "style %u duration %.9f: nothing arrived but no timeout was reported after %.9f s", style, d, e * 1e-9);
        SIM_CHECK(e >= want - 1, "timeout-early", "style %u duration %.9f timed out after %.9f s", style, d, e * 1e-9);
        if (style < 2) SIM_CHECK(e <= want + slack(), "timeout-late", "style %u duration %.9f timed out after %.9f s", style, d, e * 1e-9);
        probe("timeouts");
    }
    nontrivial(); stateHash(realtimeNow()); delete m; delete c; thrEnd();
}
// wake-up or release at a time well before or well after the deadline
SIM_SCENARIO("T03", race, 4) {
    throwingAsserts(); thrBegin(); spurious_ok = false; time_faults = false; phase();
    PThreadMutex *m = new PThreadMutex; PThreadCond *c = new PThreadCond; bool *flag = new bool(false); int n = range(S_CFG, 0, 1, 3);
    for (int i = 0; i < n; ++i) {
        *flag = false; double d = duration(0); unsigned style = choose(S_WORK, 0, 3); int64_t want = (int64_t)llround(d * 1e9), margin = slack() * 3;
        bool before = choose(S_WORK, 0, 2); if (before && want < 2 * margin) { want += 2 * margin; d = want * 1e-9; }
        int64_t span = before ? want - 2 * margin : 5000000000ll; int64_t when = before ? (int64_t)choose(S_WORK, 0, span + 1) : want + margin + (int64_t)choose(S_WORK, 0, span);
        if (style < 2) {
            m->lock(); int64_t t0 = realtimeNow();
            spawn([=] { sleepNs(when); PThreadScopedLock l(*m); *flag = true; if (when & 1) c->signal(); else c->broadcast(); });
            bool to; int64_t t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)};
            to = style == 0 ? c->timedWait(*m, d) : c->timedWaitAbs(*m, ts);
            int64_t e = realtimeNow() - t0; SIM_CHECK(held(*m), "returned-without-mutex", "timed wait"); m->unlock();
            ev("wait", style, to, e);
            if (before) { SIM_CHECK(!to, "timeout-despite-wakeup", "style %u: signalled at %.9f, deadline %.9f, reported timeout at %.9f", style, when * 1e-9, d, e * 1e-9); SIM_CHECK(e >= when && e <= when + margin, "woken-late", "signalled at %lld, returned at %lld", (long long)when, (long long)e); SIM_CHECK(*flag, "spurious", "returned without a wake-up"); }
            else { SIM_CHECK(to, "no-timeout-reported", "style %u: deadline %.9f, signalled at %.9f, no timeout reported", style, d, when * 1e-9); SIM_CHECK(e >= want - 1 && e <= want + slack() * 2, "timeout-time", "deadline %.9f but returned after %.9f", d, e * 1e-9); }
        } else {
            bool *got = new bool(false);
            spawn([=] { m->lock(); *got = true; sleepNs(when); m->unlock(); });
            while (!*got) sleepNs(1);
            int64_t t0 = realtimeNow(), t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)};
            bool ok = m->timedLock(ts); int64_t e = realtimeNow() - t0; SIM_CHECK(ok == held(*m), "timedlock-wrong-result", "timedLock returned %d, held %d", ok, held(*m)); if (ok) m->unlock();
            if (before) { SIM_CHECK(ok, "timeout-despite-release", "released at %.9f, deadline %.9f, timed out", when * 1e-9, d); }
            else { SIM_CHECK(!ok, "timedlock-late-success", "deadline %.9f, released only at %.9f", d, when * 1e-9); SIM_CHECK(e >= want - 1 && e <= want + slack() * 2, "timeout-time", "deadline %.9f but returned after %.9f", d, e * 1e-9); }
        }
        joinAll();
    }
    nontrivial(); stateHash(realtimeNow()); thrEnd();
}
// try-lock against a mutex that other threads take and release
SIM_SCENARIO("T03", trylock, 3) {
    throwingAsserts(); thrBegin();
    PThreadMutex *m = new PThreadMutex(choose(S_CFG, 0, 2)); int nt = range(S_CFG, 0, 2, 4), k = range(S_CFG, 0, 1, 6);
    for (int i = 0; i < nt; ++i) spawn([=] { for (int j = 0; j < k; ++j) {
        unsigned op = choose(S_WORK, tid(), 3);
        if (op == 0) { m->lock(); point(1); m->unlock(); }
        else {
            uint64_t b = mutexBlocks(tid()), e = lockEpoch(); int o = ownerWithin(m, sizeof *m); 
            bool ok; struct timespec past = {1, 0};
            if (op == 1) ok = m->trylock(); else ok = m->timedLock(past);  // a deadline in the past must not block either
            bool quiet = lockEpoch() == e + (ok ? 1 : 0); 
            SIM_CHECK(mutexBlocks(tid()) == b, "trylock-blocked", "try-lock blocked");
            SIM_CHECK(ok == held(*m), "trylock-wrong-result", "returned %d but held=%d", ok, (int)held(*m));
            if (quiet && o == -1) SIM_CHECK(ok, "trylock-failed-free", "try-lock failed on a free mutex");
            if (quiet && o != -1) SIM_CHECK(!ok, "trylock-succeeded-held", "try-lock succeeded on a held mutex");
            if (o != -1 && quiet) probe("try-on-held"); if (o == -1 && quiet) probe("try-on-free");
            if (ok) m->unlock();
        } } });
    joinAll(); SIM_CHECK(!m->isLocked(), "left-locked", "held at the end"); nontrivial(); delete m; thrEnd();
}

// spurious wake-ups and early passage of time injected: never an early timeout, a success only with a wake-up or an injected spurious one
SIM_SCENARIO("T03", faulty, 3, 2) {
    throwingAsserts(); thrBegin(); phase(); time_jump_p = 0.1;
    PThreadMutex *m = new PThreadMutex; PThreadCond *c = new PThreadCond; int *tok = new int(0); int nt = range(S_CFG, 0, 1, 3), k = range(S_CFG, 0, 1, 4);
    for (int i = 0; i < nt; ++i) spawn([=] { for (int j = 0; j < k; ++j) {
        double d = duration(tid()); if (d > 4) d = 4; int64_t want = llround(d * 1e9); unsigned style = choose(S_WORK, tid(), 3);
        if (style == 2) { int64_t t0 = realtimeNow(), t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)}; bool ok = m->timedLock(ts); SIM_CHECK(ok == held(*m), "timedlock-wrong-result", "returned %d held %d", ok, held(*m)); if (ok) { sleepNs(choose(S_WORK, tid(), 2000000000)); m->unlock(); } else SIM_CHECK(realtimeNow() >= t, "timeout-early", "timedLock gave up %lld ns early", (long long)(t - realtimeNow())); }
        else { PThreadScopedLock l(*m); int64_t t0 = realtimeNow(), t = t0 + want; struct timespec ts = {(time_t)(t / 1000000000), (long)(t % 1000000000)}; bool to = style == 0 ? c->timedWait(*m, d) : c->timedWaitAbs(*m, ts); SIM_CHECK(held(*m), "returned-without-mutex", "timed wait"); if (to) SIM_CHECK(realtimeNow() >= t - 1, "timeout-early", "timed wait of %.9f reported a timeout after %.9f s", d, (realtimeNow() - t0) * 1e-9); else probe("woken"); }
    } });
    spawn([=] { for (int j = 0; j < k; ++j) { sleepNs(choose(S_WORK, tid(), 3000000000ll)); PThreadScopedLock l(*m); if (j & 1) c->signal(); else c->broadcast(); } });
    joinAll(); nontrivial(); stateHash(realtimeNow()); thrEnd();
}
