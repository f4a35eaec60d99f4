#ifndef A_VAR
#define A_VAR 2
#endif
#include "h.hpp"
#include "tso.hpp"
#include <Lintel/Lock.hpp>
#define SC2(p, n, v) SIM_SCENARIO(p, n##v)
#define SC1(p, n, v) SC2(p, n, v)
// ghost counts, kept by the checker alone
static int g_w[2], g_r[2], g_acq[2], g_waiting[2]; static bool g_rw;
static void in(int l, bool w) {
    NoPreempt np; --g_waiting[l];
    if (g_w[l]) violate("two-holders", "%s got the lock while a writer holds it", w ? "a writer" : "a reader"); if (w && g_r[l]) violate("two-holders", "a writer got the lock while %d readers hold it", g_r[l]);
    if (w || !g_rw) ++g_w[l]; else { if (++g_r[l] > 1) probe("shared-readers"); }
    ++g_acq[l]; ev(w ? "wr" : "rd", tid(), l, g_acq[l]);
}
static void out(int l, bool w) { NoPreempt np; if (w || !g_rw) --g_w[l]; else --g_r[l]; if (g_waiting[l]) nontrivial(); }
struct Data { int a, b, c; };
template<class L> static __attribute__((noinline)) void useLock(L &k, Data *d, int l, bool w, int pts) {
    { NoPreempt np; ++g_waiting[l]; }
    if (w) k.wrlock(); else k.rdlock();
    in(l, w);
    int a = d->a, b = d->b; // everything written under the lock before is here
    if (a != b || d->c != 3 * a) violate("stale-data", "the next holder finds %d, %d, %d", a, b, d->c);
    if (w) { d->a = a + 1; for (int i = 0; i < pts; ++i) point(0); d->b = a + 1; d->c = 3 * (a + 1); }
    else { for (int i = 0; i < pts; ++i) point(0); if (d->a != a || d->b != b) violate("changed-under-reader", "data changed from %d to %d while a reader holds the lock", a, d->a); }
    out(l, w);
    k.unlock();
}
// the same without the checker in between: the data alone tells
template<class L> static __attribute__((noinline)) void bump(L &k, Data *d) { k.wrlock(); ++d->a; d->b += 2; k.unlock(); k.wrlock(); ++d->a; d->b += 2; k.unlock(); }
template<class L> static void locks(bool rw) {
    int nt = 2 + (int)choose(S_CFG, 1, 4), per = 1 + (int)choose(S_CFG, 2, 6), nl = 1 + (int)choose(S_CFG, 3, 2); bool only = choose(S_CFG, 4, 3) == 0; g_rw = rw;
    L *k[2] = {new L, new L}; Data *d = new Data[2]; memset(d, 0, sizeof(Data) * 2); memset(g_w, 0, sizeof g_w); memset(g_r, 0, sizeof g_r); memset(g_acq, 0, sizeof g_acq);
    int writes[2] = {0, 0}; setBudget(200000);
    thrBegin(); tsoBegin();
    for (int t = 0; t < nt; ++t) spawn([&, t] {
        for (int i = 0; i < per; ++i) { unsigned s = tid(); int l = (int)choose(S_WORK, s, nl); bool w = only || choose(S_WORK, s, 2) == 0; int pts = (int)choose(S_WORK, s, 5); bool nest = nl == 2 && l == 0 && choose(S_WORK, s, 5) == 1;
            if (nest) { { NoPreempt np; ++g_waiting[0]; } k[0]->wrlock(); in(0, true); useLock(*k[1], d + 1, 1, true, pts); out(0, true); k[0]->unlock(); NoPreempt np; ++writes[1]; }
            else { useLock(*k[l], d + l, l, w, pts); if (w) { NoPreempt np; ++writes[l]; } }
            if (choose(S_WORK, s, 4) == 1) sleepNs(1000); } });
    joinAll(); tsoEnd(); thrEnd();
    for (int i = 0; i < 2; ++i) { SIM_CHECK(d[i].a == writes[i], "lost-update", "%d writes under the lock, counter %d", writes[i], d[i].a); SIM_CHECK(!g_w[i] && !g_r[i], "harness", "unbalanced"); }
    finish();
}
template<class L> static void bumps(bool) {
    int nt = 2 + (int)choose(S_CFG, 1, 4), per = 1 + (int)choose(S_CFG, 2, 4); L *k = new L; Data *d = new Data; memset(d, 0, sizeof *d); setBudget(200000);
    thrBegin(); tsoBegin(); for (int t = 0; t < nt; ++t) spawn([&] { for (int i = 0; i < per; ++i) bump(*k, d); });
    joinAll(); ev("bumps", stepCount()); tsoEnd(); thrEnd(); nontrivial();
    SIM_CHECK(d->a == nt * per * 2 && d->b == nt * per * 4, "lost-update", "%d threads, %d updates each under the lock: %d, %d", nt, per * 2, d->a, d->b); finish();
}
using namespace lintel;
#define EACH(f) switch (choose(S_CFG, 0, 9)) { case 0: f<AtomicSpinLock>(false); break; case 1: case 6: f<SpinLockYield>(false); break; case 2: case 7: f<GlibcPosixSpinLock>(false); break; case 3: f<PosixLock>(false); break; case 4: f<PosixSpinLock>(false); break; case 5: f<RWPosixLock>(true); break; case 8: f<AtomicSpinLock>(false); break; }
SC1("A03", locks_O, A_VAR) { EACH(locks) }
SC1("A03", bumps_O, A_VAR) { EACH(bumps) }
