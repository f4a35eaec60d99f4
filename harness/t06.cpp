// T06: lock ordering groups
#include "h.hpp"
#include <Lintel/PThread.hpp>
struct Ctx { vector<LockOrderingGroup *> g; vector<PThreadMutex *> m; bool ec; };
static Ctx *C;
static double cur[64][4];    // model: level per thread and group
static void verify(const char *where) { unsigned s = tid(); for (size_t i = 0; i < C->g.size(); ++i) SIM_CHECK(C->g[i]->curLevel() == cur[s][i], "level-wrong", "%s: group %zu level %g, expected %g", where, i, C->g[i]->curLevel(), cur[s][i]); }
static bool heldByMe(int mi) { return ownerWithin(C->m[mi], sizeof(PThreadMutex)) == tid(); }
static void nest(int depth, int minm);
static void inner(PThreadScopedLock &l, int gi, int mi, double lvl, double old, int depth) {
    unsigned s = tid(); unsigned k = choose(S_WORK, s, 4);
    if (k == 1) { nest(depth - 1, mi + 1); verify("after nested"); }
    if (choose(S_WORK, s, 3) == 1) {
        bool thr = choose(S_WORK, s, 3) == 1;
        try {
            PThreadScopedUnlock u(l); cur[s][gi] = old; SIM_CHECK(!heldByMe(mi), "unlock-held", "scoped unlock but still held");
            verify("in scoped unlock");
            struct Re { int s, gi; double l; ~Re() { cur[s][gi] = l; } } re = {(int)s, gi, lvl};
            // while unlocked, anything above the outer level may be taken, nothing that this thread still holds though
            if (choose(S_WORK, s, 2)) nest(depth - 1, mi + 1);
            cur[s][gi] = old; verify("end of scoped unlock");
            if (thr) throw TestExc(5);
        } catch (TestExc &) { probe("exception-through-unlock"); }
        cur[s][gi] = lvl; verify("after scoped unlock"); SIM_CHECK(heldByMe(mi), "not-relocked", "scoped unlock ended but not held");
    }
    if (choose(S_WORK, s, 4) == 1) throw TestExc(6);
}
static void nest(int depth, int minm) {
    unsigned s = tid(); if (depth <= 0 || minm >= (int)C->m.size()) return;
    int n = 1 + choose(S_WORK, s, 2);
    for (int i = 0; i < n; ++i) {
        int gi = choose(S_WORK, s, C->g.size()), mi = minm + choose(S_WORK, s, C->m.size() - minm); double lvl = (double)choose(S_WORK, s, 8) - 1 + (choose(S_WORK, s, 2) ? 0.5 : 0); if (choose(S_WORK, s, 12) == 1) lvl = cur[s][gi] + (choose(S_WORK, s, 2) ? 1e-9 : 0);
        bool ok = lvl > cur[s][gi]; double old = cur[s][gi]; 
        ev("order", s, gi * 100 + (int)(lvl * 2), ok); uint64_t b = mutexBusy(s), bl = mutexBlocks(s); (void)b;
        bool threw = false;
        try {
            PThreadScopedLock l(*C->m[mi], *C->g[gi], lvl);
            SIM_CHECK(ok, "violation-accepted", "level %g taken over level %g without an error", lvl, old);
            SIM_CHECK(heldByMe(mi), "not-held", "ordered lock not held"); cur[s][gi] = lvl; verify("after lock");
            if (choose(S_WORK, s, 5) == 1) { C->g[choose(S_WORK, s, C->g.size())]->prepare(); verify("after prepare while holding"); }
            try { inner(l, gi, mi, lvl, old, depth); } catch (TestExc &) { cur[s][gi] = old; probe("exception-exit"); throw; }
            cur[s][gi] = lvl; verify("before release"); cur[s][gi] = old;
        } catch (AssertBoostException &e) { threw = true; SIM_CHECK(!ok, "correct-order-refused", "level %g over %g refused: %s", lvl, old, e.msg.c_str()); SIM_CHECK(!heldByMe(mi) && mutexBlocks(s) == bl, "violation-took-lock", "order violation reported only after taking or waiting for the lock"); probe("violation-reported"); }
        catch (TestExc &) { }
        cur[s][gi] = old; (void)threw;
        verify("after scope"); SIM_CHECK(!heldByMe(mi), "left-held", "still held");
    }
}
SIM_SCENARIO("T06", nesting, 4) {
    throwingAsserts(); thrBegin(); C = new Ctx; memset(cur, 0, sizeof cur);
    int ng = range(S_CFG, 0, 1, 2), nm = range(S_CFG, 0, 2, 4), nt = range(S_CFG, 0, 1, 3), rounds = range(S_CFG, 0, 1, 3);
    for (int i = 0; i < ng; ++i) C->g.push_back(new LockOrderingGroup);
    for (int i = 0; i < nm; ++i) C->m.push_back(new PThreadMutex(choose(S_CFG, 0, 2)));
    for (int i = 0; i < nt; ++i) spawn([=] { for (auto g : C->g) { g->prepare(); if (choose(S_WORK, tid(), 2)) g->prepare(); } verify("start"); for (int r = 0; r < rounds; ++r) { nest(3, 0); for (auto g : C->g) { if (choose(S_WORK, tid(), 4) == 1) g->prepare(); } verify("round"); } });
    joinAll(); verify("main"); nontrivial(); thrEnd();
}
// one thread deep in the group must not influence others: a fresh thread may take the lowest level while another holds the highest
SIM_SCENARIO("T06", isolation, 1) {
    throwingAsserts(); thrBegin(); C = new Ctx; memset(cur, 0, sizeof cur); C->g.push_back(new LockOrderingGroup); for (int i = 0; i < 4; ++i) C->m.push_back(new PThreadMutex);
    int nt = range(S_CFG, 0, 2, 4);
    for (int i = 0; i < nt; ++i) spawn([=] { LockOrderingGroup &g = *C->g[0]; g.prepare(); double lv[] = {1, 10, 5, 0.25};
        for (int k = 0; k < 3; ++k) { PThreadScopedLock l(*C->m[i % 4], g, lv[i % 4]); point(1); SIM_CHECK(g.curLevel() == lv[i % 4], "level-wrong", "level %g", g.curLevel()); }
        SIM_CHECK(g.curLevel() == 0, "level-wrong", "level left at %g", g.curLevel()); });
    joinAll(); nontrivial(); thrEnd();
}
// acquiring fails inside an ordered scope (error-checking mutex relocked): level must come back
SIM_SCENARIO("T06", failing_lock, 1) {
    throwingAsserts(); thrBegin(); LockOrderingGroup *g = new LockOrderingGroup; PThreadMutex *m = new PThreadMutex(true); int nt = range(S_CFG, 0, 1, 3);
    for (int i = 0; i < nt; ++i) spawn([=] { g->prepare(); { PThreadScopedLock l(*m, *g, 1); 
        bool ft = fatal([&] { PThreadScopedLock l2(*m, *g, 2); }); SIM_CHECK(ft, "relock-unreported", "relock not reported"); SIM_CHECK(g->curLevel() == 1, "level-after-failed-lock", "failed ordered lock left the level at %g", g->curLevel()); probe("failed-lock"); }
        SIM_CHECK(g->curLevel() == 0, "level-wrong", "level %g at the end", g->curLevel()); });
    joinAll(); nontrivial(); thrEnd();
}
