// K02: readings through counter faults, system-clock steps and frequency scaling
#include "k.hpp"
SIM_SCENARIO("K02", disturbed, 3) {
    throwingAsserts(); world(); cpus(choose(S_CFG, 19, 3) > 0); Clock::AllowUnsafeFreqScalingOpt mode = modes[chooseW(S_CFG, 20, {4, 3, 1, 1, 1, 1})]; bool slow = mode == Clock::AUFSO_WarnSlow || mode == Clock::AUFSO_Slow; Clock::allowUnsafeFrequencyScaling(mode); string msg; bool ok = tryCalibrate(&msg);
    if (mode == Clock::AUFSO_No && mayScale) { SIM_CHECK(!ok, "unsafe-scaling-accepted", "calibration went on though the frequency may change"); nontrivial(); return; }
    SIM_CHECK(ok, "valid-use-refused", "calibration refused: %s", msg.c_str()); if (mode != Clock::AUFSO_Yes && mode != Clock::AUFSO_UseTod) { SIM_CHECK(Clock::getFrequencyScalingInfo().second == mayScale, "scaling-misjudged", "frequency scaling judged %d, should be %d", Clock::getFrequencyScalingInfo().second, mayScale); bool warned = strstr(capturedOutput(), "requency scaling may be") != NULL; SIM_CHECK(warned == (mayScale && (mode == Clock::AUFSO_WarnFast || mode == Clock::AUFSO_WarnSlow)), "warning-wrong", "warned %d, scaling %d, mode %d", warned, mayScale, mode); noLeaks(); }
    bool direct = mode == Clock::AUFSO_UseTod || (slow && mayScale); SIM_CHECK(Clock::isCalibrated() && Clock::getFrequencyScalingInfo().first == mode, "mode-wrong", "mode %d", Clock::getFrequencyScalingInfo().first);
    if (faultsEnabled()) { W->deschedMax = (ps_t)range(S_FAULT, 0, 1, 5000) * 100 * US; W->pDesched = 0.001 * choose(S_FAULT, 1, 200); W->pTodSlow = 0.001 * choose(S_FAULT, 2, 200);
        if (choose(S_FAULT, 3, 2)) { W->pJump = 0.001 * choose(S_FAULT, 4, 100); W->jumpMax = (int64_t)1 << choose(S_FAULT, 5, 50); W->jumpReset = choose(S_FAULT, 5, 3) == 1; } if (choose(S_FAULT, 3, 2)) { unsigned n = 2 + choose(S_FAULT, 6, 4); W->cpuOff.clear(); int64_t m = (int64_t)1 << choose(S_FAULT, 6, 38); for (unsigned i = 0; i < n; ++i) W->cpuOff.push_back(i ? choose(S_FAULT, 7, m) : 0); W->pMigrate = 0.001 * choose(S_FAULT, 6, 200); }
        if (choose(S_FAULT, 3, 3) == 1) { W->pStep = 0.001 * choose(S_FAULT, 8, 60); W->stepMax = (ps_t)range(S_FAULT, 8, 1, 1000) * (choose(S_FAULT, 8, 2) ? MS : SEC); W->stepBack = choose(S_FAULT, 8, 2); } }
    if (W->epoch < 2000 * SEC) W->epoch += 400000 * SEC;
    unsigned nobj = range(S_CFG, 22, 1, 3); vector<Obj> os(nobj); for (auto &o : os) { o.c = new Clock; if (!direct) o.setInterval(1e-3); }
    int n = range(S_CFG, 23, 1, tierThorough() ? 3000 : 600); unsigned jumps = 0;
    for (int i = 0; i < n; ++i) {
        Obj &o = os[choose(S_WORK, 0, nobj)]; unsigned w = chooseW(S_WORK, 1, {60, 3, 1}); unsigned j0 = W->nJump + W->nStep;
        switch (w) {
        case 0: { unsigned k = choose(S_WORK, 2, 6); ps_t gap = k < 2 ? (ps_t)choose(S_WORK, 3, 3000000) : k < 4 ? (ps_t)choose(S_WORK, 3, 1000000) * (ps_t)(o.interval * 2e6) : k == 4 ? (ps_t)choose(S_WORK, 3, 1000) * US : 0; W->pass(gap); for (auto &p : os) if (W->nJump + W->nStep != j0) p.synced = false; reading(o, direct); break; }
        case 1: W->pass((ps_t)choose(S_WORK, 4, 100000) * SEC / (choose(S_WORK, 4, 2) ? 1000 : 20)); break;
        case 2: if (!direct) { double s = 1e-6 * range(S_WORK, 6, 1, 100000); o.c->setRecalibrateIntervalSeconds(s); o.setInterval(s); } break;
        }
        // a fault seen by one object's reading disturbs the others too
        if (W->nJump + W->nStep != j0) { ++jumps; for (auto &p : os) if (&p != &o) p.synced = false; }
    }
    // once the counter runs steadily again the clock recovers by itself
    W->pJump = W->pMigrate = W->pStep = W->pDesched = W->pTodSlow = 0; bool stepped = W->nStep > 0;
    for (auto &o : os) { unsigned good = 0; ps_t last = 0; for (int i = 0; i < 6; ++i) { W->pass((ps_t)(o.interval * 1.2e12) + MS); if (i == 5 && stepped) W->pass(4 * W->backSteps); o.fresh = o.fresh || i >= 1 || false; Tfrac r = 0; string m; ps_t s0 = W->sys(); bool bad = fatal([&] { r = o.c->todccTfrac(); }, &m); ps_t s1 = W->sys(); if (!bad && psOf(r) >= s0 / US * US - 300 && psOf(r) <= s1 + 300) ++good; last = psOf(r) - s0; if (bad) SIM_CHECK(stepped && i < 5, "valid-use-refused", "%s", m.c_str()); }
        // 300 s of counter time may pass before a counter that went far back is past what was seen, so only the last readings count
        SIM_CHECK(good >= 1, "no-recovery", "six readings, each an interval after the other, with steady clocks: none is right (last off by %.9f s)", sec(last)); }
    simTime((uint64_t)(W->t / 1000)); if (jumps > 2 || direct) nontrivial();
}
