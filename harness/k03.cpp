// K03: calibration and per-thread clocks
#include "k.hpp"
#include "thr.hpp"
SIM_SCENARIO("K03", calibrate, 4) {
    throwingAsserts(); world(); cpus(true); Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); string msg; unsigned how = 0; bool low = false;
    if (choose(S_CFG, 30, 8) == 1) { W->khz = range(S_CFG, 31, 20000, 195000); low = true; }
    if (faultsEnabled()) { how = 1 + choose(S_FAULT, 0, 5); W->deschedMax = (ps_t)range(S_FAULT, 1, 1, 10000) * 100 * US;
        switch (how) {
        case 1: W->deschedLeft = 2; W->pDesched = 1.0 / (1 << range(S_FAULT, 2, 3, 14)); break; // at most two disturbances
        case 2: W->deschedLeft = 9; W->deschedMax = std::min(W->deschedMax, MS); W->pDesched = 1.0 / (1 << range(S_FAULT, 2, 3, 14)); break; // fewer than a quarter of the measurements
        case 3: W->pNoise = 0.01 * range(S_FAULT, 3, 1, 90); W->noiseMax = (ps_t)range(S_FAULT, 4, 1, 60000) * 1000; W->noiseFrom = choose(S_FAULT, 4, 2) ? 0 : choose(S_FAULT, 4, 4000); break; // slow reads throughout, or from some time on
        case 4: W->pDesched = 0.00001 * range(S_FAULT, 5, 1, 300); W->deschedMax = std::min(W->deschedMax, 20 * MS); break; // a loaded machine
        case 5: { unsigned n = 2 + choose(S_FAULT, 6, 4); W->cpuOff.clear(); int64_t m = (int64_t)1 << choose(S_FAULT, 6, 30); for (unsigned i = 0; i < n; ++i) W->cpuOff.push_back(i ? choose(S_FAULT, 7, m) : 0); W->pMigrate = 0.00001 * range(S_FAULT, 6, 1, 300); if (choose(S_FAULT, 7, 3) == 1) { W->pJump = W->pMigrate; W->jumpMax = m; } break; } // counters that differ
        } }
    double conf = choose(S_CFG, 32, 4) == 1 ? 0.001 * range(S_CFG, 33, 2, 10) : 0.01; bool ok = tryCalibrate(&msg, choose(S_CFG, 34, 4) == 1, conf); size_t tods = W->tods; simTime((uint64_t)(W->t / 1000));
    note("   %s after %.6f s, %llu reads of the counter or clock (%zu of the clock), %u disturbances: %.4f MHz measured as %.4f %s", ok ? "done" : "refused", sec(W->t), (unsigned long long)W->ops, tods, W->nDesched + W->nJump, trueMhz(), Clock::clock_rate, msg.c_str()); ev("calibrated", ok, ok ? (int64_t)(Clock::clock_rate * 100) : 0, tods);
    ps_t active = W->t - W->tDesched, one = 2 * (US + 3 * (W->todCost + W->jitter) + 4 * (W->ccCost + W->jitter)) + 2 * W->noiseMax; 
    SIM_CHECK(ok || how >= 3 || low || conf < 0.01, "valid-use-refused", "calibration of a steady %.3f MHz counter refused: %s", trueMhz(), msg.c_str()); if (ok && low) SIM_CHECK(false, "implausible-accepted", "a counter of %.4f MHz was accepted as %.4f MHz", trueMhz(), Clock::clock_rate);
    if (!ok) { // refused: the clock is as it was, and another try on a machine that behaves is as good as the first
        SIM_CHECK(!Clock::isCalibrated(), "refused-but-used", "calibration was refused (%s) but the clock counts as calibrated at %.4f MHz", msg.c_str(), Clock::clock_rate);
        string m2; if (choose(S_CFG, 35, 2)) { Clock *k = NULL; bool bad = fatal([&] { k = new Clock(false); }, &m2); SIM_CHECK(bad, "refused-but-used", "a clock was made without calibration"); delete k; }
        bool settled = choose(S_CFG, 37, 2) == 0; if (settled) { W->pDesched = W->pNoise = W->pJump = W->pMigrate = 0; W->deschedLeft = 0; if (low) W->khz *= 20; low = false; }
        if (settled) { ok = tryCalibrate(&msg, false, 0.01); SIM_CHECK(ok, "valid-use-refused", "calibration of a steady %.3f MHz counter refused after an earlier failure: %s", trueMhz(), msg.c_str()); how = 0; probe("calibrated-after-refusal"); SIM_CHECK(rateError() < 0.05, "rate-wrong", "%.4f MHz measured as %.4f MHz", trueMhz(), Clock::clock_rate); }
        else { bool ok2 = tryCalibrate(&m2, false, 0.01); if (ok2 && low) SIM_CHECK(false, "implausible-accepted", "a counter of %.4f MHz was accepted as %.4f MHz at the second try", trueMhz(), Clock::clock_rate); SIM_CHECK(ok2 == Clock::isCalibrated(), "refused-but-used", "second calibration %s", m2.c_str()); }
        nontrivial(); return;
    }
    if (ok) { SIM_CHECK(Clock::isCalibrated(), "not-calibrated", "calibration completed but is not known"); double inv = 4294.967296 / Clock::clock_rate; SIM_CHECK(fabs(Clock::inverse_clock_rate_tfrac / inv - 1) < 1e-9, "rate-inconsistent", "inverse rate %g for %g MHz", Clock::inverse_clock_rate_tfrac, Clock::clock_rate); }
    if (ok && how != 5) SIM_CHECK(rateError() < 0.05 + (how == 3 ? (double)W->noiseMax / (25 * US) : 0), "rate-wrong", "%.4f MHz measured as %.4f MHz", trueMhz(), Clock::clock_rate);
    // ten tries of at most 400 measurements and 128 failures each; the rest is finding out how the clocks tick
    SIM_CHECK(tods <= 12 * (400 + 130) * 2 + 200 * (US / W->todCost + 3) + 3000 + 40 * W->nJump, "measures-forever", "%zu readings of the system clock for one calibration", tods);
    if (how < 2 || how == 3) SIM_CHECK(active < 5280 * (27 * one) + 5 * SEC, "takes-forever", "calibration took %.3f s besides %.3f s of disturbance; one clock tick takes %.9f s", sec(active), sec(W->tDesched), sec(one));
    nontrivial();
}
static void threadPoint() { point(1); }
SIM_SCENARIO("K03", threads, 2) {
    throwingAsserts(); world(); cpus(true); W->khz = range(S_CFG, 2, 1000000, 3000000); W->ccCost = 900000; W->todCost = range(S_CFG, 6, 300000, 900000); Clock::AllowUnsafeFreqScalingOpt mode = modes[choose(S_CFG, 20, 3)]; if (choose(S_CFG, 20, 6) == 1) mode = Clock::AUFSO_UseTod; Clock::allowUnsafeFrequencyScaling(mode); W->point = threadPoint;
    setBudget(3000000); thrBegin(); unsigned n = range(S_CFG, 50, 1, 6); bool mainFirst = choose(S_CFG, 51, 2) == 0; static Clock *mine[8]; static double rate[8]; static bool refused; static string why; static ps_t doneAt; string msg; refused = false;
    auto setup = [&] { string m; if (fatal([&] { Clock::perThreadInit(); }, &m)) { refused = true; why = m; return false; } SIM_CHECK(Clock::isCalibrated(), "not-calibrated", "set-up returned before calibration was done"); return true; };
    if (faultsEnabled() && mode != Clock::AUFSO_UseTod && choose(S_FAULT, 8, 3) == 0) { // a first set-up that is refused leaves the next one its chance
        W->khz /= 50; string m; bool bad = fatal([&] { Clock::perThreadInit(); }, &m); W->khz *= 50; SIM_CHECK(bad, "implausible-accepted", "a counter of %.4f MHz was accepted", trueMhz() / 50); fault("refused-set-up");
        SIM_CHECK(!Clock::isCalibrated(), "refused-but-used", "calibration was refused (%s) but the clock counts as calibrated at %.4f MHz", m.c_str(), Clock::clock_rate);
    }
    if (mainFirst) setup();
    if (!refused) for (unsigned i = 0; i < n; ++i) spawn([&, i] {
        unsigned times = mainFirst ? choose(S_WORK, i, 3) : 1 + choose(S_WORK, i, 3); for (unsigned k = 0; k < times; ++k) if (!setup() || refused) return; if (refused) return;
        Clock *c = NULL; for (unsigned k = 0; k < 1 + choose(S_WORK, 10 + i, 4); ++k) { string m; Clock *d = NULL; if (fatal([&] { d = &Clock::perThread(); }, &m)) violate("valid-use-refused", "perThread after set-up: %s", m.c_str()); SIM_CHECK(!c || c == d, "clock-changed", "a thread's clock object changed"); c = d; }
        { NoPreempt np; for (unsigned k = 0; k < 8; ++k) SIM_CHECK(k == i || mine[k] != c, "clock-shared", "threads %u and %u have the same clock", i, k); mine[i] = c; rate[i] = Clock::clock_rate; }
        bool direct = mode == Clock::AUFSO_UseTod; for (unsigned k = 0; k < choose(S_WORK, 20 + i, 10); ++k) { ps_t s0 = W->sys(); Tfrac r = c->todccTfrac(); ps_t s1 = W->sys(); ps_t slack = direct ? 300 : (ps_t)(MS * rateError()) + 3 * US + (ps_t)(Clock::max_recalibrate_measure_time / trueMhz() * 1e6); SIM_CHECK(psOf(r) >= s0 / US * US - slack && psOf(r) <= s1 + slack, "reading-off", "thread %u: %.9f between %.9f and %.9f", i, sec(psOf(r)), sec(s0), sec(s1)); NoPreempt np; W->pass((ps_t)choose(S_WORK, 30 + i, 2000) * US); }
    });
    joinAll(); thrEnd(); W->point = NULL; simTime((uint64_t)(W->t / 1000)); note("   rate %.4f measured as %.4f %s", trueMhz(), Clock::clock_rate, why.c_str());
    if (refused) { SIM_CHECK(why.find("two threads") == string::npos, "calibrated-twice", "%s", why.c_str()); SIM_CHECK(n > 1 || faultsEnabled(), "valid-use-refused", "%s", why.c_str()); return; }
    for (unsigned i = 0; i < n; ++i) SIM_CHECK(rate[i] == Clock::clock_rate, "calibrated-twice", "thread %u saw %g MHz, now it is %g", i, rate[i], Clock::clock_rate);
    (void)doneAt; if (n > 1) nontrivial();
}
