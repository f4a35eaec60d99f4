// K01: the fast clock against the simulated system clock while time behaves
#include "k.hpp"
static void conversions(ps_t s) {
    uint64_t us = (uint64_t)(s / US), ns = (uint64_t)(s / 1000); if (us / 1000000 >= 4294967295ull) return; uint32_t a = us / 1000000, b = us % 1000000, n = ns % 1000000000; Tfrac f = Clock::secMicroToTfrac(a, b), g = Clock::secNanoToTfrac(a, n);
    SIM_CHECK(Clock::TfracToSec(f) == a && Clock::TfracToMicroSec(f) == b, "conversion-lossy", "%u.%06u s becomes %u.%06u", a, b, Clock::TfracToSec(f), Clock::TfracToMicroSec(f));
    SIM_CHECK(Clock::TfracToSec(g) == a && Clock::TfracToNanoSec(g) == n, "conversion-lossy", "%u.%09u s becomes %u.%09u", a, n, Clock::TfracToSec(g), Clock::TfracToNanoSec(g));
    SIM_CHECK(Clock::TfracToTll(f) == (Clock::Tll)us, "conversion-lossy", "%llu us becomes %lld", (unsigned long long)us, Clock::TfracToTll(f)); struct timeval tv = Clock::TfracToStructTimeval(f); SIM_CHECK(tv.tv_sec == (time_t)a && tv.tv_usec == (suseconds_t)b, "conversion-lossy", "timeval");
    double d = Clock::TfracToDouble(f); SIM_CHECK(fabs(d - (double)us * 1e-6) <= 1e-9 + d * 1e-15, "conversion-lossy", "%llu us becomes %.9f s", (unsigned long long)us, d); Tfrac h = Clock::secondsToTfrac(d); SIM_CHECK(fabs((double)(int64_t)(h - f)) <= 2 + d * 1e-15 * 4294967296.0, "conversion-lossy", "%.9f s becomes %llx, was %llx", d, (unsigned long long)h, (unsigned long long)f);
    double off = ((double)choose(S_DATA, 3, 2000001) - 1000000) * 1e-4; if (d + off >= 0 && d + off < 4294967295.0) { Tfrac o = Clock::TfracOffsetDouble(f, off); SIM_CHECK(fabs(Clock::TfracToDouble(o) - (d + off)) <= 1e-9 + (d + fabs(off)) * 1e-15, "conversion-lossy", "%.9f + %.9f gives %.9f", d, off, Clock::TfracToDouble(o)); }
    double back = (double)(us % 1000000000ull) * 1e-6; // seconds with all their digits
    back = nextafter(back, choose(S_DATA, 4, 2) ? 0 : 1e10); if (choose(S_DATA, 4, 4) == 1) back = nextafter((double)(1 + a % 1000), 0); if (back < 0) back = 0; SIM_CHECK(fabs(Clock::TfracToDouble(Clock::secondsToTfrac(back)) - back) <= 2.4e-10 + back * 1e-15, "conversion-lossy", "%.17g s becomes %.17g", back, Clock::TfracToDouble(Clock::secondsToTfrac(back)));
    int64_t dlt = (int64_t)((us % 1000000000ull) << 22); SIM_CHECK(Clock::int64TfracToDouble(-dlt) == -Clock::int64TfracToDouble(dlt), "conversion-lossy", "negative differences");
}
SIM_SCENARIO("K01", steady, 1) {
    throwingAsserts(); world(); cpus(true); Clock::AllowUnsafeFreqScalingOpt mode = modes[choose(S_CFG, 20, 6)]; Clock::allowUnsafeFrequencyScaling(mode); string msg;
    SIM_CHECK(tryCalibrate(&msg, choose(S_CFG, 21, 4) == 1), "valid-use-refused", "calibration of a steady %.3f MHz counter refused: %s", trueMhz(), msg.c_str()); if (mode == Clock::AUFSO_UseTod) { Clock c; Obj o; o.c = &c; for (int i = 0; i < 5; ++i) reading(o, true); return; }
    ev("calibrated", (int64_t)Clock::clock_rate); note("   rate %.4f MHz measured as %.4f", trueMhz(), Clock::clock_rate); SIM_CHECK(rateError() < 0.05, "rate-wrong", "%.4f MHz measured as %.4f", trueMhz(), Clock::clock_rate);
    if (faultsEnabled()) { W->deschedMax = (ps_t)range(S_FAULT, 0, 1, 5000) * 100 * US; W->pDesched = 0.001 * choose(S_FAULT, 1, 200); W->pTodSlow = 0.001 * choose(S_FAULT, 2, 300); }
    unsigned nobj = range(S_CFG, 22, 1, 3); vector<Obj> os(nobj); for (auto &o : os) { o.c = new Clock; o.setInterval(1e-3); }
    int n = range(S_CFG, 23, 1, tierThorough() ? 3000 : 600); bool ext = false, rec = false;
    for (int i = 0; i < n; ++i) {
        Obj &o = os[choose(S_WORK, 0, nobj)]; unsigned w = chooseW(S_WORK, 1, {60, 3, 1, 2, 2});
        switch (w) {
        case 0: { unsigned k = choose(S_WORK, 2, 6); ps_t gap = k < 2 ? (ps_t)choose(S_WORK, 3, 3000000) : k < 4 ? (ps_t)choose(S_WORK, 3, 1000000) * (ps_t)(o.interval * 2e6) : k == 4 ? (ps_t)choose(S_WORK, 3, 1000) * US : 0; W->pass(gap); size_t r0 = o.c->nrecalibrate; reading(o, false); if (o.c->nrecalibrate == r0) ext = true; else rec = true; break; }
        case 1: W->pass((ps_t)choose(S_WORK, 4, 100000) * SEC / (choose(S_WORK, 4, 2) ? 1000 : 20)); break;
        case 2: { double s = choose(S_WORK, 5, 3) ? 1e-6 * range(S_WORK, 6, 1, 100000) : 1e-3 * range(S_WORK, 6, 1, 1100); string m; bool bad = fatal([&] { o.c->setRecalibrateIntervalSeconds(s); }, &m); double lim = std::min(1.0, 4294.967296 / trueMhz()); if (bad) { SIM_CHECK(s > 0.2 * lim, "valid-use-refused", "interval %g refused at %.1f MHz", s, trueMhz()); o.fresh = true; o.loose = true; } else { SIM_CHECK(s < lim * 1.06, "interval-too-long", "interval %g accepted at %.1f MHz: the counter difference does not fit", s, trueMhz()); o.setInterval(s); } break; }
        case 3: { ps_t s0 = W->sys(); Clock::Tll l = Clock::todll(); double d = Clock::tod(); Tfrac f = Clock::todTfrac(); ps_t s1 = W->sys(); SIM_CHECK(l >= (Clock::Tll)(s0 / US) && l <= (Clock::Tll)(s1 / US) && d >= sec(s0) - 3e-6 && d <= sec(s1) + 3e-6 && psOf(f) >= s0 / US * US - 300 && psOf(f) <= s1 + 300, "system-reading-wrong", "%lld us, %.6f s, %llx between %.9f and %.9f", l, d, (unsigned long long)f, sec(s0), sec(s1)); break; }
        case 4: conversions(W->sys() + (ps_t)choose(S_DATA, 1, 1000000) * 1000 * (1 + choose(S_DATA, 2, 1000))); break;
        }
    }
    simTime((uint64_t)(W->t / 1000)); noLeaks(); if (ext && rec) nontrivial();
}
