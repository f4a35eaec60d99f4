#ifndef K_HPP
#define K_HPP
#include "h.hpp"
#include "io.hpp"
#include "clk.hpp"
#include <Lintel/Clock.hpp>
#include <Lintel/Double.hpp>
#include <set>
typedef Clock::Tfrac Tfrac;
const ps_t US = 1000000, MS = 1000000000ll, SEC = 1000000000000ll;
inline ps_t psOf(Tfrac f) { return ((ps_t)f * SEC) >> 32; }
inline double sec(ps_t p) { return (double)p * 1e-12; }
static ClkWorld *W;
static const Clock::AllowUnsafeFreqScalingOpt modes[] = {Clock::AUFSO_Yes, Clock::AUFSO_WarnFast, Clock::AUFSO_WarnSlow, Clock::AUFSO_Slow, Clock::AUFSO_No, Clock::AUFSO_UseTod};
static CpuDir *dirs; static vector<ReportFile *> cpuFiles; static bool mayScale; static bool allReadable;
// processors with and without frequency scaling
static void cpus(bool plain) {
    dirs = new CpuDir; cpu_dir = dirs; dirs->exists = true; dirs->opens = dirs->closes = 0; mayScale = false; allReadable = true; dirs->names.push_back("."); dirs->names.push_back("..");
    if (!plain && choose(S_CFG, 40, 8) == 1) { dirs->exists = false; mayScale = true; return; }
    if (choose(S_CFG, 40, 2)) dirs->names.push_back("cpufreq"); unsigned n = range(S_CFG, 41, 1, 6), unfixed = plain ? 99 : choose(S_CFG, 42, 3 * n);
    for (unsigned i = 0; i < n; ++i) {
        string nm = "cpu" + std::to_string(i * 7 % 11), base = "/sys/devices/system/cpu/" + nm + "/cpufreq/"; dirs->names.push_back(nm); unsigned how = choose(S_CFG, 43, 3); string mn = "3000000\n", mx = "3000000\n", gov = "powersave\n"; bool haveMin = true, haveMax = true, haveGov = true;
        if (i == unfixed || (!plain && choose(S_CFG, 44, 12) == 1)) { mayScale = true; switch (how) { case 0: haveMin = haveMax = haveGov = false; break; case 1: mn = "1000000\n"; gov = "ondemand\n"; break; case 2: mn = "1000000\n"; haveGov = false; break; } }
        else switch (how) { case 0: break; case 1: gov = "performance\n"; mn = "800000\n"; break; case 2: gov = "performance\n"; haveMin = haveMax = false; break; }
        auto add = [&](const char *f, bool have, string text) { ReportFile &r = reportFile((base + f).c_str()); r.content = [text] { return text; }; if (!have) r.open_errno = choose(S_CFG, 45, 2) ? EACCES : ENOENT; cpuFiles.push_back(&r); };
        add("scaling_min_freq", haveMin, mn); add("scaling_max_freq", haveMax, mx); add("scaling_governor", haveGov, gov);
    }
    if (choose(S_CFG, 40, 2)) dirs->names.push_back("cpuidle"); dirs->names.push_back("online");
}
static void world() {
    W = new ClkWorld; clk_world = W; unsigned r = choose(S_CFG, 1, 4); static const uint64_t usual[] = {3000000, 2400000, 2893202, 1000000}; W->khz = r < 3 ? usual[choose(S_CFG, 2, 4)] : range(S_CFG, 2, 210000, 6000000);
    W->ccCost = choose(S_CFG, 3, 2) ? range(S_CFG, 4, 5000, 60000) : range(S_CFG, 4, 200000, 900000); W->todCost = choose(S_CFG, 5, 4) ? range(S_CFG, 6, 15000, 900000) : range(S_CFG, 6, 900000, 8000000);
    W->jitter = choose(S_CFG, 7, 3) ? range(S_CFG, 8, 0, 20000) : 0; W->jseed = choose(S_CFG, 9, 1ull << 40); static const int64_t eras[] = {1600000000, 0, 1, 86400, 2147483600, 2147483640, 4000000000ll};
    W->epoch = (ps_t)(choose(S_CFG, 10, 2) ? eras[choose(S_CFG, 11, 7)] : range(S_CFG, 11, 1, 4200000000ll)) * SEC + (ps_t)choose(S_CFG, 12, 1000000) * US;
    switch (choose(S_CFG, 13, 4)) { case 0: W->c0 = 1ull << 40; break; case 1: W->c0 = choose(S_CFG, 14, 100000); break; case 2: W->c0 = choose(S_CFG, 14, 1ull << 60); break; case 3: W->c0 = (1ull << 32) * (1 + choose(S_CFG, 14, 1000)) - choose(S_CFG, 14, 200000000); break; }
}
inline double trueMhz() { return W->khz / 1000.0; }
inline double rateError() { return fabs(Clock::clock_rate / trueMhz() - 1); }
static bool tryCalibrate(string *msg, bool print = false, double conf = 0.01) { bool bad = fatal([&] { Clock::calibrateClock(print, conf); }, msg); return !bad; }
static void noLeaks() { SIM_CHECK(dirs->opens == dirs->closes, "directory-left-open", "%u of %u directory handles never closed", dirs->opens - dirs->closes, dirs->opens); for (auto f : cpuFiles) SIM_CHECK(f->openNow() == 0, "file-left-open", "%s", f->path.c_str()); }
// one clock object and what is known about it
struct Obj {
    Clock *c; bool fresh, synced, loose; uint64_t mlo, mhi; ps_t low, steps, lowSteps; double interval; uint64_t intervalCycles; bool haveGood; uint64_t goodUs; std::set<uint64_t> seen; unsigned reads;
    Obj() : c(NULL), fresh(true), synced(false), loose(false), mlo(0), mhi(0), low(-1), steps(0), lowSteps(0), interval(1e-3), intervalCycles(0), haveGood(false), goodUs(0), reads(0) { }
    void setInterval(double s) { interval = s; intervalCycles = (uint64_t)(s * 1e6 * Clock::clock_rate); fresh = true; }
};
// reads the clock through o and checks the reading; direct: it must come from the system
static void reading(Obj &o, bool direct) {
    W->log.clear(); W->logging = true; ps_t s0 = W->sys(), t0 = W->t; unsigned j0 = W->nJump, st0 = W->nStep; ps_t b0 = W->backSteps; Tfrac r = 0; string msg; bool bad = fatal([&] { r = o.c->todccTfrac(); }, &msg); W->logging = false; ps_t s1 = W->sys(), t1 = W->t; bool jumped = W->nJump != j0, stepped = W->nStep != st0; ++o.reads;
    ps_t backs = W->backSteps - o.steps; ps_t sLo = std::min(s0, s1) - (W->backSteps - b0), sHi = std::max(s0, s1) + (W->backSteps - b0); uint64_t first = 0, lo = ~0ull, hi = 0, tod = 0; bool any = false, haveTod = false; for (auto &p : W->log) { if (p.kind == 0) { if (!any) first = p.v; any = true; lo = std::min(lo, p.v); hi = std::max(hi, p.v); } else { if (!haveTod) tod = p.v; haveTod = true; } }
    ps_t unit = 300, q = US, rd = psOf(r); double eps = rateError(); ps_t iv = (ps_t)(o.interval * 1e12 * (1 + 2 * eps)) + 1000, meas = (ps_t)(Clock::max_recalibrate_measure_time / trueMhz() * 1e6), slack = q + meas + (ps_t)(o.interval * 1e12 * (1 + 2 * eps) * eps) + 3 * unit + 1000;
    bool must = direct || o.fresh || !any || first <= o.mlo || first > o.mhi + o.intervalCycles + 2;
    note("   reading %u at %.9f..%.9f s: %s %.9f (counter %llu, last %llu..%llu, %s%s)", o.reads, sec(s0), sec(s1), bad ? "FATAL" : "gives", sec(rd), (unsigned long long)first, (unsigned long long)o.mlo, (unsigned long long)o.mhi, must ? "from the system" : o.synced ? "extrapolated" : "disturbed", haveTod ? ", system asked" : "");
    ev("reading", (int64_t)(rd - (W->epoch)), must, bad); stateHash((must ? 1 : 0) + (o.synced ? 2 : 0) + (jumped ? 4 : 0) + (stepped ? 8 : 0) + (bad ? 16 : 0) + (haveTod ? 32 : 0));
    bool inDirect = rd >= sLo / US * US - unit && rd <= sHi + unit;
    if (bad) { bool back = false; if (haveTod) for (uint64_t x : o.seen) if (x > tod) back = true; SIM_CHECK(back, "valid-use-refused", "a reading failed though the system clock did not go back: %s", msg.c_str()); SIM_CHECK(!direct || !o.haveGood, "valid-use-refused", "a reading that comes from the system failed: %s", msg.c_str()); probe("system-clock-back-detected"); o.loose = true; o.synced = false; return; }
    if (must && !o.loose) {
        SIM_CHECK(inDirect, direct ? "not-from-system" : "counter-fault-believed", "reading %.9f, the system clock went from %.9f to %.9f; %s", sec(rd), sec(s0), sec(s1), direct ? "it must come from the system" : "the counter had gone back or past the interval");
        if (!direct && o.haveGood && haveTod && !stepped) SIM_CHECK(tod >= o.goodUs, "backward-time-accepted", "the system clock gave %.6f after %.6f, which was not noticed", tod * 1e-6, o.goodUs * 1e-6);
    } else if (o.synced && !jumped && !stepped) {
        SIM_CHECK(rd >= s0 - slack && rd <= s1 + slack, "reading-off", "reading %.9f, the system clock went from %.9f to %.9f, allowed error %.9f", sec(rd), sec(s0), sec(s1), sec(slack)); if (!haveTod) probe("extrapolated-checked");
    } else {
        probe("disturbed-checked"); SIM_CHECK(inDirect || rd <= sHi + backs + iv + slack, "reading-beyond-interval", "reading %.9f, the system clock only reached %.9f, interval %.6f", sec(rd), sec(sHi), o.interval); SIM_CHECK(inDirect || o.low < 0 || rd >= o.low - (W->backSteps - o.lowSteps), "reading-before-calibration", "reading %.9f lies before the last calibration, at or after %.9f", sec(rd), sec(o.low));
    }
    for (auto &p : W->log) if (p.kind == 1) o.seen.insert(p.v);
    if (direct) return;
    // what is known from here on
    if (must && !jumped && !stepped && !o.loose) { o.synced = true; o.steps = W->backSteps; } else if (jumped || stepped) o.synced = false;
    if (o.loose) { o.synced = false; if (must && !jumped) o.loose = false; }
    if (o.synced) { o.low = std::min(s0, s1) - iv - slack; o.lowSteps = W->backSteps; }
    // quick recalibration: the system clock was read between two close counter values
    if (haveTod) { o.haveGood = false; size_t n = W->log.size(); if (!jumped && n >= 3 && W->log[n-1].kind == 0 && W->log[n-2].kind == 1 && W->log[n-3].kind == 0 && W->log[n-1].v > W->log[n-3].v && W->log[n-1].v - W->log[n-3].v < Clock::max_recalibrate_measure_time) { o.haveGood = true; o.goodUs = W->log[n-2].v; } else if (!jumped) probe("slow-recalibration"); }
    if (any) { o.mlo = lo; o.mhi = hi; } o.fresh = false; (void)t0; (void)t1;
}
#endif
