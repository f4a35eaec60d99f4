#include "pl_h.hpp"
#include <map>
PL_SCRIPT("f01.pl")
// the lock file helper: one holder, wait limits, failures are exceptions
static void f01() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)];
    bool stall = choose(S_CFG, 2, 3) == 2; if (stall) c.stallP = 0.01;
    if (faultsEnabled()) { c.killP = choose(S_CFG, 3, 2) ? 0.01 : 0; c.flockErrP = choose(S_CFG, 4, 3) == 2 ? 0.03 : 0; c.sigP = choose(S_CFG, 5, 3) == 2 ? 0.01 : 0; c.forkFailP = choose(S_CFG, 6, 4) == 3 ? 0.1 : 0; }
    struct W { int f = -1; int wait = 0; bool err = false; bool holds = false; };
    std::map<int, W> w; std::map<int, int> holder, marks; std::map<int, bool> seeded; std::map<int, bool> wrote; bool cont = false;
    PlHooks h;
    auto name = [](int f) { static char b[16]; snprintf(b, sizeof b, "lock%d", f); return b; };
    auto drop = [&](int pid) { for (auto &k : holder) if (k.second == pid) k.second = 0; w[pid].holds = false; };
    h.exit = [&](int pid, int) { drop(pid); w.erase(pid); };
    h.note = [&](int pid, const std::string &t) {
        int f = -1, v = 0; double d = 0; char x[64] = ""; W &me = w[pid];
        if (t == "!flock-error") { me.err = true; return; }
        if (sscanf(t.c_str(), "want %d %d", &f, &v) == 2) { me.f = f; me.wait = v; me.err = false; if (holder[f]) cont = true; }
        else if (sscanf(t.c_str(), "acq %d %lf", &f, &d) == 2) {
            SIM_CHECK(!holder[f], "two-holders", "process %d got the lock on lock%d while process %d holds it", pid, f, holder[f]);
            SIM_CHECK(plFileLocked(name(f)), "lock-not-held", "process %d was given a handle for lock%d but the file is not exclusively locked", pid, f);
            SIM_CHECK(!me.err, "error-swallowed", "a failed lock request was reported as success");
            holder[f] = pid; me.holds = true; probe("acquired"); if (d > 0.5) probe("acquired-after-wait");
            if (!stall && me.wait >= 0) SIM_CHECK(d <= me.wait + 1.5, "late", "lock with wait time %d returned after %.3f s", me.wait, d);
        } else if (sscanf(t.c_str(), "timeout %d %lf", &f, &d) == 2) {
            SIM_CHECK(me.wait >= 0, "gave-up-without-limit", "getLock without a wait time returned nothing");
            SIM_CHECK(!me.err, "error-not-raised", "the lock request failed with an error that is not 'busy', but getLock returned undef instead of raising an exception");
            SIM_CHECK(d >= me.wait - 1e-4, "gave-up-early", "wait time %d s, gave up after %.6f s", me.wait, d);
            if (!stall) SIM_CHECK(d <= me.wait + 1.5, "late", "wait time %d s, gave up after %.6f s", me.wait, d);
            probe("timed-out"); 
        } else if (sscanf(t.c_str(), "exc %d", &f) == 1) {
            SIM_CHECK(me.err, "spurious-exception", "getLock raised an exception although no call failed: %s", t.c_str()); probe("exception"); 
        } else if (sscanf(t.c_str(), "init %d %60s", &f, x) == 2) seeded[f] = true;
        else if (!strncmp(t.c_str(), "content ", 8)) {
            f = atoi(t.c_str() + 8); std::string got = t.substr(t.find(' ', 8) + 1), want = (seeded[f] ? "seed" : "") + std::string(marks[f], '.');
            SIM_CHECK(got == want, "content-changed", "lock%d contains '%s' after acquiring the lock, expected '%s'", f, got.c_str(), want.c_str());
        } else if (sscanf(t.c_str(), "append %d", &f) == 1) ++marks[f];
        else if (sscanf(t.c_str(), "check %d", &f) == 1) SIM_CHECK(plFileLocked(name(f)), "lock-lost", "process %d holds lock%d but the file is not locked any more", pid, f);
        else if (sscanf(t.c_str(), "rel %d", &f) == 1) drop(pid);
        else if (sscanf(t.c_str(), "final %d %d", &f, &v) == 2) SIM_CHECK(v == 1, "never-freed", "all processes are gone but lock%d cannot be had", f);
    };
    plRun("f01_main", c, h);
    if (cont) nontrivial();
}
SIM_SCENARIO("F01", f01_contend) { f01(); }
