#include "pl_h.hpp"
#include <map>
#include <set>
#include <deque>
#include <sstream>
#include <sys/wait.h>
PL_SCRIPT("m01.pl")
static void m01() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; c.maxSteps = 60000; c.killBorn = true;
    bool stall = choose(S_CFG, 2, 4) == 3; if (stall) c.stallP = 0.01;
    c.pidReuse = choose(S_CFG, 7, 3) == 2;
    if (faultsEnabled()) { c.killP = choose(S_CFG, 3, 2) ? 0.01 : 0; c.sigP = choose(S_CFG, 5, 3) == 2 ? 0.01 : 0; c.forkFailP = choose(S_CFG, 6, 3) == 2 ? 0.2 : 0; }
    int mainPid = 1000; std::map<int, std::deque<int> > ended; std::set<int> destroyed, wasLive; bool destroyKill = false, inDestroy = false, forkFailed = false, childDied = false, forkInWait = false, done = false; unsigned nrep = 0, order = 0;
    std::set<int> terms; PlHooks h;
    h.exit = [&](int pid, int st) { const PlProc *p = plProc(pid); if (pid != mainPid && p && p->ppid == mainPid) { ended[pid].push_back(st); ++order; childDied = true; }
        if (pid == mainPid) SIM_CHECK(done, "main-died", "the program using the manager ended with status %d; output: %.600s", st, capturedOutput()); };
    h.note = [&](int pid, const std::string &t) {
        int p = 0, st = 0, n = 0; double lim, dt;
        if (t == "!fork-fails") { if (pid == mainPid) forkFailed = true; return; }
        if (t == "wait-begin") forkInWait = false;
        else if (t == "fork-begin") { forkInWait = true; forkFailed = childDied = false; }
        else if (sscanf(t.c_str(), "fork-end %d", &p) == 1) {
            SIM_CHECK(p > 0 || forkFailed || childDied, "fork-spurious", "fork raised an exception although the system did not refuse it and no child had ended; output: %.600s", capturedOutput());
            if (p > 0) SIM_CHECK(!forkFailed, "fork-swallowed", "fork was refused but the manager returned pid %d", p);
        } else if (sscanf(t.c_str(), "adopt %d", &p) == 1) SIM_CHECK(!forkFailed, "fork-registered", "fork was refused but child %d is listed", p);
        else if (sscanf(t.c_str(), "report %d %d", &p, &st) == 2) {
            std::deque<int> &q = ended[p]; SIM_CHECK(!q.empty(), "invented-child", "pid %d reported with status %d but no such child has ended unreported", p, st);
            SIM_CHECK(q.front() == st, "wrong-status", "child %d ended with status %d, reported %d", p, q.front(), st);
            q.pop_front(); ++nrep;
        } else if (sscanf(t.c_str(), "gone %d", &p) == 1) { std::deque<int> &q = ended[p]; SIM_CHECK(!q.empty(), "child-dropped", "child %d is no longer listed but has not ended", p); q.pop_front(); }
        else if (sscanf(t.c_str(), "timed %lf %lf %d", &lim, &dt, &n) == 3) {
            if (n == 0) SIM_CHECK(dt >= lim - 1e-4, "returned-early", "wait(%g) returned nothing after %.4f s", lim, dt);
            if (!stall && !forkInWait) SIM_CHECK(dt <= lim + 0.2, "returned-late", "wait(%g) returned after %.4f s", lim, dt);
            if (n == 0) probe("wait-timed-out");
        } else if (!strncmp(t.c_str(), "destroy ", 8)) { destroyKill = t[8] == '1'; inDestroy = true; std::istringstream is(t.substr(9)); while (is >> p) { destroyed.insert(p); if (plProc(p) && plProc(p)->alive) wasLive.insert(p); } if (!wasLive.empty()) probe("destroyed-with-children"); }
        else if (t == "destroyed") { inDestroy = false; if (destroyKill) for (int q : wasLive) SIM_CHECK(!plProc(q) || !plProc(q)->alive || terms.count(q), "not-killed", "manager destroyed: child %d runs on and was not told to end", q); }
        else if (sscanf(t.c_str(), "!kill %d %d", &p, &st) == 2) { if (pid == mainPid && inDestroy) { SIM_CHECK(destroyKill, "killed", "auto_kill_on_destroy is 0 but child %d was killed", p); terms.insert(p); } }
        else if (t == "done") { done = true; for (auto &e : ended) SIM_CHECK(e.second.empty(), "child-lost", "child %d ended with status %d and was never reported", e.first, e.second.front()); }
    };
    plRun("m01_main", c, h);
    if (nrep >= 2) nontrivial();
}
SIM_SCENARIO("M01", m01_manager) { m01(); }
