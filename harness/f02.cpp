#include "pl_h.hpp"
#include <map>
PL_SCRIPT("f02.pl")
// the lock command: protected commands and caller-lifetime holders never overlap, exit statuses tell the truth
static void f02() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; c.maxSteps = 40000;
    bool stall = choose(S_CFG, 2, 3) == 2; if (stall) c.stallP = 0.01;
    if (faultsEnabled()) { c.killBorn = true; static const double kp[] = {0, 0.003, 0.012}; c.killP = kp[choose(S_CFG, 3, 3)]; c.flockErrP = choose(S_CFG, 4, 4) == 3 ? 0.03 : 0; c.forkFailP = choose(S_CFG, 6, 4) == 3 ? 0.07 : 0; c.fileErrP = choose(S_CFG, 5, 5) == 4 ? 0.05 : 0; }
    struct L { int n = 0, f = -1, wait = 0, want = 0; bool err = false, dead = false, ran = false, over = false, cmdkilled = false; uint64_t t0 = 0; double dt = 0; int st = -1; };
    std::map<int, L> lf; std::map<int, int> byPid, cmdOf, cmdPid; struct Bg { int caller = 0, f = -1; bool killed = false, rel = false; uint64_t gone = 0; }; std::map<int, Bg> bg;
    struct H { int n = 0; int pid = 0; }; std::map<int, H> holder; bool cont = false;   // pid: whose end ends the holding besides its release
    PlHooks h;
    auto name = [](int f) { static char b[16]; snprintf(b, sizeof b, "lock%d", f); return b; };
    auto take = [&](int f, int n, int pid) { SIM_CHECK(!holder[f].n, "two-holders", "request %d has the lock on lock%d while request %d has it", n, f, holder[f].n); holder[f].n = n; holder[f].pid = pid; };
    auto drop = [&](int n) { for (auto &k : holder) if (k.second.n == n) k.second = H(); };
    h.exit = [&](int pid, int st) {
        PlProc copy; const PlProc *p = plProc(pid); if (p) { copy = *p; p = &copy; }
        auto b = bg.find(pid); if (b != bg.end()) { Bg &g = b->second; bool callerLives = false; const PlProc *q = plProc(g.caller); callerLives = q && (q->alive || q->zombie);
            if (p && p->injectedKill) { for (auto &k : holder) if (k.second.pid == g.caller && k.first == g.f) k.second = H(); }
            else SIM_CHECK(g.rel || !callerLives, "lock-dropped", "the process that holds lock%d for process %d ended although that process lives and did not unlock", g.f, g.caller);
            if (!stall && g.gone && !callerLives) { double d = (plNow() - g.gone) * 1e-9; SIM_CHECK(d < 1.5, "freed-late", "lock%d was freed %.3f s after its caller was gone", g.f, d); probe("freed-after-caller"); }
            bg.erase(b); }
        for (auto &k : bg) if (k.second.caller == pid) k.second.gone = plNow();
        for (auto &k : holder) if (k.second.pid == pid) k.second = H();
        auto i = byPid.find(pid); if (i != byPid.end()) { L &l = lf[i->second]; l.over = true; l.dead = p && p->injectedKill; l.st = st; l.dt = (plNow() - l.t0) * 1e-9; byPid.erase(i); }
        if (p && p->injectedKill) { auto y = byPid.find(p->ppid); if (y != byPid.end()) lf[y->second].cmdkilled = true; } // perhaps before it became the command
        auto k = cmdPid.find(pid); if (k != cmdPid.end()) { if (p && p->injectedKill) lf[k->second].cmdkilled = true; cmdPid.erase(k); }
    };
    h.note = [&](int pid, const std::string &t) {
        int n = 0, f = 0, v = 0, w = 0; double d = 0; (void)d;
        if (t[0] == '!') { auto i = byPid.find(pid); if (i != byPid.end() && t.compare(0, 5, "!kill") && t != "!killed") lf[i->second].err = true; 
            return; }
        if (sscanf(t.c_str(), "lf %d %d %d %d", &n, &f, &w, &v) == 4) { L &l = lf[n]; l.n = n; l.f = f; l.wait = w; l.want = v; l.t0 = plNow(); byPid[pid] = n; if (holder[f].n) cont = true; }
        else if (sscanf(t.c_str(), "cmd-begin %d", &n) == 1) { L &l = lf[n]; SIM_CHECK(!l.ran, "ran-twice", "the command of request %d ran twice", n); l.ran = true; cmdPid[pid] = n; if (l.over) return; 
            SIM_CHECK(plFileLocked(name(l.f)), "lock-not-held", "the command of request %d runs but lock%d is not locked", n, l.f); int lp = 0; for (auto &k : byPid) if (k.second == n) lp = k.first; take(l.f, n, lp); probe("command-ran"); }
        else if (sscanf(t.c_str(), "cmd-end %d", &n) == 1) { L &l = lf[n]; if (!l.over) SIM_CHECK(plFileLocked(name(l.f)), "lock-lost", "lock%d is not locked any more while the command of request %d runs", l.f, n); drop(n); }
        else if (sscanf(t.c_str(), "lfend %d %d", &n, &v) == 2) {
            L &l = lf[n]; if (l.dead || (!l.n && v == 9)) return; int e = v >> 8, want = l.cmdkilled ? 233 : l.want;
            SIM_CHECK(!(v & 127), "killed", "the lock command of request %d died of signal %d", n, v & 127);
            if (l.ran) { SIM_CHECK(e == want, "wrong-status", "the command of request %d ran and should give status %d, the lock command returned %d", n, want, e); probe("status-passed-on"); return; }
            SIM_CHECK(e != 0, "false-success", "the command of request %d never ran, but the lock command returned 0", n);
            if (!l.err && !l.cmdkilled) { const char *why = l.wait < 0 ? "without a wait time" : "before its wait time"; SIM_CHECK(l.wait >= 0 && l.dt >= l.wait - 1e-3, "gave-up-early", "request %d gave up after %.3f s %s (%d)", n, l.dt, why, l.wait); SIM_CHECK(e == 1, "wrong-status", "request %d timed out, status %d", n, e); if (!stall) SIM_CHECK(l.dt < l.wait + 1.6, "late", "request %d with wait time %d gave up after %.3f s", n, l.wait, l.dt); probe("timed-out"); }
        } else if (sscanf(t.c_str(), "got %d %d %d %d", &n, &f, &v, &w) == 4) {
            const PlProc *q = plProc(v); SIM_CHECK(lf[n].dead || w == 0, "wrong-status", "request %d printed success but returned %d", n, w); if (!q || !q->alive) { for (auto &p : plAll()) if (p.vpid == v) SIM_CHECK(p.injectedKill, "lock-dropped", "process %d which holds lock%d for process %d has ended", v, f, pid); return; }
            Bg &g = bg[v]; g.caller = pid; g.f = f; take(f, n, pid); SIM_CHECK(plFileLocked(name(f)), "lock-not-held", "process %d was told it has lock%d, but that is not locked", pid, f); probe("held-for-caller");
        } else if (sscanf(t.c_str(), "check %d", &f) == 1) { if (holder[f].pid == pid) SIM_CHECK(plFileLocked(name(f)), "lock-lost", "process %d holds lock%d but the file is not locked any more", pid, f); }
        else if (sscanf(t.c_str(), "rel %d", &f) == 1) { for (auto &k : bg) if (k.second.caller == pid && k.second.f == f) k.second.rel = true; if (holder[f].pid == pid) holder[f] = H(); }
        else if (sscanf(t.c_str(), "unlocked %d %d", &v, &w) == 2) { if (w == 0) { const PlProc *q = plProc(v); SIM_CHECK(!q || !q->alive, "not-unlocked", "unlock returned success but process %d still holds the lock", v); probe("unlocked"); } else SIM_CHECK(faultsEnabled(), "unlock-failed", "unlock returned %d", w); }
        else if (t.compare(0, 4, "not ") == 0 && sscanf(t.c_str(), "not %d %d %d", &n, &f, &w) == 3) {
            L &l = lf[n]; bool to = t.find(" timeout") != std::string::npos; if (l.dead || (!l.n && w == 9)) return;
            SIM_CHECK(w != 0, "false-success", "request %d did not get the lock but returned 0 (%s)", n, t.c_str());
            if (!l.err && !l.cmdkilled) { SIM_CHECK(to && l.wait >= 0 && l.dt >= l.wait - 1e-3, "gave-up-early", "request %d gave up after %.3f s, wait time %d (%s)", n, l.dt, l.wait, t.c_str()); SIM_CHECK(w == 256, "wrong-status", "request %d timed out, status %d", n, w); if (!stall) SIM_CHECK(l.dt < l.wait + 1.6, "late", "request %d with wait time %d gave up after %.3f s", n, l.wait, l.dt); probe("timed-out"); }
        } else if (sscanf(t.c_str(), "final %d %d", &f, &v) == 2) SIM_CHECK(v == 1, "never-freed", "all processes are gone but lock%d cannot be had", f);
    };
    plRun("f02_main", c, h);
    if (cont) nontrivial();
}
SIM_SCENARIO("F02", f02_command) { f02(); }
