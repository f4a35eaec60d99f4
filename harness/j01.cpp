#include "pl_h.hpp"
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
PL_SCRIPT("j01.pl")
static bool slurp(const std::string &f, std::string &out) { int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0); out.clear(); if (fd < 0) return false; char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, n); syscall(SYS_close, fd); return true; }
static void config(PlCfg &c) {
    static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)];
    if (choose(S_CFG, 2, 3) == 2) c.stallP = 0.01;
    c.pidReuse = choose(S_CFG, 7, 3) == 2; // a new process may get the number of an earlier one
    if (faultsEnabled()) { c.killBorn = true; c.killP = choose(S_CFG, 3, 2) ? 0.008 : 0; c.fileErrP = choose(S_CFG, 4, 3) == 2 ? 0.03 : 0; c.forkFailP = choose(S_CFG, 6, 4) == 3 ? 0.1 : 0; }
}
// the make-like driver: every out-of-date target once, a bounded number at a time, and only whole results under the target names
static void j01_targets() {
    PlCfg c; config(c);
    struct S { int ver = 0; int srcRun = 0; bool exists = false; std::string prev; bool prevAbsent = true; bool stale = false; int begun = 0; bool ok = false, failed = false; };
    std::map<int, S> s; std::map<int, int> job; std::map<int, bool> jobDone; int run = 0, lim = 0, fin = 0, driver = 0; bool noexec = false, running = false, drvKilled = false, drvErr = false, jobKilled = false, renameErr = false; int maxPar = 0; bool anyFile = false;
    auto path = [](int i) { char b[64]; snprintf(b, sizeof b, "%s/s%d.out", i % 3 == 2 ? "tree/sub" : "tree", i); return std::string(b); };
    auto result = [&](int i, int r) { char b[64]; snprintf(b, sizeof b, "s%d.v%d built %d|end", i, s[i].ver, r); return std::string(b); };
    auto look = [&](const char *when) {
        for (auto &k : s) { if (!k.second.exists) continue; std::string t; bool have = slurp(path(k.first), t); S &x = k.second;
            if (!have) { SIM_CHECK(x.prevAbsent || x.ok, "target-removed", "%s: the previous %s is gone and no job for it has succeeded", when, path(k.first).c_str()); continue; }
            if (!x.prevAbsent && t == x.prev) continue;
            if (x.ok && t == result(k.first, run)) continue;
            violate("wrong-target", "%s: %s holds '%s', which is neither its previous contents nor the result of a job that succeeded", when, path(k.first).c_str(), t.c_str()); } };
    PlHooks h;
    h.exit = [&](int pid, int st) {
        if (job.count(pid)) { int i = job[pid]; job.erase(pid); if (st == 0) { SIM_CHECK(jobDone[pid], "success-without-work", "the job for s%d ended with status 0 before it was complete", i); s[i].ok = true; } else s[i].failed = true; }
        if (pid == driver) driver = 0; 
        if (running) look("a process has ended"); };
    h.note = [&](int pid, const std::string &t) {
        int i, v, w, x; 
        if (t == "!killed") { if (pid == driver) drvKilled = true; else jobKilled = true; return; }
        if (t == "!fork-fails") { if (pid == driver) drvErr = true; return; }
        if (!strncmp(t.c_str(), "!file-error", 11)) { anyFile = true; if (pid == driver && t.find("rename") != std::string::npos) renameErr = true; return; }
        if (t[0] == '!') return;
        if (sscanf(t.c_str(), "src %d %d", &i, &v) == 2) { s[i].ver = v; s[i].exists = true; s[i].srcRun = 1 << 20; }
        else if (sscanf(t.c_str(), "touch %d", &i) == 1) s[i].srcRun = 1 << 20;
        else if (sscanf(t.c_str(), "rmdest %d", &i) == 1) {}
        else if (sscanf(t.c_str(), "run %d %d %d %d", &run, &lim, &v, &fin) == 4) {
            noexec = v; running = true; drvKilled = drvErr = jobKilled = renameErr = anyFile = false; 
            for (auto &k : s) { S &y = k.second; if (!y.exists) continue; if (y.srcRun == 1 << 20) y.srcRun = run; y.prevAbsent = !slurp(path(k.first), y.prev); y.begun = 0; y.ok = y.failed = false;
                int built = -1; size_t p = y.prev.find(" built "); if (!y.prevAbsent && p != std::string::npos) built = atoi(y.prev.c_str() + p + 7);
                y.stale = y.prevAbsent || y.srcRun > built; }
            if (fin == 2) for (auto &k : s) if (k.second.exists) { SIM_CHECK(!k.second.stale, "not-brought-up-to-date", "a run without faults left %s out of date", path(k.first).c_str()); }
        } else if (t == "driver") driver = pid;
        else if (sscanf(t.c_str(), "job-begin %d", &i) == 1) {
            SIM_CHECK(!noexec, "ran-with-n", "a job was started although only a listing was asked for");
            SIM_CHECK(s[i].exists && s[i].stale, "needless-job", "a job was started for %s, which is up to date", path(i).c_str());
            SIM_CHECK(++s[i].begun == 1, "built-twice", "the job for %s was started twice in one run", path(i).c_str());
            job[pid] = i; jobDone[pid] = false; maxPar = std::max<int>(maxPar, job.size()); SIM_CHECK((int)job.size() <= lim, "too-many-jobs", "%zu jobs at once, limit %d", job.size(), lim); if (job.size() > 1) nontrivial(); probe("job");
        } else if (sscanf(t.c_str(), "job-end %d", &i) == 1) jobDone[pid] = true;
        else if (sscanf(t.c_str(), "end %d", &w) == 1) {
            look("the driver has ended"); running = false; x = 0;
            if ((w & 127) == 9) drvKilled = true; bool clean = !drvKilled && !drvErr && !renameErr;
            if (clean) { SIM_CHECK(w == 0, "driver-failed", "the driver ended with status %d although none of its own calls failed", w);
                if (!noexec) for (auto &k : s) { S &y = k.second; if (!y.exists || !y.stale) continue; ++x; std::string got; bool have = slurp(path(k.first), got);
                    if (!y.begun) SIM_CHECK(jobKilled, "not-built", "%s is out of date but no job was started for it", path(k.first).c_str());
                    if (y.ok) SIM_CHECK(have && got == result(k.first, run), "result-lost", "the job for %s succeeded but the target holds '%s'", path(k.first).c_str(), have ? got.c_str() : "(no file)");
                    else SIM_CHECK(have == !y.prevAbsent && (!have || got == y.prev), "failed-job-changed", "the job for %s failed but the target changed", path(k.first).c_str()); }
            } else { probe(drvKilled ? "driver-killed" : drvErr ? "driver-fork-failed" : "driver-rename-failed"); if (!drvKilled) SIM_CHECK(w != 0, "error-hidden", "the driver could not %s but ended with status 0", drvErr ? "fork" : "rename a result"); }
            if (x == 0 && !noexec) probe("nothing-to-do");
            for (auto &k : s) { S &y = k.second; if (y.exists && fin >= 1 && y.failed) {} }
        }
    };
    plRun("j01_main", c, h);
}
// the same work given to a batch system as an array job: the tasks together build every out-of-date target, each once
static void j01_array() {
    PlCfg c; config(c); c.maxSteps = 60000;
    struct S { int ver = 0; int srcRun = 0; std::string prev; bool prevAbsent = true, stale = false, ok = false; int begun = 0; };
    std::map<int, S> s; std::map<int, int> job; int run = 0, fin = 0, tasks = 0; bool killed = false, err = false;
    auto path = [](int i) { char b[64]; snprintf(b, sizeof b, "%s/s%d.out", i % 3 == 2 ? "tree/sub" : "tree", i); return std::string(b); };
    auto result = [&](int i, int r) { char b[64]; snprintf(b, sizeof b, "s%d.v%d built %d|end", i, s[i].ver, r); return std::string(b); };
    PlHooks h;
    h.exit = [&](int pid, int st) { if (job.count(pid)) { if (st == 0) s[job[pid]].ok = true; job.erase(pid); } };
    h.note = [&](int pid, const std::string &t) {
        int i, v;
        if (t == "!killed") { killed = true; return; }
        if (t[0] == '!') { err = true; return; }
        if (sscanf(t.c_str(), "src %d %d", &i, &v) == 2) { s[i].ver = v; s[i].srcRun = -1; }
        else if (sscanf(t.c_str(), "arun %d %d", &run, &fin) == 2) {
            killed = err = false; tasks = 0;
            for (auto &k : s) { S &y = k.second; if (y.srcRun < 0) y.srcRun = run; y.prevAbsent = !slurp(path(k.first), y.prev); int built = -1; size_t p = y.prev.find(" built "); if (!y.prevAbsent && p != std::string::npos) built = atoi(y.prev.c_str() + p + 7); y.stale = y.prevAbsent || y.srcRun > built; y.ok = false; y.begun = 0;
                if (fin == 2) SIM_CHECK(!y.stale, "not-brought-up-to-date", "an array job without faults left %s out of date", path(k.first).c_str()); }
        } else if (sscanf(t.c_str(), "tasks %d", &tasks) == 1) { if (tasks > 1) probe("several-tasks"); }
        else if (sscanf(t.c_str(), "job-begin %d", &i) == 1) {
            SIM_CHECK(s.count(i) && s[i].stale, "needless-job", "a job was started for %s, which is up to date", path(i).c_str()); ++s[i].begun;
            if (!killed && !err) SIM_CHECK(s[i].begun == 1, "built-twice", "two tasks of one array job built %s", path(i).c_str());
            for (auto &k : job) if (!killed) SIM_CHECK(k.second != i, "built-twice", "two tasks build %s at the same time", path(i).c_str());
            job[pid] = i; if (job.size() > 1) nontrivial(); probe("job");
        } else if (sscanf(t.c_str(), "aend %d", &v) == 1) {
            if (!killed && !err) SIM_CHECK(v == 0, "driver-failed", "submitting ended with status %d", v);
            for (auto &k : s) { S &y = k.second; std::string got; bool have = slurp(path(k.first), got); const char *p = path(k.first).c_str(); (void)p;
                if (!killed && !err && y.stale && tasks > 0) { SIM_CHECK(y.begun == 1, "not-built", "no task of the array job built %s", path(k.first).c_str()); }
                if (!killed && !err && y.ok) SIM_CHECK(have && got == result(k.first, run), "result-lost", "%s was built but holds '%s'", path(k.first).c_str(), got.c_str());
                if (!killed) SIM_CHECK(!have || (!y.prevAbsent && got == y.prev) || (y.ok && got == result(k.first, run)), "wrong-target", "%s holds '%s'", path(k.first).c_str(), got.c_str()); }
        }
    };
    plRun("j01_array_main", c, h);
}
// jobs file: an output file exists exactly for the lines whose command succeeded, with its whole output, and such a line is never run again
static void j01_lines() {
    PlCfg c; config(c);
    struct L { bool fails = false; std::string want; int live = 0; bool done = false; int begun = 0; bool begunRun = false; };
    std::map<int, L> l; std::map<int, int> cur; int lim = 0, fin = 0, driver = 0, run = 0; bool drvKilled = false, drvErr = false, jobKilled = false, fileErr = false; std::set<int> jobs; std::map<int, std::string> have;
    PlHooks h;
    h.exit = [&](int pid, int st) { (void)st; if (cur.count(pid)) { l[cur[pid]].live--; cur.erase(pid); } if (pid == driver) driver = 0; };
    h.note = [&](int pid, const std::string &t) {
        int i, v; char x[256] = "";
        if (t == "!killed") { if (pid == driver) drvKilled = true; else jobKilled = true; return; }
        if (t == "!fork-fails") { if (pid == driver) drvErr = true; else jobKilled = true; return; }
        if (!strncmp(t.c_str(), "!file-error", 11)) { fileErr = true; return; }
        if (t[0] == '!') return;
        if (sscanf(t.c_str(), "line %d %d %255s", &i, &v, x) == 3) { l[i].fails = v; l[i].want = x; }
        else if (sscanf(t.c_str(), "jrun %d %d %d", &run, &lim, &fin) == 3) { drvKilled = drvErr = jobKilled = fileErr = false; have.clear(); for (auto &k : l) k.second.begunRun = false; }
        else if (t == "driver") driver = pid;
        else if (sscanf(t.c_str(), "cmd-begin L%d", &i) == 1) {
            L &y = l[i]; SIM_CHECK(l.count(i), "wrong-command", "a command ran for line %d", i);
            SIM_CHECK(!y.done, "repeated", "line %d was run again although its output file was there when the run began", i);
            SIM_CHECK(!y.begunRun, "run-twice", "line %d was started twice in one run", i); y.begunRun = true;
            cur[pid] = i; y.live++; if (cur.size() > 1) nontrivial();
            if (!jobKilled) SIM_CHECK((int)cur.size() <= lim, "too-many-jobs", "%zu commands at once, limit %d", cur.size(), lim);
            probe("job");
        } else if (sscanf(t.c_str(), "out %d", &i) == 1) {
            std::string got = t.substr(t.find(' ', 4) + 1); L &y = l[i];
            SIM_CHECK(l.count(i), "foreign-output", "output file for line %d, which is no job", i);
            SIM_CHECK(!y.fails, "failure-published", "the command of line %d fails but its output file exists", i);
            SIM_CHECK(got == y.want, "wrong-output", "output file of line %d holds '%s', expected '%s'", i, got.c_str(), y.want.c_str()); have[i] = got;
        } else if (sscanf(t.c_str(), "jend %d", &v) == 1) {
            if ((v & 127) == 9) drvKilled = true;
            for (auto &k : l) { L &y = k.second; bool hv = have.count(k.first); SIM_CHECK(!y.done || hv, "output-vanished", "the output file of line %d is gone", k.first);
                if (!hv && !y.fails && !drvKilled && !drvErr && !jobKilled && !fileErr) violate("not-run", "line %d has no output file after a run without faults", k.first);
                if (hv && !y.done) probe("done"); y.done = hv; }
            if (!drvKilled && !drvErr) SIM_CHECK(v == 0, "driver-failed", "the driver ended with status %d", v); else if (!drvKilled) SIM_CHECK(v != 0, "error-hidden", "the driver could not fork but ended with status 0");
        }
    };
    plRun("j01_jobs_main", c, h);
}
SIM_SCENARIO("J01", j01_target, 3) { j01_targets(); }
SIM_SCENARIO("J01", j01_array_, 1) { j01_array(); }
SIM_SCENARIO("J01", j01_lines_, 2) { j01_lines(); }
