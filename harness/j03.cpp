#include "pl_h.hpp"
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
PL_SCRIPT("j03.pl")
static bool slurp(const std::string &f, std::string &out) { int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0); out.clear(); if (fd < 0) return false; char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, n); syscall(SYS_close, fd); return true; }
static std::vector<std::string> names(const std::string &d) { std::vector<std::string> v; DIR *h = opendir(d.c_str()); if (!h) return v; while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); return v; }
static void config(PlCfg &c) {
    static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; c.maxSteps = 60000; c.toolFailLast = true;
    if (choose(S_CFG, 2, 3) == 2) c.stallP = 0.01;
    if (faultsEnabled()) { c.killBorn = true; static const double kp[] = {0, 0.004, 0.015, 0.04}; c.killP = kp[choose(S_CFG, 3, 4)]; c.fileErrP = choose(S_CFG, 4, 3) == 2 ? 0.05 : 0; c.forkFailP = choose(S_CFG, 6, 4) == 3 ? 0.05 : 0; c.writeErrP = choose(S_CFG, 9, 3) == 2 ? 0.1 : 0; c.execErrP = choose(S_CFG, 10, 3) == 2 ? 0.05 : 0; c.toolFailP = choose(S_CFG, 8, 3) == 2 ? 0.1 : 0; }
}
static void j03_make() {
    PlCfg c; config(c); int gz = 0, zed = 0, run = 0, fin = 0, jmax = 0, noexec = 0, driver = 0; bool faulty = false, started = false;
    struct S { int v = 0; std::string src, dst, before, complete; bool bad = false, had = false, had0 = false, failed = false; int begun = 0, job = 0; bool ended = false; }; std::map<int, S> s; std::set<int> badJob; std::map<int, int> jobOf, dead; // job pid -> item
    PlHooks h;
    auto final = [&](int i, std::string &t) { return slurp(s[i].dst, t); };
    auto look = [&]() { if (!started) return; for (auto &k : s) { S &x = k.second; std::string t; bool have = final(k.first, t);
        bool old = have == x.had && t == x.before, now = have && t == x.complete;
        SIM_CHECK(old || now || (!have && x.had), "partial-result", "%s holds '%s', which is neither what it held before ('%s') nor the complete result ('%s')", x.dst.c_str(), t.c_str(), x.before.c_str(), x.complete.c_str());
        if (!old && have) { SIM_CHECK(x.begun, "invented", "%s was made without running its commands", x.dst.c_str()); SIM_CHECK(!x.failed, "failed-installed", "a command for %s failed, but the output got the final name", x.dst.c_str()); SIM_CHECK(!zed || x.ended, "installed-early", "%s got the final name before its last command ran", x.dst.c_str()); probe("built"); }
        if (x.had && !have && !old) { std::string n; SIM_CHECK(slurp(x.dst + "-new", n) && n == x.complete, "result-lost", "%s is gone and there is no complete new one", x.dst.c_str()); } } };
    h.exit = [&](int pid, int st) {
        const PlProc *p0 = plProc(pid); PlProc p; if (p0) p = *p0;
        if (pid == driver) driver = 0;
        auto j = jobOf.find(p.ppid); if (j != jobOf.end() && (st != 0 || p.injectedKill)) { s[j->second].failed = true; badJob.insert(p.ppid); }
        if (jobOf.count(pid)) { int i = jobOf[pid]; if (st != 0) s[i].failed = true; if (!p.injectedKill && !badJob.count(-pid)) { char b[64]; snprintf(b, sizeof b, "tmp/bp.make.tmp.%d", pid); SIM_CHECK(syscall(SYS_faccessat, AT_FDCWD, b, 0, 0) != 0 || faulty, "temp-left", "the temporary directory of %s is still there after its job", s[i].src.c_str()); probe(st ? "temp-gone-after-failure" : "temp-gone"); } }
        look(); };
    h.note = [&](int pid, const std::string &t) {
        int i, v; char a[128], b[128], a2[128], b2[128], kind; int bad = 0;
        if (t == "!killed" || t == "!exec-error" || t.compare(0, 5, "!fork") == 0 || t.compare(0, 5, "!file") == 0 || t.compare(0, 6, "!write") == 0 || t.compare(0, 5, "!tool") == 0) { faulty = true; return; }
        if (t[0] == '!') return;
        if (sscanf(t.c_str(), "cfg %d %d", &gz, &zed) == 2) return;
        if (sscanf(t.c_str(), "src %d %d %d %127s %127s", &i, &v, &bad, a, b) == 5) { S &x = s[i]; x.v = v; x.src = a; x.dst = b; char m[64]; snprintf(m, sizeof m, "s%d.v%dPART", i, v); x.complete = gz ? std::string("GZ<") + m + ">" : m; x.bad = bad; if (bad) x.complete = "?"; }
        else if (sscanf(t.c_str(), "run %d %d %d %d", &run, &fin, &jmax, &noexec) == 4) { started = true; faulty = false; badJob.clear(); jobOf.clear(); for (auto &k : s) { S &x = k.second; x.had = final(k.first, x.before); x.begun = 0; x.failed = x.ended = false; x.had0 = x.had; } }
        else if (t == "driver") driver = pid;
        else if (sscanf(t.c_str(), "cmd-begin %c:@/%127[^:]:@/%127[^:]:@/%127[^:]:@/%127s", &kind, a, b, a2, b2) == 5) { SIM_CHECK(!strcmp(a, a2) && !strcmp(b, b2), "wrong-name", "a command for %s was given the names %s, %s and %s as well", a, b, a2, b2);
            i = -1; for (auto &k : s) if (k.second.src == a) i = k.first; SIM_CHECK(i >= 0, "wrong-name", "a command was given %s, which is no source", a); S &x = s[i];
            SIM_CHECK(b == x.dst + "-new", "wrong-name", "the command for %s was given the output name %s", a, b); SIM_CHECK(!noexec, "ran-in-dry-run", "a command for %s ran although only asked to show it", a);
            const PlProc *p = plProc(pid); int job = p ? p->ppid : 0; if (kind == 'z' && x.begun && !jobOf.count(job)) { const PlProc *q = plProc(x.job); if (q && !q->alive) job = x.job; } // the job was killed, its command goes on
            if (kind == 'a') { SIM_CHECK(!x.begun, "built-twice", "the commands for %s were started twice in one run", a); SIM_CHECK(!(x.had && x.before == x.complete), "rebuilt", "%s is up to date but was built again", x.dst.c_str()); x.begun = 1; x.job = job; jobOf[job] = i; int live = 0; for (auto &k : jobOf) { const PlProc *q = plProc(k.first); live += q && q->alive; } SIM_CHECK(live <= jmax, "too-many", "%d jobs at a time with -j %d", live, jmax); if (live > 1) nontrivial(); }
            else { SIM_CHECK(x.begun && x.job == job, "wrong-order", "the last command for %s ran without the first", a); SIM_CHECK(!badJob.count(job), "ran-after-failure", "a command for %s ran after an earlier one had failed", a); x.ended = true; std::string n; SIM_CHECK(slurp(b, n) && n == x.complete, "wrong-order", "the last command for %s ran when the output was '%s'", a, n.c_str()); }
        } else if (sscanf(t.c_str(), "end %d", &v) == 1) { look(); if (noexec) for (auto &k : s) { std::string u; bool have = final(k.first, u); SIM_CHECK(have == k.second.had && u == k.second.before, "dry-run-changed", "a dry run changed %s", k.second.dst.c_str()); }
            for (auto &k : s) { S &x = k.second; std::string u; if (!faulty && !noexec && !x.bad) { SIM_CHECK(final(k.first, u) && u == x.complete, "not-built", "%s holds '%s' after a run without faults, it should hold '%s'", x.dst.c_str(), u.c_str(), x.complete.c_str()); probe("up-to-date"); } }
            if (fin > 0) SIM_CHECK(v == 0, "false-failure", "a run without faults ended with status %d", v); started = false; }
    };
    plRun("j03_make_main", c, h); nontrivial();
}
static void j03_tar() {
    PlCfg c; config(c); int target = 0, strip = 0, run = 0, fin = 0, v = 0, nx = 0, jmax = 0; bool started = false, faulty = false;
    struct S { std::string path, now; std::set<std::string> all; }; std::map<int, S> s; std::map<std::string, std::string> before; 
    PlHooks h;
    auto parse = [&](const std::string &t, std::map<std::string, std::string> &m) { size_t i = 0; for (;;) { if (t.compare(i, std::string::npos, "END") == 0) return true; size_t e = t.find('=', i), k = t.find(':', i); if (e == std::string::npos || k == std::string::npos) return false; size_t n = atoi(t.c_str() + e + 1); if (k + 1 + n >= t.size()) return false; std::string nm = t.substr(i, e - i); SIM_CHECK(!m.count(nm), "member-twice", "an archive holds %s twice", nm.c_str()); m[nm] = t.substr(k + 1, n); i = k + 2 + n; } };
    auto look = [&](bool last) { if (!started) return; std::map<std::string, std::pair<std::string, int>> got;
        for (auto &f : names("out")) { if (f.size() < 4 || f.compare(f.size() - 4, 4, ".tar")) continue; std::string t; slurp("out/" + f, t); bool old = before.count(f) && before[f] == t; if (old && !last) continue;
            std::map<std::string, std::string> m; SIM_CHECK(parse(t, m), "partial-result", "out/%s is no complete archive: '%s'", f.c_str(), t.c_str()); size_t total = 0;
            for (auto &k : m) { int who = -1; for (auto &q : s) { std::string nm = strip ? q.second.path : q.second.path.substr(q.second.path.rfind('/') + 1); if (nm == k.first) who = q.first; } SIM_CHECK(who >= 0, "wrong-member", "out/%s holds %s, which is no source", f.c_str(), k.first.c_str()); SIM_CHECK(k.second == s[who].now || !last, "stale-member", "out/%s holds an old %s after a run without faults", f.c_str(), k.first.c_str()); SIM_CHECK(s[who].all.count(k.second), "wrong-member", "out/%s holds '%s' as %s", f.c_str(), k.second.c_str(), k.first.c_str()); total += k.second.size() + 200; ++got[k.first].second; }
            SIM_CHECK(!m.empty(), "empty-archive", "out/%s holds nothing", f.c_str()); SIM_CHECK((int)total <= target, "too-large", "out/%s is estimated at %zu bytes, the limit is %d", f.c_str(), total, target); probe("archive"); }
        if (last) for (auto &q : s) { std::string nm = strip ? q.second.path : q.second.path.substr(q.second.path.rfind('/') + 1); SIM_CHECK(got[nm].second == 1, "not-archived", "%s is in %d archives after a run without faults", q.second.path.c_str(), got[nm].second); } };
    h.exit = [&](int, int) { look(false); };
    h.note = [&](int, const std::string &t) {
        int i, p; char f[128];
        if (t[0] == '!') { if (t.compare(0, 5, "!kill") || t == "!killed") faulty = true; return; }
        if (sscanf(t.c_str(), "cfg %d %d", &target, &strip) == 2) return;
        if (sscanf(t.c_str(), "src %d %d %d %127s", &i, &v, &p, f) == 4) { S &x = s[i]; x.path = f; char m[64]; snprintf(m, sizeof m, "f%d.v%d", i, v); x.now = m; x.now.resize(p, '.'); x.all.insert(x.now); }
        else if (sscanf(t.c_str(), "run %d %d %d %d", &run, &fin, &jmax, &nx) == 4) { started = true; faulty = false; before.clear(); for (auto &n : names("out")) slurp("out/" + n, before[n]); }
        else if (sscanf(t.c_str(), "end %d", &v) == 1) { look(fin > 0 || !faulty); if (fin > 0) SIM_CHECK(v == 0, "false-failure", "a run without faults ended with status %d", v); started = false; }
    };
    plRun("j03_tar_main", c, h); nontrivial();
}
SIM_SCENARIO("J03", j03_make_, 2) { j03_make(); }
SIM_SCENARIO("J03", j03_tar_, 1) { j03_tar(); }
