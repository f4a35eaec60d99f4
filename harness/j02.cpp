#include "pl_h.hpp"
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
PL_SCRIPT("j02.pl")
static bool slurp(const std::string &f, std::string &out) { int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0); out.clear(); if (fd < 0) return false; char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, n); syscall(SYS_close, fd); return true; }
static void files(const std::string &d, std::map<std::string, std::string> &m) {
    DIR *h = opendir(d.c_str()); if (!h) return; std::vector<std::string> v; while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h);
    for (auto &n : v) { std::string p = d + "/" + n, t; struct stat st; if (stat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) files(p, m); else if (slurp(p, t)) m[p] = t; } }
// removes one complete layer of compression
static bool unpackOne(std::string &t) {
    if (t.compare(0, 3, "GZ<") && t.compare(0, 3, "BZ<")) return false;
    int depth = 0; size_t i = 0; for (; i < t.size(); ++i) { if (t[i] == '<') ++depth; else if (t[i] == '>' && --depth == 0) break; }
    if (i >= t.size() || i + 1 != t.size()) return false;
    t = t.substr(3, i - 3); return true; }
static void config(PlCfg &c) {
    static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; c.maxSteps = 60000;
    if (choose(S_CFG, 2, 3) == 2) c.stallP = 0.01;
    c.pidReuse = choose(S_CFG, 7, 3) == 2;
    if (faultsEnabled()) { c.killBorn = true; static const double kp[] = {0, 0.004, 0.015, 0.04}; c.killP = kp[choose(S_CFG, 3, 4)]; c.fileErrP = choose(S_CFG, 4, 3) == 2 ? 0.05 : 0; c.forkFailP = choose(S_CFG, 6, 4) == 3 ? 0.05 : 0; c.writeErrP = choose(S_CFG, 9, 3) == 2 ? 0.1 : 0; c.toolWrongP = choose(S_CFG, 10, 3) == 2 ? 0.3 : 0; c.readErrP = choose(S_CFG, 11, 4) == 3 ? 0.1 : 0; c.toolFailP = choose(S_CFG, 8, 3) == 2 ? 0.15 : 0; }
}
static void j02_compress() {
    PlCfg c; config(c);
    struct O { bool bad = false; std::string path, raw, plain; }; std::map<int, O> o; std::string type; int check = 1, clean = 1, run = 0, fin = 0, driver = 0; bool kills = false, anyErr = false; std::set<int> live;
    PlHooks h; bool started = false;
    // every original can still be had: some file holds it as it was, or decompresses to its contents
    auto look = [&](const char *when) {
        if (!started) return; std::map<std::string, std::string> m; files("tree", m); std::set<std::string> have;
        for (auto &k : m) { std::string t = k.second; have.insert(t); while (unpackOne(t)) have.insert(t); }
        for (auto &k : o) { O &x = k.second; bool ok = have.count(x.raw) || (!x.bad && have.count(x.plain));
            if (!ok) { std::string l; for (auto &f : m) l += " " + f.first + "='" + (f.second.size() > 300 ? f.second.substr(0, 60) + "..." : f.second) + "'"; violate("data-lost", "%s: the data of %s is in no file any more; there are%s", when, x.path.c_str(), l.c_str()); } } };
    h.exit = [&](int pid, int) { if (pid == driver) driver = 0; look("a process has ended"); };
    h.note = [&](int pid, const std::string &t) {
        int i, b, v; char f[256], r[256] = ""; char ty[16];
        if (t == "!killed") { kills = true; return; }
        if (!strncmp(t.c_str(), "!tool-fails", 11)) { anyErr = true; if (!check && t.find("bzip2") == std::string::npos && t.find("gzip") == std::string::npos) discard("an unchecked read error"); return; }
        if (!strncmp(t.c_str(), "!tool-wrong", 11) && !check) discard("an unchecked wrong archive");
        if (t[0] == '!') { anyErr = true; return; }
        if (sscanf(t.c_str(), "cfg %15s %d %d", ty, &check, &clean) == 3) { type = ty; }
        else if (sscanf(t.c_str(), "orig %d %d %255s %255s", &i, &b, f, r) >= 3) { O &x = o[i]; x.bad = b; x.path = f; x.raw = r; size_t q = x.raw.find("#66000#"); if (q != std::string::npos) x.raw.replace(q, 7, std::string(66000, 'y')); x.plain = x.raw; while (unpackOne(x.plain)) {} }
        else if (sscanf(t.c_str(), "run %d %d", &run, &fin) == 2) { started = true; kills = anyErr = false; }
        else if (t == "driver") driver = pid;
        else if (sscanf(t.c_str(), "end %d", &v) == 1) {
            look("the run is over"); std::map<std::string, std::string> m; files("tree", m);
            if (fin == 2) for (auto &k : o) { O &x = k.second; std::string d = x.path; for (;;) { size_t n = d.size(); if (n > 3 && d.compare(n - 3, 3, ".gz") == 0) d.resize(n - 3); else if (n > 4 && d.compare(n - 4, 4, ".bz2") == 0) d.resize(n - 4); else break; } d += "." + type;
                if (x.bad && check) { SIM_CHECK(m.count(x.path) && m[x.path] == x.raw, "unreadable-removed", "%s cannot be read completely, but it is gone or changed", x.path.c_str()); continue; }
                if (x.bad || x.plain.empty()) continue;
                std::string u = m.count(d) ? m[d] : ""; SIM_CHECK(m.count(d) && unpackOne(u) && u == x.plain, "not-compressed", "%s does not hold the contents of %s after a run without faults", d.c_str(), x.path.c_str());
                if (clean) SIM_CHECK(!m.count(x.path), "not-cleaned", "%s is still there after a run without faults", x.path.c_str()); else SIM_CHECK(m.count(x.path) && m[x.path] == x.raw, "cleaned", "%s is gone although it should stay", x.path.c_str()); probe("compressed"); }
            if (!kills && !anyErr) {} else nontrivial();
        }
        if (t.compare(0, 5, "orig ")) look("later");
    };
    plRun("j02_main", c, h);
    nontrivial();
}
static void j02_sums() {
    PlCfg c; config(c); std::map<std::string, std::string> want; int run = 0, fin = 0, v; bool started = false; 
    auto norm = [](std::string a, const std::string &w) { size_t q = w.find(" ?\n"); if (q != std::string::npos && a.size() > q) { size_t e = a.find('\n', q); if (e != std::string::npos) a = a.substr(0, q) + " ?\n" + a.substr(e + 1); } return a; };
    PlHooks h;
    auto look = [&](bool last) { if (!started) return; for (auto &k : want) { std::string t; bool have = slurp(k.first + ".checksum", t); if (!have) { SIM_CHECK(!last, "no-checksum", "%s has no checksum file after a run without faults", k.first.c_str()); continue; }
        SIM_CHECK(norm(t, k.second) == k.second, "wrong-checksum", "%s.checksum holds '%s', expected '%s'", k.first.c_str(), t.c_str(), k.second.c_str()); probe("checksum"); } };
    h.exit = [&](int, int) { look(false); };
    h.note = [&](int, const std::string &t) {
        char f[256], x[1024];
        if (!strncmp(t.c_str(), "!tool-fails", 11)) return;
        if (sscanf(t.c_str(), "sum %255s %1023s", f, x) == 2) { std::string w; for (size_t i = 0; x[i] && x[i + 1]; i += 2) { unsigned u; sscanf(x + i, "%2x", &u); w += (char)u; } char cwd[512]; if (!getcwd(cwd, sizeof cwd)) abort(); size_t at = w.find("@/"); if (at != std::string::npos) w.replace(at, 1, cwd); want[f] = w; }
        else if (sscanf(t.c_str(), "run %d %d", &run, &fin) == 2) started = true;
        else if (sscanf(t.c_str(), "end %d", &v) == 1) { look(fin == 1);
            if (fin == 1) { std::map<std::string, std::string> m; files("tree", m); for (auto &k : m) { std::string b = k.first; size_t q = b.rfind(".checksum"); if (q != std::string::npos) { b.resize(q); SIM_CHECK(want.count(b), "checksum-of-checksum", "%s is the checksum of something that is no source", k.first.c_str()); } } } }
    };
    plRun("j02_sum_main", c, h); nontrivial();
}
SIM_SCENARIO("J02", j02_compress_, 3) { j02_compress(); }
SIM_SCENARIO("J02", j02_sums_, 1) { j02_sums(); }
