#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <algorithm>

namespace dsim {
void (*on_run_begin)() = NULL;
void (*on_run_end)() = NULL;
void (*on_process_end)() = NULL;   // the run's process is about to end (whatever the verdict)

static const char *stream_names[] = {"?", "cfg", "work", "sched", "fault", "time", "data", "wake", "alloc", "tso", "io", "clk"};
const char *streamName(unsigned s) { return s < sizeof(stream_names) / sizeof(*stream_names) ? stream_names[s] : "?"; }
enum { NSTREAM = 12, NSUB = 96, MAXREC = 400000, MAXCNT = 96, MAXEV = 3000000 };

struct Entry { uint64_t key, val; };
struct Counter { char name[48]; uint64_t n; };
enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_DISCARD, ST_ERROR };
struct Shared {
    volatile int status; int expect_abort; int nontrivial; int overflow;
    char cls[96]; char msg[1024]; char scen[64];
    uint64_t hash, shash, sthash, events, sim_ns, steps;
    unsigned nfault, nprobe; Counter faults[MAXCNT], probes[MAXCNT];
    unsigned nrec; Entry rec[MAXREC];
};
static Shared *R;
static uint64_t g_seed; static bool g_gen = true, g_faults, g_run, g_trace, g_thorough;
static int g_tracefd = -1, g_outfd = -1;
static uint32_t g_pos[NSTREAM][NSUB];
static std::vector<Entry> g_replay;     // sorted by key
static std::string g_prop;

static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void addScenario(const Scenario &s) { scenarios().push_back(s); }

bool generating() { return g_gen; }
bool faultsEnabled() { return g_faults; }
bool tierThorough() { return g_thorough; }
bool inRun() { return g_run; }
bool tracing() { return g_trace; }
const char *scenarioName() { return R->scen; }

static inline uint64_t mkkey(unsigned s, unsigned sub, uint32_t pos) { return ((uint64_t)s << 48) | ((uint64_t)sub << 32) | pos; }
static inline uint64_t rnd(uint64_t key) { return mix64(mix64(g_seed ^ key * 0xd6e8feb86659fd93ull) + key); }
uint64_t rawAt(Stream s, unsigned sub, uint32_t pos) { return rnd(mkkey(s, sub, pos)); }
static void record(uint64_t key, uint64_t v) {
    if (!R || v == 0) return;
    if (R->nrec >= MAXREC) { R->overflow = 1; return; }
    R->rec[R->nrec].key = key; R->rec[R->nrec].val = v; ++R->nrec;
}
static uint64_t lookup(uint64_t key) {
    size_t lo = 0, hi = g_replay.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (g_replay[m].key < key) lo = m + 1; else hi = m; }
    return lo < g_replay.size() && g_replay[lo].key == key ? g_replay[lo].val : 0;
}
uint64_t decideAt(Stream s, unsigned sub, uint32_t pos, uint64_t generated) {
    uint64_t key = mkkey(s, sub, pos);
    uint64_t v = g_gen ? generated : lookup(key);
    record(key, v);
    return v;
}
uint64_t chooseAt(Stream s, unsigned sub, uint32_t pos, uint64_t n) {
    if (n <= 1) return 0;
    uint64_t key = mkkey(s, sub, pos), v;
    if (g_gen) v = rnd(key) % n; else { v = lookup(key); if (v >= n) v %= n; }
    record(key, v);
    return v;
}
static uint32_t nextPos(Stream s, unsigned sub) {
    if (sub >= NSUB) simError("sub %u out of range", sub);
    return g_pos[s][sub]++;
}
uint64_t choose(Stream s, unsigned sub, uint64_t n) { return chooseAt(s, sub, nextPos(s, sub), n); }
uint64_t chooseW(Stream s, unsigned sub, std::initializer_list<unsigned> w) {
    uint64_t tot = 0, i = 0; for (unsigned x : w) tot += x;
    uint32_t pos = nextPos(s, sub); uint64_t key = mkkey(s, sub, pos), v = 0;
    if (g_gen) { uint64_t r = tot ? rnd(key) % tot : 0; for (unsigned x : w) { if (r < x) { v = i; break; } r -= x; ++i; } }
    else { v = lookup(key); if (v >= w.size()) v %= w.size(); }
    record(key, v);
    return v;
}
bool chanceAt(Stream s, unsigned sub, uint32_t pos, double p) {
    uint64_t key = mkkey(s, sub, pos); bool v;
    if (g_gen) v = (rnd(key) >> 11) * (1.0 / 9007199254740992.0) < p; else v = lookup(key) != 0;
    if (v) record(key, 1);
    return v;
}
bool chance(Stream s, unsigned sub, double p) { return chanceAt(s, sub, nextPos(s, sub), p); }

static void tracef(const char *fmt, va_list ap) {
    char b[1200]; int n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
    b[n++] = '\n'; static unsigned lines; if (++lines > 400000) return;
    syscall(SYS_write, g_tracefd, b, n);
}
static void tracel(const char *fmt, ...) { va_list ap; va_start(ap, fmt); tracef(fmt, ap); va_end(ap); }
static inline void hmix(uint64_t &h, uint64_t v) { h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; }
static void counted() { if (++R->events == MAXEV) violate("endless", "the run does not come to an end: %llu events", (unsigned long long)MAXEV); }
void ev(const char *tag, int64_t a, int64_t b, int64_t c) {
    uint64_t h = 1469598103934665603ull; for (const char *p = tag; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    hmix(R->hash, h); hmix(R->hash, a); hmix(R->hash, b); hmix(R->hash, c); counted();
    if (g_trace) tracel("%-22s %lld %lld %lld", tag, (long long)a, (long long)b, (long long)c);
}
void evs(const char *tag, const char *s, size_t n) {
    uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
    hmix(R->hash, h); hmix(R->hash, n); counted();
    if (g_trace) tracel("%-22s \"%.*s\"", tag, (int)(n > 200 ? 200 : n), s);
}
void note(const char *fmt, ...) { if (!g_trace) return; va_list ap; va_start(ap, fmt); tracef(fmt, ap); va_end(ap); }
void schedHash(uint64_t v) { hmix(R->shash, v); }
void stateHash(uint64_t v) { hmix(R->sthash, v); }
static void bump(Counter *c, unsigned &n, const char *name, uint64_t k) {
    for (unsigned i = 0; i < n; ++i) if (!strcmp(c[i].name, name)) { c[i].n += k; return; }
    if (n < MAXCNT) { strncpy(c[n].name, name, 47); c[n].n = k; ++n; }
}
void fault(const char *k, uint64_t n) { if (R) bump(R->faults, R->nfault, k, n); }
void probe(const char *k, uint64_t n) { if (R) bump(R->probes, R->nprobe, k, n); }
void simTime(uint64_t ns) { R->sim_ns = ns; }
void steps(uint64_t n) { R->steps = n; }
void nontrivial() { R->nontrivial = 1; }
void expectAbort(bool ok) { R->expect_abort = ok; }

static void endProcess(int st) {
    if (on_process_end) { void (*f)() = on_process_end; on_process_end = NULL; f(); }
    __atomic_store_n(&R->status, st, __ATOMIC_SEQ_CST);
    syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void violate(const char *cls, const char *fmt, ...) {
    if (!g_run) { va_list ap; va_start(ap, fmt); fprintf(stderr, "violate outside run: %s: ", cls); vfprintf(stderr, fmt, ap); abort(); }
    strncpy(R->cls, cls, sizeof(R->cls) - 1);
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof(R->msg), fmt, ap); va_end(ap);
    if (g_trace) tracel("VIOLATION class=%s: %s", R->cls, R->msg);
    endProcess(ST_VIOLATION); __builtin_unreachable();
}
void simError(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (!R || !g_run) { vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); _exit(2); }
    vsnprintf(R->msg, sizeof(R->msg), fmt, ap); va_end(ap);
    endProcess(ST_ERROR); __builtin_unreachable();
}
void discard(const char *why) { strncpy(R->cls, why, sizeof(R->cls) - 1); endProcess(ST_DISCARD); __builtin_unreachable(); }
void finish() { endProcess(ST_OK); __builtin_unreachable(); }
int outputFd() { return g_outfd; }
const char *capturedOutput() {
    static char buf[65536]; ssize_t n = syscall(SYS_pread64, g_outfd, buf, sizeof(buf) - 1, 0); if (n < 0) n = 0; buf[n] = 0; return buf;
}

// ------------------------------------------------------------------ running one simulation in a child
struct Result {
    int status; std::string cls, msg, scen; uint64_t hash, shash, sthash, events, sim_ns, steps; bool nontrivial, overflow;
    std::vector<Entry> rec; std::vector<std::pair<std::string, uint64_t> > faults, probes; std::string out;
};
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const Scenario *pickScenario() {
    std::vector<const Scenario *> v; unsigned tot = 0;
    for (auto &s : scenarios()) if (g_prop == s.prop && !(s.faultMode == 1 && g_faults) && !(s.faultMode == 2 && !g_faults)) { v.push_back(&s); tot += s.weight; }
    if (v.empty()) { for (auto &s : scenarios()) if (g_prop == s.prop) { v.push_back(&s); tot += s.weight; } }
    if (v.empty()) simError("no scenario for property %s", g_prop.c_str());
    // the scenario is recorded as an ordinary choice
    uint64_t key = mkkey(S_CFG, 95, 0), i = 0;
    if (g_gen) { uint64_t r = rnd(key) % tot; for (i = 0; i < v.size(); ++i) { if (r < v[i]->weight) break; r -= v[i]->weight; } }
    else i = lookup(key) % v.size();
    record(key, i);
    return v[i];
}
static Result runOnce(bool keepRec) {
    R->status = ST_RUNNING; R->expect_abort = R->nontrivial = R->overflow = 0; R->cls[0] = R->msg[0] = R->scen[0] = 0;
    R->hash = 0x1234567; R->shash = R->sthash = 77; R->events = R->sim_ns = R->steps = 0; R->nfault = R->nprobe = 0; R->nrec = 0;
    if (ftruncate(g_outfd, 0)) {}
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        lseek(g_outfd, 0, SEEK_SET);
        int nfd = open("/dev/null", O_RDONLY); dup2(nfd, 0); if (nfd > 2) close(nfd);
        dup2(g_outfd, 1); dup2(g_outfd, 2);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 12; setitimer(ITIMER_VIRTUAL, &it, NULL);
        it.it_value.tv_sec = 100; setitimer(ITIMER_REAL, &it, NULL);
        memset(g_pos, 0, sizeof g_pos);
        g_run = true;
        const Scenario *s = pickScenario();
        strncpy(R->scen, s->name, sizeof(R->scen) - 1);
        if (g_trace) tracel("scenario %s", s->name);
        if (on_run_begin) on_run_begin();
        try { s->fn(); }
        catch (std::exception &e) { violate("unexpected-exception", "%s", e.what()); }
        catch (...) { violate("unexpected-exception", "unknown exception"); }
        if (on_run_end) on_run_end();
        finish();
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.status = R->status; r.cls = R->cls; r.msg = R->msg; r.scen = R->scen;
    char ob[16384]; ssize_t on = pread(g_outfd, ob, sizeof(ob), 0); r.out.assign(ob, on > 0 ? on : 0);
    if (r.status == ST_RUNNING) {
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGABRT && R->expect_abort) r.status = ST_OK;
            else {
                r.status = ST_VIOLATION;
                r.cls = sg == SIGABRT ? "abort" : sg == SIGVTALRM ? "hang-cpu" : sg == SIGALRM ? "hang-blocked" : sg == SIGKILL ? "killed" : "crash";
                r.msg = std::string("run ended by signal ") + strsignal(sg) + "; output: " + r.out.substr(0, 700);
                if (sg == SIGKILL) r.status = ST_ERROR;
            }
        } else {
            r.status = ST_VIOLATION; r.cls = "exit";
            char b[64]; snprintf(b, sizeof b, "run ended by exit(%d); output: ", WEXITSTATUS(st)); r.msg = b + r.out.substr(0, 900);
            size_t a = r.out.find("ERROR: AddressSanitizer: ");
            if (a != std::string::npos) { a += 25; size_t e = a; while (e < r.out.size() && (isalnum((unsigned char)r.out[e]) || r.out[e] == '-')) ++e; r.cls = "asan-" + r.out.substr(a, e - a); }
        }
    }
    if (r.status == ST_VIOLATION && !r.scen.empty()) r.cls = r.scen + ":" + r.cls;
    if (r.cls.size() > 8 && r.cls.compare(r.cls.size() - 8, 8, "hang-cpu") == 0) R->hash = 0; // where the timer struck is not part of the run
    r.hash = R->hash; r.shash = R->shash; r.sthash = R->sthash; r.events = R->events; r.sim_ns = R->sim_ns; r.steps = R->steps;
    r.nontrivial = R->nontrivial; r.overflow = R->overflow;
    for (unsigned i = 0; i < R->nfault; ++i) r.faults.push_back(std::make_pair(std::string(R->faults[i].name), R->faults[i].n));
    for (unsigned i = 0; i < R->nprobe; ++i) r.probes.push_back(std::make_pair(std::string(R->probes[i].name), R->probes[i].n));
    if (keepRec || r.status == ST_VIOLATION) {
        r.rec.assign(R->rec, R->rec + R->nrec);
        std::stable_sort(r.rec.begin(), r.rec.end(), [](const Entry &a, const Entry &b) { return a.key < b.key; });
        std::vector<Entry> u; for (auto &e : r.rec) { if (!u.empty() && u.back().key == e.key) u.back() = e; else u.push_back(e); } r.rec.swap(u);
    }
    return r;
}
static Result runSeed(uint64_t seed, bool faults, bool keep = false) { g_gen = true; g_seed = seed; g_faults = faults; return runOnce(keep); }
static Result runRecorded(const std::vector<Entry> &v, bool faults) { g_gen = false; g_seed = 0; g_replay = v; g_faults = faults; return runOnce(true); }
static bool sameViolation(const Result &a, const Result &b) { return a.status == ST_VIOLATION && b.status == ST_VIOLATION && a.cls == b.cls; }

// ------------------------------------------------------------------ JSON helpers
static std::string js(const std::string &s) {
    std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}
static std::string strf(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ------------------------------------------------------------------ replay files
static void writeReplay(const char *path, uint64_t seed, bool faults, const Result &r, const char *bin) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "dsim-replay 1\nproperty %s\nharness %s\nseed %llu\nfaults %d\nthorough %d\nclass %s\nhash %016llx\nscenario %s\n", g_prop.c_str(), bin, (unsigned long long)seed, faults, g_thorough, r.cls.c_str(), (unsigned long long)r.hash, r.scen.c_str());
    std::string m = r.msg; for (auto &c : m) if (c == '\n') c = ' ';
    fprintf(f, "message %s\nchoices %zu\n", m.c_str(), r.rec.size());
    for (auto &e : r.rec) fprintf(f, "%s %u %u %llu\n", streamName(e.key >> 48), (unsigned)((e.key >> 32) & 0xffff), (unsigned)e.key, (unsigned long long)e.val);
    fclose(f);
}
struct ReplayFile { std::string prop, cls, hash; uint64_t seed; bool faults, thorough; std::vector<Entry> rec; };
static bool readReplay(const char *path, ReplayFile &rf) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char line[8192]; size_t n = 0; rf.seed = 0; rf.faults = rf.thorough = false;
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0; char *sp = strchr(line, ' '); if (!sp) continue; std::string k(line, sp - line), v(sp + 1);
        if (k == "property") rf.prop = v; else if (k == "class") rf.cls = v; else if (k == "hash") rf.hash = v;
        else if (k == "seed") rf.seed = strtoull(v.c_str(), 0, 10); else if (k == "faults") rf.faults = v == "1"; else if (k == "thorough") rf.thorough = v == "1";
        else if (k == "choices") { n = strtoull(v.c_str(), 0, 10); break; }
    }
    for (size_t i = 0; i < n && fgets(line, sizeof line, f); ++i) {
        char sn[32]; unsigned sub, pos; unsigned long long val; if (sscanf(line, "%31s %u %u %llu", sn, &sub, &pos, &val) != 4) { fclose(f); return false; }
        unsigned s = 0; for (unsigned j = 1; j < NSTREAM; ++j) if (!strcmp(stream_names[j], sn)) s = j;
        Entry e = {mkkey(s, sub, pos), val}; rf.rec.push_back(e);
    }
    std::sort(rf.rec.begin(), rf.rec.end(), [](const Entry &a, const Entry &b) { return a.key < b.key; });
    fclose(f); return true;
}
// ------------------------------------------------------------------ shrinking: drop choices while the class persists
static std::vector<Entry> shrink(std::vector<Entry> cur, bool faults, const Result &orig, double budget_s, unsigned &tries, Result &best) {
    double t0 = now_s(); tries = 0;
    auto attempt = [&](const std::vector<Entry> &v) -> bool {
        ++tries; Result r = runRecorded(v, faults);
        if (!sameViolation(r, orig)) return false;
        cur = r.rec.size() <= v.size() ? r.rec : v; best = r; return true;
    };
    // whole classes of choices first: streams (scheduling, time, faults), then one (stream,sub), then ddmin
    for (unsigned s = 1; s < NSTREAM && now_s() - t0 < budget_s; ++s) {
        if (s == S_CFG) continue;
        std::vector<Entry> v; for (auto &e : cur) if ((e.key >> 48) != s) v.push_back(e); if (v.size() < cur.size()) attempt(v);
    }
    { std::set<uint64_t> subs; for (auto &e : cur) subs.insert(e.key >> 32);
      for (uint64_t k : subs) { if (now_s() - t0 > budget_s || (k >> 16) == S_CFG) continue; std::vector<Entry> v; for (auto &e : cur) if ((e.key >> 32) != k) v.push_back(e); if (v.size() < cur.size()) attempt(v); } }
    size_t chunk = cur.size() / 2;
    while (chunk >= 1 && now_s() - t0 < budget_s) {
        bool any = false;
        for (size_t i = cur.size(); i > 0 && now_s() - t0 < budget_s;) {
            size_t lo = i > chunk ? i - chunk : 0; std::vector<Entry> v;
            for (size_t j = 0; j < cur.size(); ++j) if (j < lo || j >= i) v.push_back(cur[j]); 
            if (v.size() < cur.size() && attempt(v)) { any = true; i = std::min(lo, cur.size()); } else i = lo;
        }
        if (!any || chunk > cur.size()) { if (chunk == 1) break; chunk /= 2; }
    }
    // smaller values
    for (size_t i = 0; i < cur.size() && now_s() - t0 < budget_s; ++i) {
        for (int k = 0; k < 3 && i < cur.size() && cur[i].val > 1; ++k) {
            std::vector<Entry> v = cur; v[i].val = k == 0 ? 1 : k == 1 ? v[i].val / 2 : v[i].val - 1; if (attempt(v)) k = -1; 
            if (now_s() - t0 > budget_s) break;
        }
    }
    return cur;
}
static void pinCpu(int idx) {
    cpu_set_t all; CPU_ZERO(&all); if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all); if (n < 1) return; int want = idx % n;
    for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && want-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); return; }
}
static std::string counters(const std::map<std::string, uint64_t> &m) { std::string s = "{"; for (auto &p : m) { if (s.size() > 1) s += ","; s += js(p.first) + ":" + strf("%llu", (unsigned long long)p.second); } return s + "}"; }

static int usage() { fprintf(stderr, "usage: explore|replay|hashes|shrink ...\n"); return 2; }
static int mainImpl(int argc, char **argv) {
    if (argc < 2) return usage();
    std::string mode = argv[1]; std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) { if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; ++i; } else pos.push_back(argv[i]); }
    g_prop = o["prop"]; g_thorough = o["tier"] == "thorough";
    R = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_outfd = memfd_create("out", MFD_CLOEXEC);
    { int f = fcntl(g_outfd, F_DUPFD, 200); close(g_outfd); g_outfd = f; }
    pinCpu(atoi(o["cpu"].c_str()));
    if (mode == "replay" || mode == "shrink") {
        ReplayFile rf; if (pos.empty() || !readReplay(pos[0].c_str(), rf)) { fprintf(stderr, "bad replay file\n"); return 2; }
        g_prop = rf.prop; g_thorough = rf.thorough;
        if (o.count("trace")) { g_trace = true; g_tracefd = fcntl(open(o["trace"].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644), F_DUPFD, 210); }
        Result r = runRecorded(rf.rec, rf.faults);
        printf("{\"status\":%d,\"class\":%s,\"hash\":\"%016llx\",\"msg\":%s,\"scenario\":%s,\"steps\":%llu,\"out\":%s}\n", r.status, js(r.cls).c_str(), (unsigned long long)r.hash, js(r.msg).c_str(), js(r.scen).c_str(), (unsigned long long)r.steps, js(r.out.substr(0, 2000)).c_str());
        return r.status == ST_VIOLATION ? 1 : r.status == ST_OK || r.status == ST_DISCARD ? 0 : 2;
    }
    uint64_t base = strtoull(o["seed"].c_str(), 0, 10), start = strtoull(o["start"].c_str(), 0, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), 0, 10) : 1;
    uint64_t count = o.count("count") ? strtoull(o["count"].c_str(), 0, 10) : ~0ull; double tlimit = o.count("time") ? atof(o["time"].c_str()) : 1e18;
    uint64_t ph = 0; for (char c : g_prop) ph = ph * 131 + c;
    auto seedOf = [&](uint64_t i) { return mix64(base * 0x9e3779b97f4a7c15ull + mix64(i) + ph * 0x2545F4914F6CDD1Dull); };
    auto faultsOf = [&](uint64_t i) { return o.count("faults") ? o["faults"] == "1" : (i & 1) != 0; };
    if (mode == "hashes") { // determinism evidence: print index, status, hash
        for (uint64_t k = 0, i = start; k < count; ++k, i += stride) { Result r = runSeed(seedOf(i), faultsOf(i)); printf("%llu %d %016llx %016llx %s\n", (unsigned long long)i, r.status, (unsigned long long)r.hash, (unsigned long long)r.shash, r.cls.c_str()); }
        return 0;
    }
    if (mode == "one") {
        uint64_t i = start; if (o.count("trace")) { g_trace = true; g_tracefd = open(o["trace"].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); }
        Result r = runSeed(seedOf(i), faultsOf(i));
        printf("status %d cls %s msg %s scen %s steps %llu events %llu rec %u overflow %d\nout: %s\n", r.status, r.cls.c_str(), r.msg.c_str(), r.scen.c_str(), (unsigned long long)r.steps, (unsigned long long)r.events, R->nrec, r.overflow, r.out.c_str());
        return r.status == ST_OK ? 0 : 1;
    }
    if (mode != "explore") return usage();
    // known findings: classes that are counted, not reported
    std::set<std::string> known; { std::string k = o["known"]; size_t p = 0; while (p < k.size()) { size_t q = k.find('|', p); if (q == std::string::npos) q = k.size(); known.insert(k.substr(p, q - p)); p = q + 1; } }
    std::map<std::string, uint64_t> F, P, S, K, D; std::unordered_set<uint64_t> sh, th, st; uint64_t n = 0, nfr = 0, nt = 0, sim = 0, stp = 0, evn = 0, disc = 0, det = 0, detbad = 0, ovf = 0, maxsteps = 0; double t0 = now_s();
    uint64_t distinct_nt = 0; std::vector<uint64_t> nth; std::string viol, samples;
    unsigned nsamp = 0;
    for (uint64_t k = 0, i = start; k < count; ++k, i += stride) {
        if (now_s() - t0 > tlimit) break;
        uint64_t seed = seedOf(i); bool fl = faultsOf(i);
        Result r = runSeed(seed, fl, nsamp < 2);
        ++n; nfr += fl; sim += r.sim_ns; stp += r.steps; evn += r.events; maxsteps = std::max(maxsteps, r.steps); ++S[r.scen];
        bool newtr = th.insert(r.hash).second; sh.insert(r.shash); st.insert(r.sthash);
        if (r.nontrivial) { ++nt; if (newtr) { ++distinct_nt; nth.push_back(r.hash); } }
        for (auto &p : r.faults) F[p.first] += p.second;
        for (auto &p : r.probes) P[p.first] += p.second;
        if (nsamp < 2 && r.nontrivial) { ++nsamp; std::string c; size_t m = 0; for (auto &e : r.rec) { if (m++ >= 24) { c += " ..."; break; } c += strf("%s%s.%u.%u=%llu", c.empty() ? "" : " ", streamName(e.key >> 48), (unsigned)((e.key >> 32) & 0xffff), (unsigned)e.key, (unsigned long long)e.val); }
            samples += (samples.empty() ? "" : ",") + strf("{\"run\":%llu,\"seed\":\"%llu\",\"faults\":%d,\"scenario\":%s,\"steps\":%llu,\"events\":%llu,\"hash\":\"%016llx\",\"choices\":", (unsigned long long)i, (unsigned long long)seed, fl, js(r.scen).c_str(), (unsigned long long)r.steps, (unsigned long long)r.events, (unsigned long long)r.hash) + js(c) + "}"; }
        if (r.status == ST_ERROR) { printf("{\"error\":%s,\"run\":%llu}\n", js(r.msg).c_str(), (unsigned long long)i); return 2; }
        if (r.status == ST_DISCARD) { ++disc; ++D[r.cls]; }
        if (r.overflow) ++ovf;
        if (k % 64 == 7 && r.status == ST_OK) { ++det; Result r2 = runSeed(seed, fl); if (r2.hash != r.hash || r2.status != r.status) { ++detbad; if (o.count("verbose")) fprintf(stderr, "nondeterministic run %llu\n", (unsigned long long)i); } }
        if (r.status == ST_VIOLATION) {
            bool isknown = known.count(r.cls);
            if (isknown) { ++K[r.cls]; continue; }
            // gate 1: same seed again
            Result r2 = runSeed(seed, fl, true); bool ok = sameViolation(r, r2) && r.hash == r2.hash;
            // gate 2: the recorded choices alone
            Result r3; bool ok3 = false; if (ok) { r3 = runRecorded(r2.rec, fl); ok3 = sameViolation(r, r3); }
            std::string path = o["out"] + strf(".run%llu.replay", (unsigned long long)i);
            unsigned tries = 0; size_t before = r2.rec.size(), after = before; Result best = r3;
            if (ok && ok3) {
                std::vector<Entry> mn = shrink(r2.rec, fl, r, o.count("shrink") ? atof(o["shrink"].c_str()) : 15, tries, best);
                Result f1 = runRecorded(mn, fl), f2 = runRecorded(mn, fl);
                if (sameViolation(f1, r) && sameViolation(f2, r) && f1.hash == f2.hash) { best = f1; best.rec = mn; } else { best = r3; best.rec = r2.rec; Result g = runRecorded(r2.rec, fl); ok3 = sameViolation(g, r3) && g.hash == r3.hash; }
                after = best.rec.size();
                writeReplay(path.c_str(), seed, fl, best, o["bin"].c_str());
            }
            viol = strf("{\"run\":%llu,\"seed\":\"%llu\",\"gate\":%s,\"tries\":%u,\"before\":%zu,\"after\":%zu,\"path\":", (unsigned long long)i, (unsigned long long)seed, ok && ok3 ? "true" : "false", tries, before, after) + js(path) + ",\"class\":" + js(r.cls) + ",\"hash\":" + js(strf("%016llx", (unsigned long long)best.hash)) + ",\"msg\":" + js(r.msg) + ",\"at_s\":" + strf("%.2f", now_s() - t0) + "}";
            break;
        }
    }
    if (o.count("out")) {
        auto dump = [&](const char *sfx, const std::vector<uint64_t> &v) { FILE *f = fopen((o["out"] + sfx).c_str(), "w"); if (f) { fwrite(v.data(), 8, v.size(), f); fclose(f); } };
        dump(".nt", nth); dump(".sh", std::vector<uint64_t>(sh.begin(), sh.end())); dump(".st", std::vector<uint64_t>(st.begin(), st.end()));
    }
    printf("{\"runs\":%llu,\"fault_runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"distinct_traces\":%zu,\"distinct_interleavings\":%zu,\"distinct_states\":%zu,\"sim_ns\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"events\":%llu,\"discarded\":%llu,\"overflow\":%llu,\"det_checked\":%llu,\"det_bad\":%llu,\"wall\":%.3f",
        (unsigned long long)n, (unsigned long long)nfr, (unsigned long long)nt, (unsigned long long)distinct_nt, th.size(), sh.size(), st.size(), (unsigned long long)sim, (unsigned long long)stp, (unsigned long long)maxsteps, (unsigned long long)evn, (unsigned long long)disc, (unsigned long long)ovf, (unsigned long long)det, (unsigned long long)detbad, now_s() - t0);
    printf(",\"faults\":%s,\"probes\":%s,\"scenarios\":%s,\"known\":%s,\"discards\":%s,\"samples\":[%s]%s%s}\n", counters(F).c_str(), counters(P).c_str(), counters(S).c_str(), counters(K).c_str(), counters(D).c_str(), samples.c_str(), viol.empty() ? "" : ",\"violation\":", viol.c_str());
    return viol.empty() ? 0 : 1;
}
}
int main(int argc, char **argv) {
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("DSIM_REEXEC")) {
        if (personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("DSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    unsetenv("DSIM_REEXEC");
    mallopt(M_PERTURB, 0x5a); // new memory holds rubbish, freed memory too
    return dsim::mainImpl(argc, argv);
}
