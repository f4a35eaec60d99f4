#include "core.hpp"
#include "pl.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <ftw.h>
#include <time.h>
#include <dlfcn.h>
#include <limits.h>
#include <linux/futex.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <map>

extern "C" int dsim_perl_init(const char *script);
extern "C" int dsim_perl_main(const char *fn);
namespace dsim {
enum Op { P_START = 1, P_EXIT, P_TIME, P_SLEEP, P_FORK, P_WAIT, P_KILL, P_FLOCK, P_FLOCKWAIT, P_EXEC, P_FILE, P_DIE, P_PIPE, P_TOOL, P_WRITE, P_PPID,
          P_CHOOSE = 100, P_NOTE, P_POINT, P_NOW, P_FAULTS, P_KILLABLE, P_VIOLATE, P_PROBE, P_ROLE, P_FAULTBAR, P_LIVE, P_CALL };
enum { NS = 64, SLEN = 2048 };
enum { ST_FREE = 0, ST_LIVE, ST_ZOMBIE, ST_REAPED };
struct Slot {
    volatile uint32_t fut; uint32_t op; int64_t a[3]; int64_t ret; int err; char s[SLEN]; size_t n;
    pid_t rpid; int vpid;
    uint64_t handled, ignored, blocked;   // signal sets kept by the process itself
    volatile uint64_t pendfatal;          // sent while blocked; kills when unblocked
};
struct Mem { volatile uint32_t seq; pid_t ctl; Slot slot[NS]; };
static Mem *M; static int g_me = -1;       // this process' slot (-1: not a simulated process)
static char g_dir[256];
static long futex(volatile uint32_t *w, int op, uint32_t v, const timespec *t) { return syscall(SYS_futex, w, op, v, t, 0, 0); }
static void closeCloexec() { for (int fd = 3; fd < 128; ++fd) { long f = syscall(SYS_fcntl, fd, F_GETFD); if (f >= 0 && (f & FD_CLOEXEC)) syscall(SYS_close, fd); } }

// ------------------------------------------------------------------ in the simulated processes
static int64_t req(Op op, int64_t a = 0, int64_t b = 0, int64_t c = 0, const char *s = "", size_t n = 0) {
    int keep = errno; // the real calls made here leave no trace in errno
    Slot &S = M->slot[g_me]; S.op = op; S.a[0] = a; S.a[1] = b; S.a[2] = c; if (n > SLEN - 1) n = SLEN - 1; memcpy(S.s, s, n); S.s[n] = 0; S.n = n;
    __atomic_store_n(&S.fut, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(&M->seq, 1, __ATOMIC_SEQ_CST); futex(&M->seq, FUTEX_WAKE, 1, NULL);
    while (__atomic_load_n(&S.fut, __ATOMIC_SEQ_CST) != 2) {
        timespec t = {2, 0};
        if (futex(&S.fut, FUTEX_WAIT, 1, &t) < 0 && errno == ETIMEDOUT && syscall(SYS_kill, M->ctl, 0) < 0) syscall(SYS_exit_group, 99);
    }
    S.fut = 0; errno = S.ret < 0 && S.err ? S.err : keep;
    return S.ret;
}
static inline bool sim() { return g_me >= 0; }
static bool ours(const char *p) { if (!p || !*p) return false; if (strncmp(p, g_dir, strlen(g_dir)) == 0) return true; if (p[0] == '/') return false; size_t n = strlen(p); return !(n > 3 && (!strcmp(p + n - 3, ".pl") || !strcmp(p + n - 3, "log"))); }
static void simCommand(char *const argv[]);
// /tmp of the simulated machine lies in the scratch directory
static std::string mapped(const std::string &p) { static const char *r = getenv("DSIM_REPO"); if (r && p.compare(0, strlen(r), r) == 0) return p; if (p.compare(0, 5, "/tmp/") == 0 && p.compare(0, strlen(g_dir), g_dir)) return std::string(g_dir) + p; return p; }
static std::string unscratch(std::string id) { for (size_t q; (q = id.find(g_dir)) != std::string::npos;) id.replace(q, strlen(g_dir), "@"); return id; } // the scratch directory's name differs from run to run
static bool writesFail; // regular file writes are asked for as well
static void simExit(int st) { req(P_EXIT, st & 255); syscall(SYS_exit_group, st & 255); __builtin_unreachable(); }
#define REAL(name) ((decltype(&::name))dlsym(RTLD_NEXT, #name))

// "simcmd ID steps how": how = e<code> or s<signal> or z<ms>,... executed in place of the program
static void simCommand(char *const argv[]) {
    closeCloexec();
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    for (int s = 1; s < 64; ++s) if (M->slot[g_me].handled >> s & 1) { sa.sa_handler = SIG_DFL; syscall(SYS_rt_sigaction, s, &sa, 0, 8); }
    M->slot[g_me].handled = 0;
    std::string id = unscratch(argv[1] ? argv[1] : "?"); char b[300]; int k = snprintf(b, sizeof b, "cmd-begin %.280s", id.c_str()); req(P_NOTE, 0, 0, 0, b, k);
    int st = 0, sig = 0;
    for (int i = 2; argv[i]; ++i) {
        int v = atoi(argv[i] + 1);
        if (argv[i][0] == 'p') for (int j = 0; j < v; ++j) req(P_POINT);
        else if (argv[i][0] == 'z') req(P_SLEEP, (int64_t)v * 1000000);
        else if (argv[i][0] == 'e') st = v; else if (argv[i][0] == 's') sig = v;
        else if (argv[i][0] == 'o') { if (syscall(SYS_write, 1, argv[i] + 1, strlen(argv[i] + 1))) {} }
        else if (argv[i][0] == 'O') { if (syscall(SYS_write, 2, argv[i] + 1, strlen(argv[i] + 1))) {} }
    }
    k = snprintf(b, sizeof b, "cmd-end %.280s", id.c_str()); req(P_NOTE, 0, 0, 0, b, k);
    if (sig) req(P_KILL, M->slot[g_me].vpid, sig);
    simExit(st);
}
// ---- a stand-in shell: one pipeline of the tools below, with redirections and an outer pair of parentheses
typedef std::vector<std::string> Words;
static int rmSim(const char *p, const struct stat *, int, struct FTW *) { req(P_POINT); remove(p); return 0; }
static bool readAll(const std::string &f, std::string &out) { int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0); if (fd < 0) return false; char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, n); syscall(SYS_close, fd); return true; }
// one tool; returns its exit status. Contents with the marker !BAD! cannot be read beyond it.
static int tool(const Words &w, const std::string &in, std::string &out, std::string &err, int &sig) {
    const std::string &c = w[0]; auto bad = [&](std::string &d) { size_t p = d.find("!BAD!"); if (p == std::string::npos) return false; d.resize(p); return true; };
    if (c == "simcmd") {
        std::string id = unscratch(w.size() > 1 ? w[1] : "?");
        std::string b = "cmd-begin " + id; req(P_NOTE, 0, 0, 0, b.c_str(), b.size()); int st = 0;
        for (size_t i = 2; i < w.size(); ++i) { int v = atoi(w[i].c_str() + 1); std::string t = w[i].substr(1);
            switch (w[i][0]) { case 'p': for (int j = 0; j < v; ++j) req(P_POINT); break; case 'z': req(P_SLEEP, v * 1000000ll); break; case 'e': st = v; break; case 's': sig = v; break; case 'o': out += t; break; case 'O': err += t; break; } }
        b = "cmd-end " + id; req(P_NOTE, 0, 0, 0, b.c_str(), b.size()); return st; }
    if (c == "cat") { int st = 0; if (w.size() == 1) { out = in; return 0; } for (size_t i = 1; i < w.size(); ++i) { std::string d; if (!readAll(w[i], d)) { err += "cat: no such file\n"; st = 1; continue; } if (bad(d)) st = 1; out += d; } return st; }
    if (c == "gzip" || c == "bzip2") { out = (c == "gzip" ? "GZ<" : "BZ<") + in + ">"; return 0; }
    if (c == "gunzip" || c == "bunzip2") {
        const char *m = c == "gunzip" ? "GZ<" : "BZ<"; if (in.empty() || in.compare(0, 3, m)) { err += "not in the right format\n"; return 1; }
        // a nested archive ends in several '>': the whole must be balanced
        int depth = 0; size_t i = 0; for (; i < in.size(); ++i) { if (in[i] == '<') ++depth; else if (in[i] == '>' && --depth == 0) break; }
        out = in.substr(3, i - 3); if (i >= in.size() || i + 1 != in.size()) { err += "unexpected end\n"; return 1; } return 0; }
    if (c == "rm") { // rm -rf
        for (size_t i = 1; i < w.size(); ++i) if (w[i][0] != '-') { if (w[i].compare(0, strlen(g_dir), g_dir) || w[i].size() <= strlen(g_dir) + 5) { std::string m = "rm-outside: rm of " + w[i]; req(P_VIOLATE, 0, 0, 0, m.c_str(), m.size()); }
            req(P_POINT); nftw(w[i].c_str(), rmSim, 16, FTW_DEPTH | FTW_PHYS); } return 0; }
    if (c == "tar") { // tar -c -f OUT --files-from LIST
        std::string list, dir, d; for (size_t i = 1; i + 1 < w.size(); ++i) if (w[i] == "--files-from") list = w[i + 1];
        if (!readAll(list, d)) { err += "tar: no list\n"; return 2; }
        int st = 0; for (size_t i = 0; i < d.size();) { size_t e = d.find('\n', i); if (e == std::string::npos) e = d.size(); std::string l = d.substr(i, e - i), t; i = e + 1; if (l.compare(0, 2, "-C") == 0) { dir = l.substr(2); continue; }
            std::string f = l[0] == '/' ? l : dir + "/" + l; req(P_POINT); if (!readAll(f, t)) { err += "tar: " + f + ": no such file\n"; st = 2; continue; } char b[32]; snprintf(b, sizeof b, "=%zu:", t.size()); out += l + b + t + ";"; }
        out += "END"; return st; }
    if (c == "hostname") { out = "simhost\n"; return 0; }
    if (c == "bsub" || c == "qsub") { // the batch system: remembers what was submitted
        std::string l; for (auto &x : w) l += (l.empty() ? "" : " ") + x; l += "\n";
        int fd = syscall(SYS_openat, AT_FDCWD, "submitted.log", O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { if (syscall(SYS_write, fd, l.data(), l.size())) {} syscall(SYS_close, fd); } return 0; }
    err += c + ": not found\n"; return 127;
}
static void simShell(const std::string &line) {
    closeCloexec(); signal(SIGPIPE, SIG_IGN);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    for (int s = 1; s < 64; ++s) if (M->slot[g_me].handled >> s & 1) { sa.sa_handler = SIG_DFL; syscall(SYS_rt_sigaction, s, &sa, 0, 8); }
    M->slot[g_me].handled = 0;
    std::vector<Words> st(1); std::string infile, outfile; bool app = false, err2out = false; 
    for (size_t i = 0; i < line.size();) {
        char ch = line[i]; if (ch == ' ' || ch == '\t' || ch == '(' || ch == ')') { ++i; continue; }
        if (ch == '|') { st.push_back(Words()); ++i; continue; }
        if (ch == '2' && line.compare(i, 4, "2>&1") == 0) { err2out = true; i += 4; continue; }
        bool in = ch == '<', o = ch == '>'; if (o && line.compare(i, 2, ">>") == 0) { app = true; ++i; } if (in || o) { ++i; while (i < line.size() && line[i] == ' ') ++i; }
        std::string w; while (i < line.size() && !strchr(" \t()|<>", line[i])) w += line[i++];
        w = mapped(w); if (in) infile = w; else if (o) outfile = w; else st.back().push_back(w);
    }
    if (!st[0].empty() && st[0][0] == "tar") for (size_t i = 1; i + 1 < st[0].size(); ++i) if (st[0][i] == "-f") outfile = st[0][i + 1];
    req(P_POINT);
    std::string data, err; int rc = 0, sig = 0; int fd = 1;
    if (!outfile.empty()) { // the shell opens the output before anything runs
        fd = syscall(SYS_openat, AT_FDCWD, outfile.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0644); if (fd < 0) simExit(1); req(P_POINT); }
    if (!infile.empty() && !readAll(infile, data)) simExit(1);
    for (size_t k = 0; k < st.size(); ++k) {
        if (st[k].empty()) continue;
        std::string o; rc = tool(st[k], data, o, err, sig);
        int64_t f = req(P_TOOL, st[k][0] != "simcmd", k + 1 < st.size(), 0, st[k][0].c_str(), st[k][0].size()); // an injected failure: a part of the output, then an error
        if (f >= 200) { // wrong data without any error: one byte changed, or the end missing, in an archive that unpacks
            if (f == 200 && o.size() > 4) o[3] ^= 1; else if (o.size() > 5) { o.resize(o.size() - 2); o += ">"; } }
        else if (f >= 0) { o.resize(o.size() * f / 100); rc = 1; }
        data = o; req(P_POINT);
    }
    if (err2out) data += err; else if (!err.empty() && syscall(SYS_write, 2, err.data(), err.size())) {}
    size_t chunk = data.size() / 3 + 1; struct stat ost; bool pipeOut = fstat(fd, &ost) == 0 && S_ISFIFO(ost.st_mode); if (pipeOut && chunk > 4096) chunk = 4096;
    for (size_t i = 0; i < data.size(); i += chunk) { size_t n = data.size() - i < chunk ? data.size() - i : chunk; if (pipeOut) req(P_PIPE, fd, 1); if (syscall(SYS_write, fd, data.data() + i, n) < 0) simExit(141); req(P_POINT); }
    if (sig) req(P_KILL, M->slot[g_me].vpid, sig);
    simExit(rc);
}
static int simExecv(const char *file, char *const argv[]) {
    { const char *b = strrchr(file, '/'); b = b ? b + 1 : file; std::string line;
      static const char *tools[] = {"cat", "gzip", "bzip2", "gunzip", "bunzip2", "hostname", "bsub", "qsub", "tar", "rm"}; bool t = false; for (const char *x : tools) t |= !strcmp(x, b);
      if (!strcmp(b, "sh") && argv[1] && !strcmp(argv[1], "-c") && argv[2]) line = argv[2];
      else if (t) { line = b; for (int i = 1; argv[i]; ++i) { line += " "; line += argv[i]; } }
      if (!line.empty()) { if (req(P_EXEC, 1, 0, 0, line.c_str(), line.size()) < 0) return -1; simShell(line); return -1; } }
    std::string all = file; for (int i = 1; argv[i]; ++i) { all += " "; all += argv[i]; }
    const char *base = strrchr(file, '/'); base = base ? base + 1 : file;
    int64_t r = req(P_EXEC, !strcmp(base, "simcmd"), 0, 0, all.c_str(), all.size());
    if (r < 0) return -1;
    simCommand(argv);
    return -1;
}
}
using namespace dsim;
extern "C" {
int64_t dsim_pl_req(int op, int64_t a, int64_t b, int64_t c, const char *s, size_t n) { if (!sim()) return 0; return req((Op)op, a, b, c, s, n); }
extern "C" const char *dsim_pl_answer(size_t *n) { if (!sim()) { *n = 0; return ""; } *n = M->slot[g_me].n; return M->slot[g_me].s; }
pid_t fork() {
    static auto real = REAL(fork);
    if (!sim()) return real();
    int64_t slot = req(P_FORK); if (slot < 0) return -1;
    Slot &me = M->slot[g_me]; uint64_t h = me.handled, ig = me.ignored, bl = me.blocked;
    pid_t p = real();
    if (p < 0) { req(P_VIOLATE, 0, 0, 0, "simulator: real fork failed", 27); return -1; }
    if (p == 0) {
        Slot &S = M->slot[slot]; S.handled = h; S.ignored = ig; S.blocked = bl; S.pendfatal = 0;
        S.rpid = syscall(SYS_getpid); g_me = slot; req(P_START); return 0;
    }
    return M->slot[slot].vpid;
}
pid_t getpid() { return sim() ? M->slot[g_me].vpid : (pid_t)syscall(SYS_getpid); }
pid_t getppid() { return sim() ? (pid_t)req(P_PPID) : (pid_t)syscall(SYS_getppid); }
pid_t waitpid(pid_t pid, int *st, int fl) {
    static auto real = REAL(waitpid);
    if (!sim()) return real(pid, st, fl);
    int64_t v = req(P_WAIT, pid, fl); if (v <= 0) return v;
    pid_t rp = M->slot[g_me].a[0]; int dummy; int keep = errno; while (real(rp, st ? st : &dummy, 0) < 0 && errno == EINTR) {} errno = keep;
    return v;
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int kill(pid_t p, int s) { if (!sim()) return syscall(SYS_kill, p, s); return req(P_KILL, p, s); }
int killpg(pid_t p, int s) { if (!sim()) return syscall(SYS_kill, -p, s); return req(P_KILL, -p, s); }
int flock(int fd, int op) {
    if (!sim()) return syscall(SYS_flock, fd, op);
    if (req(P_FLOCK, fd, op) < 0) return -1;
    for (int keep = errno;;) {
        long r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0) { errno = keep; return 0; }
        if (errno != EWOULDBLOCK || (op & LOCK_NB)) return -1;
        if (req(P_FLOCKWAIT, fd, op) < 0) return -1;
    }
}
time_t time(time_t *t) { if (!sim()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = req(P_TIME) / 1000000000; if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) noexcept { int64_t v; if (!sim()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec * 1000000000ll + ts.tv_nsec; } else v = req(P_TIME); if (tv) { tv->tv_sec = v / 1000000000; tv->tv_usec = v / 1000 % 1000000; } return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) noexcept { if (!sim()) return syscall(SYS_clock_gettime, c, ts); int64_t v = req(P_TIME); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0; }
unsigned sleep(unsigned s) { static auto real = REAL(sleep); if (!sim()) return real(s); int64_t r = req(P_SLEEP, s * 1000000000ll); return r < 0 ? (M->slot[g_me].a[0] + 999999999) / 1000000000 : 0; }
int nanosleep(const struct timespec *t, struct timespec *rem) { static auto real = REAL(nanosleep); if (!sim()) return real(t, rem); int64_t r = req(P_SLEEP, t->tv_sec * 1000000000ll + t->tv_nsec); if (r < 0 && rem) { rem->tv_sec = M->slot[g_me].a[0] / 1000000000; rem->tv_nsec = M->slot[g_me].a[0] % 1000000000; } return r < 0 ? -1 : 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) { static auto real = REAL(clock_nanosleep); if (!sim() || fl) return real(c, fl, t, rem); return nanosleep(t, rem) ? EINTR : 0; }
int usleep(useconds_t u) { static auto real = REAL(usleep); if (!sim()) return real(u); return req(P_SLEEP, u * 1000ll) < 0 ? -1 : 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    static auto real = REAL(select);
    if (!sim() || r || w || e) return real(n, r, w, e, tv);
    return req(P_SLEEP, tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : 1000000000000000ll) < 0 ? -1 : 0;
}
int execvp(const char *f, char *const argv[]) { static auto real = REAL(execvp); return sim() ? simExecv(f, argv) : real(f, argv); }
int execv(const char *f, char *const argv[]) { static auto real = REAL(execv); return sim() ? simExecv(f, argv) : real(f, argv); }
int execl(const char *f, const char *a0, ...) noexcept {
    char *av[64]; int n = 0; va_list ap; va_start(ap, a0); for (const char *a = a0; n < 63; a = va_arg(ap, const char *)) { av[n++] = (char *)a; if (!a) break; } va_end(ap); av[63] = NULL;
    return execv(f, av);
}
int rename(const char *a0, const char *b0) noexcept { static auto real = REAL(rename); std::string a = a0, b = b0; if (sim()) { a = mapped(a); b = mapped(b); if (ours(a.c_str()) || ours(b.c_str())) { std::string s = a + " -> " + b; if (req(P_FILE, 1, 0, 0, s.c_str(), s.size()) < 0) return -1; } } return real(a.c_str(), b.c_str()); }
int unlink(const char *a) noexcept { static auto real = REAL(unlink); if (!sim()) return real(a); std::string m = mapped(a); if (ours(m.c_str()) && req(P_FILE, 2, 0, 0, m.c_str(), m.size()) < 0) return -1; return real(m.c_str()); }
int mkdir(const char *a, mode_t m) noexcept { static auto real = REAL(mkdir); if (!sim()) return real(a, m); std::string s = mapped(a); if (s != a && req(P_FILE, 3, 0, 0, s.c_str(), s.size()) < 0) return -1; return real(s.c_str(), m); }
int rmdir(const char *a) noexcept { static auto real = REAL(rmdir); if (!sim()) return real(a); std::string s = mapped(a); if (s != a && req(P_FILE, 2, 0, 0, s.c_str(), s.size()) < 0) return -1; return real(s.c_str()); }
int stat64(const char *a, struct stat64 *st) noexcept { static auto real = REAL(stat64); if (!sim()) return real(a, st); return real(mapped(a).c_str(), st); }
int lstat64(const char *a, struct stat64 *st) noexcept { static auto real = REAL(lstat64); if (!sim()) return real(a, st); return real(mapped(a).c_str(), st); }
int open64(const char *p0, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!sim()) return syscall(SYS_openat, AT_FDCWD, p0, fl, m);
    std::string p = mapped(p0);
    if (ours(p.c_str()) && req(P_FILE, (fl & O_ACCMODE) == O_RDONLY ? 0 : 3, fl, 0, p.c_str(), p.size()) < 0) return -1;
    return syscall(SYS_openat, AT_FDCWD, p.c_str(), fl, m);
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) noexcept {
    static auto real = REAL(sigaction);
    int r = real(sig, a, o);
    if (sim() && r == 0 && a && sig > 0 && sig < 64) {
        Slot &S = M->slot[g_me]; uint64_t b = 1ull << sig; bool h = a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN;
        S.handled = h ? S.handled | b : S.handled & ~b; S.ignored = a->sa_handler == SIG_IGN ? S.ignored | b : S.ignored & ~b;
    }
    return r;
}
int sigprocmask(int how, const sigset_t *set, sigset_t *old) noexcept {
    static auto real = REAL(sigprocmask);
    if (sim() && set) {
        Slot &S = M->slot[g_me]; uint64_t v = 0; for (int s = 1; s < 64; ++s) if (sigismember(set, s) == 1) v |= 1ull << s;
        uint64_t nb = how == SIG_BLOCK ? S.blocked | v : how == SIG_UNBLOCK ? S.blocked & ~v : v;
        if (S.pendfatal & ~nb) { int s = __builtin_ctzll(S.pendfatal & ~nb); req(P_DIE, s); }
        S.blocked = nb;
    }
    return real(how, set, old);
}
ssize_t write(int fd, const void *b, size_t n) {
    static auto real = REAL(write);
    if (sim() && writesFail && fd > 2) { char l[64], f[512]; int keep = errno; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, f, sizeof f - 1); errno = keep;
        if (k > 3 && strncmp(f + k - 3, "log", 3)) { f[k] = 0; size_t d = strlen(g_dir); if (strncmp(f, g_dir, d) == 0) { int64_t r = req(P_WRITE, n, 0, 0, f + d, k - d); if (r < 0) return -1; if ((size_t)r < n) n = r; } } }
    return real(fd, b, n);
}
#undef read
ssize_t read(int fd, void *b, size_t n) {
    static auto real = REAL(read);
    if (sim()) { struct stat st; int keep = errno; if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode)) { errno = keep; if (req(P_PIPE, fd) < 0) return -1; } errno = keep; }
    return real(fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
void _exit(int st) { if (sim()) simExit(st); syscall(SYS_exit_group, st); __builtin_unreachable(); }
}
namespace dsim {
// ------------------------------------------------------------------ the simulator process
struct P { int state = ST_FREE, slot = -1, vpid = 0, ppid = 0, status = 0, role = 0; bool killable = false, injected = false, intr = false, registered = false; pid_t rpid = 0; int pidfd = -1; uint64_t deadline = 0; };
static P g_p[NS]; static std::vector<PlProc> g_dead; static uint64_t g_now; static unsigned g_steps; static int g_last; static PlCfg g_cfg; static const PlHooks *g_h; static bool g_up, g_nofault;
static int g_nextpid;
static int bySlotVpid(int vpid) { for (int i = 0; i < NS; ++i) if ((g_p[i].state == ST_LIVE || g_p[i].state == ST_ZOMBIE) && g_p[i].vpid == vpid) return i; return -1; }
uint64_t plNow() { return g_now; }
static PlProc mk(const P &p) { PlProc q; q.vpid = p.vpid; q.ppid = p.ppid; q.alive = p.state == ST_LIVE; q.zombie = p.state == ST_ZOMBIE; q.reaped = p.state == ST_REAPED; q.killable = p.killable; q.injectedKill = p.injected; q.status = p.status; q.role = p.role; return q; }
const PlProc *plProc(int vpid) { static PlProc q; int i = bySlotVpid(vpid); if (i >= 0) { q = mk(g_p[i]); return &q; } for (size_t k = g_dead.size(); k-- > 0;) if (g_dead[k].vpid == vpid) return &g_dead[k]; return NULL; }
std::vector<PlProc> plAll() { std::vector<PlProc> v = g_dead; for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE || g_p[i].state == ST_ZOMBIE) v.push_back(mk(g_p[i])); return v; }
bool plFileLocked(const char *path) { int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0); if (fd < 0) return false; long r = syscall(SYS_flock, fd, LOCK_EX | LOCK_NB); syscall(SYS_close, fd); return r < 0; }
static void reapReal(pid_t rp) { int st; while (syscall(SYS_wait4, rp, &st, 0, 0) < 0 && errno == EINTR) {} }
void plKillAll() {
    for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE && g_p[i].rpid > 0) syscall(SYS_kill, g_p[i].rpid, SIGKILL);
    for (int i = 0; i < NS; ++i) if (M && M->slot[i].rpid > 0 && g_p[i].state == ST_LIVE && !g_p[i].registered) syscall(SYS_kill, M->slot[i].rpid, SIGKILL);
    for (;;) { int st; long r = syscall(SYS_wait4, -1, &st, 0, 0); if (r < 0 && errno == ECHILD) break; }
}
static int rmOne(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void waitDead(P &p) {
    struct pollfd f = {p.pidfd, POLLIN, 0};
    for (int k = 0; k < 300; ++k) { struct timespec ts = {0, 100000000}; long r = syscall(SYS_ppoll, &f, 1, &ts, 0, 0); if (r > 0) return; }
    simError("process %d did not end", p.vpid);
}
static void retire(P &p) { p.state = ST_REAPED; PlProc q = mk(p); g_dead.push_back(q); if (p.pidfd >= 0) syscall(SYS_close, p.pidfd); p.pidfd = -1; int s = p.slot; M->slot[s].rpid = 0; p = P(); }
static void markDead(int i, int status) {
    P &p = g_p[i]; waitDead(p); p.state = ST_ZOMBIE; p.status = status;
    ev("exit", p.vpid, status); if (g_h->exit) g_h->exit(p.vpid, status);
    int vp = p.vpid;
    for (int k = 0; k < NS; ++k) if (k != i && (g_p[k].state == ST_LIVE || g_p[k].state == ST_ZOMBIE) && g_p[k].ppid == vp) {
        g_p[k].ppid = 1; if (g_p[k].state == ST_ZOMBIE) { reapReal(g_p[k].rpid); retire(g_p[k]); }
    }
    int pi = p.ppid > 1 ? bySlotVpid(p.ppid) : -1;
    if (pi < 0 || g_p[pi].state != ST_LIVE) { reapReal(p.rpid); retire(p); return; }
    Slot &ps = M->slot[pi];
    if (ps.ignored >> SIGCHLD & 1) { retire(p); return; }
    if ((ps.handled >> SIGCHLD & 1) && !(ps.blocked >> SIGCHLD & 1)) { g_p[pi].intr = true; probe("sigchld-delivered"); }
}
static bool fatalSig(int s) { return s != SIGCHLD && s != SIGCONT && s != SIGURG && s != SIGWINCH; }
// returns 0 or -errno
static int sendSig(int i, int sig) {
    P &p = g_p[i]; Slot &S = M->slot[i];
    if (sig == 0 || p.state == ST_ZOMBIE) return 0;
    if (sig != SIGKILL && (S.ignored >> sig & 1)) return 0;
    bool handled = sig != SIGKILL && (S.handled >> sig & 1), blocked = sig != SIGKILL && (S.blocked >> sig & 1);
    if (!handled && !fatalSig(sig)) return 0;
    if (blocked) { syscall(SYS_kill, p.rpid, sig); if (!handled) S.pendfatal |= 1ull << sig; probe("signal-while-blocked"); return 0; }
    syscall(SYS_kill, p.rpid, sig);
    if (handled) p.intr = true; else markDead(i, sig);
    return 0;
}
static void settle() {
    for (int spins = 0;;) {
        uint32_t sq = __atomic_load_n(&M->seq, __ATOMIC_SEQ_CST); bool all = true;
        for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE) {
            if (__atomic_load_n(&M->slot[i].fut, __ATOMIC_SEQ_CST) != 1) { all = false; continue; }
            if (!g_p[i].registered) { g_p[i].registered = true; g_p[i].rpid = M->slot[i].rpid; g_p[i].pidfd = syscall(SYS_pidfd_open, g_p[i].rpid, 0); if (g_p[i].pidfd < 0) simError("pidfd_open: %s", strerror(errno)); }
        }
        if (all) return;
        timespec t = {0, 200000000};
        if (futex(&M->seq, FUTEX_WAIT, sq, &t) < 0 && errno == ETIMEDOUT) {
            ++spins;
            for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE && g_p[i].registered && M->slot[i].fut != 1) {
                struct pollfd f = {g_p[i].pidfd, POLLIN, 0}; struct timespec z = {0, 0};
                if (syscall(SYS_ppoll, &f, 1, &z, 0, 0) > 0) violate("process-crashed", "process %d ended unexpectedly (not by exit, exec or a simulated signal)", g_p[i].vpid);
                char pth[64]; snprintf(pth, sizeof pth, "/proc/%d/stat", g_p[i].rpid); int fd = syscall(SYS_openat, AT_FDCWD, pth, O_RDONLY, 0);
                if (fd >= 0) { char b[1024]; long n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd); if (n > 0) { b[n] = 0; char *q = strrchr(b, ')'); unsigned long u = 0, s = 0; if (q) sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
                    if (u + s > 1500) violate("hang-cpu", "process %d computes without ever asking the system anything", g_p[i].vpid); } }
            }
            if (spins > 450) simError("a simulated process does not answer");
        }
    }
}
static void reply(int i, int64_t ret, int err = 0) { Slot &S = M->slot[i]; S.ret = ret; S.err = err; __atomic_store_n(&S.fut, 2, __ATOMIC_SEQ_CST); futex(&S.fut, FUTEX_WAKE, 1, NULL); }
static int newSlot(int ppid) {
    for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_FREE) {
        P &p = g_p[i]; p = P(); p.state = ST_LIVE; p.slot = i; p.ppid = ppid; p.killable = g_cfg.killBorn && ppid > 1; memset((void *)&M->slot[i], 0, sizeof(Slot));
        if (g_cfg.pidReuse) { int v = 1000; while (bySlotVpid(v) >= 0) ++v; p.vpid = v; for (auto &d : g_dead) if (d.vpid == v) { probe("pid-reused"); break; } } else p.vpid = g_nextpid++;
        M->slot[i].vpid = p.vpid; return i;
    }
    return -1;
}
static bool enabled(int i, uint64_t &dl) {
    P &p = g_p[i]; Slot &S = M->slot[i];
    switch (S.op) {
    case P_SLEEP: { if (!p.deadline) p.deadline = g_now + S.a[0]; if (p.intr || p.deadline <= g_now) return true; dl = p.deadline; return false; }
    case P_FLOCKWAIT: if (p.intr) return true; { char b[64]; snprintf(b, sizeof b, "/proc/%d/fd/%d", p.rpid, (int)S.a[0]); return !plFileLocked(b); }
    case P_PIPE: if (p.intr && !S.a[1]) return true; { char b[64]; snprintf(b, sizeof b, "/proc/%d/fd/%d", p.rpid, (int)S.a[0]); int fd = syscall(SYS_openat, AT_FDCWD, b, (S.a[1] ? O_WRONLY : O_RDONLY) | O_NONBLOCK, 0); if (fd < 0) return true; struct pollfd f = {fd, (short)(S.a[1] ? POLLOUT : POLLIN), 0}; struct timespec z = {0, 0}; long r = syscall(SYS_ppoll, &f, 1, &z, 0, 0); syscall(SYS_close, fd); return r > 0; }
    case P_WAIT: if (p.intr || (S.a[1] & WNOHANG)) return true; { bool any = false; for (int k = 0; k < NS; ++k) if ((g_p[k].state == ST_LIVE || g_p[k].state == ST_ZOMBIE) && g_p[k].ppid == p.vpid && (S.a[0] == -1 || S.a[0] == g_p[k].vpid)) { any = true; if (g_p[k].state == ST_ZOMBIE) return true; } return !any; }
    }
    return true;
}
static bool faultsOn() { return faultsEnabled() && !g_nofault; }
bool plFaultsOn() { return faultsOn(); }
static void perform(int i) {
    P &p = g_p[i]; Slot &S = M->slot[i]; int op = S.op; 
    bool wasIntr = p.intr; p.intr = false;
    ev("op", p.vpid, op, op == P_SLEEP || op == P_KILL || op == P_WAIT ? S.a[0] : 0);
    switch (op) {
    case P_START: reply(i, 0); break;
    case P_TIME: case P_POINT: reply(i, op == P_TIME ? (int64_t)g_now : 0); break;
    case P_SLEEP: {
        uint64_t d = p.deadline; p.deadline = 0;
        if (wasIntr && d > g_now) { S.a[0] = d - g_now; fault("sleep-interrupted"); reply(i, -1, EINTR); } else reply(i, 0);
        break; }
    case P_EXIT: { reply(i, 0); markDead(i, (int)(S.a[0] & 255) << 8); break; }
    case P_DIE: { int s = S.a[0]; reply(i, 0); markDead(i, s); break; }
    case P_FORK: {
        if (faultsOn() && chance(S_FAULT, 1, g_cfg.forkFailP)) { fault("fork-EAGAIN"); ev("fork-fails", p.vpid); if (g_h->note) g_h->note(p.vpid, "!fork-fails"); reply(i, -1, EAGAIN); break; }
        int k = newSlot(p.vpid); if (k < 0) { reply(i, -1, EAGAIN); break; }
        ev("fork", p.vpid, g_p[k].vpid); reply(i, k); break; }
    case P_WAIT: {
        std::vector<int> z; bool any = false;
        for (int k = 0; k < NS; ++k) if ((g_p[k].state == ST_LIVE || g_p[k].state == ST_ZOMBIE) && g_p[k].ppid == p.vpid && (S.a[0] == -1 || S.a[0] == g_p[k].vpid)) { any = true; if (g_p[k].state == ST_ZOMBIE) z.push_back(k); }
        if (!z.empty()) { int k = z[z.size() > 1 ? choose(S_DATA, 0, z.size()) : 0]; if (z.size() > 1) probe("several-zombies"); S.a[0] = g_p[k].rpid; int v = g_p[k].vpid; ev("reap", p.vpid, v, g_p[k].status); retire(g_p[k]); reply(i, v); }
        else if (!any) reply(i, -1, ECHILD);
        else if (S.a[1] & WNOHANG) reply(i, 0);
        else { fault("wait-interrupted"); reply(i, -1, EINTR); }
        break; }
    case P_KILL: {
        int t = S.a[0], sig = S.a[1];
        int k = t > 0 ? bySlotVpid(t) : -1;
        ev("kill", p.vpid, t, sig);
        if (sig && g_h->note) { char b[64]; snprintf(b, sizeof b, "!kill %d %d", t, sig); g_h->note(p.vpid, b); }
        if (t <= 0) { // process groups are not modelled: only the group of one process
            k = bySlotVpid(-t); }
        if (k < 0) { reply(i, -1, ESRCH); break; }
        if (k == i && !(S.handled >> sig & 1) && !(S.blocked >> sig & 1) && !(S.ignored >> sig & 1) && sig && fatalSig(sig)) { sendSig(i, sig); break; } // it never comes back
        sendSig(k, sig); if (k == i) p.intr = false; reply(i, 0); break; }
    case P_FLOCK:
        if (faultsOn() && !(S.a[1] & LOCK_UN) && chance(S_FAULT, 2, g_cfg.flockErrP)) { fault("flock-error"); ev("flock-error", p.vpid); if (g_h->note) g_h->note(p.vpid, "!flock-error"); reply(i, -1, chance(S_FAULT, 3, 0.5) ? EIO : ENOLCK); break; }
        reply(i, 0); break;
    case P_FLOCKWAIT: if (wasIntr) { fault("flock-interrupted"); ev("flock-eintr", p.vpid); reply(i, -1, EINTR); } else { probe("lock-waiter-retries"); reply(i, 0); } break;
    case P_EXEC: note("  exec %d: %s", p.vpid, S.s); if (S.a[0] && faultsOn() && chance(S_FAULT, 15, g_cfg.execErrP)) { fault("exec-error"); ev("exec-error", p.vpid); if (g_h->note) g_h->note(p.vpid, "!exec-error"); reply(i, -1, ENOMEM); break; } if (S.a[0]) reply(i, 0); else { ev("exec-fails", p.vpid); reply(i, -1, ENOENT); } break;
    case P_FILE: {
        note("  file op %lld %s", (long long)S.a[0], S.s);
        if (faultsOn() && S.a[0] == 0 && chance(S_FAULT, 14, g_cfg.readErrP)) { fault("read-open-error"); ev("file-error", p.vpid, 0); if (g_h->note) g_h->note(p.vpid, std::string("!file-error read ") + S.s); reply(i, -1, EIO); break; }
        if (faultsOn() && S.a[0] != 0 && chance(S_FAULT, 4, g_cfg.fileErrP)) { fault(S.a[0] == 1 ? "rename-error" : S.a[0] == 2 ? "unlink-error" : "open-error"); ev("file-error", p.vpid, S.a[0]); if (g_h->note) g_h->note(p.vpid, std::string("!file-error ") + (S.a[0] == 1 ? "rename " : S.a[0] == 2 ? "unlink " : "open ") + S.s); reply(i, -1, S.a[0] == 3 ? ENOSPC : EIO); break; }
        reply(i, 0); break; }
    case P_WRITE: { std::string t(S.s, S.n); note("  write %lld to %s", (long long)S.a[0], t.c_str());
        if (faultsOn() && chance(S_FAULT, 8, g_cfg.writeErrP)) { int64_t n = S.a[0] > 1 && choose(S_FAULT, 9, 2) ? S.a[0] / 2 : -1; fault(n < 0 ? "disk-full" : "short-write"); ev("write-error", p.vpid, n); if (g_h->note) g_h->note(p.vpid, "!write-error " + t); reply(i, n, ENOSPC); break; }
        reply(i, S.a[0]); break; }
    case P_PIPE: if (wasIntr) { fault("read-interrupted"); reply(i, -1, EINTR); } else reply(i, 0); break;
    case P_TOOL: if (S.a[0] && !(S.a[1] && g_cfg.toolFailLast) && faultsOn() && chance(S_FAULT, 6, g_cfg.toolFailP)) { fault("tool-fails"); ev("tool-fails", p.vpid); if (g_h->note) g_h->note(p.vpid, std::string("!tool-fails ") + S.s); reply(i, choose(S_FAULT, 7, 4) * 33); } else if (S.a[0] && faultsOn() && (!strcmp(S.s, "gzip") || !strcmp(S.s, "bzip2")) && chance(S_FAULT, 12, g_cfg.toolWrongP)) { fault("tool-writes-wrong-data"); ev("tool-wrong", p.vpid); if (g_h->note) g_h->note(p.vpid, std::string("!tool-wrong ") + S.s); reply(i, 200 + choose(S_FAULT, 13, 2)); } else reply(i, -1, 0); break;
    case P_LIVE: { int n = 0; for (int k = 0; k < NS; ++k) n += g_p[k].state == ST_LIVE; reply(i, n); break; }
    case P_CHOOSE: reply(i, choose(S_WORK, (unsigned)S.a[0] % 90, S.a[1] > 0 ? S.a[1] : 1)); break;
    case P_NOW: reply(i, g_now); break;
    case P_PPID: reply(i, p.ppid); break;
    case P_FAULTS: reply(i, faultsEnabled() + 2 * g_cfg.pidReuse); break;
    case P_KILLABLE: p.killable = S.a[0]; reply(i, 0); break;
    case P_ROLE: p.role = S.a[0]; reply(i, 0); break;
    case P_FAULTBAR: g_nofault = S.a[0]; reply(i, 0); break;
    case P_PROBE: probe(std::string(S.s, S.n).c_str()); reply(i, 0); break;
    case P_VIOLATE: { std::string t(S.s, S.n); size_t c = t.find(": "); violate(c == std::string::npos ? "perl-oracle" : t.substr(0, c).c_str(), "%s", t.c_str()); }
    case P_NOTE: { std::string t(S.s, S.n); evs("note", t.data(), t.size()); note("  [%d] %s", p.vpid, t.c_str()); if (g_h->note) g_h->note(p.vpid, t); reply(i, 0); break; }
    case P_CALL: { std::string t(S.s, S.n), r; note("  [%d] > %s", p.vpid, t.c_str()); if (g_h->call) r = g_h->call(p.vpid, t); if (r.size() > SLEN - 1) simError("long answer"); note("  [%d] < %s", p.vpid, r.c_str());
        evs("call", t.data(), t.size()); evs("answer", r.data(), r.size()); memcpy(S.s, r.data(), r.size()); S.s[r.size()] = 0; S.n = r.size(); reply(i, 0); break; }
    default: simError("bad op %d", op);
    }
}
static bool immediate(int op) { return op == P_CHOOSE || op == P_NOTE || op == P_NOW || op == P_FAULTS || op == P_KILLABLE || op == P_VIOLATE || op == P_PROBE || op == P_ROLE || op == P_FAULTBAR || op == P_LIVE || op == P_PPID; }
static void initPerl();
static void cleanDir() { nftw(g_dir, rmOne, 16, FTW_DEPTH | FTW_PHYS); }
static void onEnd() { plKillAll(); if (chdir("/")) {} cleanDir(); }
void plRun(const char *fn, const PlCfg &cfg, const PlHooks &hooks) {
    initPerl(); g_cfg = cfg; g_h = &hooks; 
    prctl(PR_SET_CHILD_SUBREAPER, 1); 
    M = (Mem *)mmap(NULL, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); M->ctl = syscall(SYS_getpid);
    on_process_end = onEnd;
    snprintf(g_dir, sizeof g_dir, "%s/dsim-pl-%07d", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp", (int)M->ctl);
    cleanDir(); if (mkdir(g_dir, 0755) || chdir(g_dir) || mkdir("tmp", 0755)) simError("scratch directory %s: %s", g_dir, strerror(errno));
    g_now = 1700000000ull * 1000000000ull + range(S_CFG, 80, 0, 999) * 1000000ull; uint64_t t0 = g_now; g_nextpid = 1000; g_last = -1;
    int r = newSlot(1); writesFail = cfg.writeErrP > 0;
    static auto rfork = REAL(fork);
    pid_t p = rfork(); if (p < 0) simError("fork");
    if (p == 0) { // the root process
        g_me = r; M->slot[r].rpid = syscall(SYS_getpid); struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_VIRTUAL, &z, NULL); setitimer(ITIMER_REAL, &z, NULL); signal(SIGPIPE, SIG_IGN); // a broken pipe is an error code, not a death the simulator does not know of
       
        req(P_START); int st = dsim_perl_main(fn); simExit(st);
    }
    g_up = true;
    unsigned cur = 0; uint64_t lastSig = 0;
    for (;;) {
        settle();
        bool live = false; for (int i = 0; i < NS; ++i) live |= g_p[i].state == ST_LIVE;
        if (!live) break;
        { bool im = false; for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE && immediate(M->slot[i].op)) { perform(i); im = true; break; } if (im) continue; }
        if (++g_steps > cfg.maxSteps) violate(cfg.maxStepsClass, "still running after %u requests and %.1f simulated seconds", g_steps, (g_now - t0) * 1e-9);
        g_now += cfg.stepNs;
        // faults that hit a process from outside
        if (faultsOn() && cfg.killP > 0 && chance(S_FAULT, 0, cfg.killP)) {
            std::vector<int> v; for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE && g_p[i].killable) v.push_back(i);
            if (!v.empty()) { int k = v[choose(S_FAULT, 10, v.size())]; fault("kill-9"); ev("inject-kill", g_p[k].vpid, M->slot[k].op); g_p[k].injected = true; if (hooks.note) hooks.note(g_p[k].vpid, "!killed"); sendSig(k, SIGKILL); continue; }
        }
        if (faultsOn() && cfg.sigP > 0 && chance(S_FAULT, 5, cfg.sigP)) {
            std::vector<int> v; for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE && (M->slot[i].handled >> SIGUSR1 & 1) && !(M->slot[i].blocked >> SIGUSR1 & 1)) v.push_back(i);
            if (!v.empty()) { int k = v[choose(S_FAULT, 11, v.size())]; fault("signal-with-handler"); ev("inject-sig", g_p[k].vpid, M->slot[k].op); sendSig(k, SIGUSR1); }
        }
        std::vector<int> en; uint64_t mind = 0;
        for (int j = 0; j < NS; ++j) { int i = (g_last + j) % NS; if (g_last < 0) i = j; if (g_p[i].state != ST_LIVE) continue; uint64_t dl = 0; if (enabled(i, dl)) en.push_back(i); else if (dl && (!mind || dl < mind)) mind = dl; }
        if (en.empty()) {
            if (!mind) { std::string w; for (int i = 0; i < NS; ++i) if (g_p[i].state == ST_LIVE) { char b[64]; snprintf(b, sizeof b, " %d:op%d", g_p[i].vpid, M->slot[i].op); w += b; } violate("stuck", "no process can ever run again:%s", w.c_str()); }
            g_now = mind; continue;
        }
        if (cfg.stallP > 0 && chance(S_TIME, 0, cfg.stallP)) { uint64_t d = range(S_TIME, 1, 1, 3000) * 1000000ull; g_now += d; fault("stall"); ev("stall", d); continue; }
        int pick = en[0];
        if (en.size() > 1 && (en[0] != g_last || chance(S_SCHED, 0, cfg.switchP))) pick = en[choose(S_SCHED, 1, en.size())];
        if (pick != g_last) { ++cur; schedHash(g_p[pick].vpid * 131 + M->slot[pick].op); }
        g_last = pick; perform(pick);
    }
    dsim::steps(g_steps); simTime(g_now - t0); on_process_end = NULL; onEnd();
}
const char *pl_script;
static bool g_perl;
static void initPerl() {
    if (g_perl) return; g_perl = true;
    setenv("PERL_HASH_SEED", "0", 1); setenv("PERL_PERTURB_KEYS", "0", 1); setenv("PERL_RAND_SEED", "1", 1);
    if (!getenv("DSIM_REPO")) setenv("DSIM_REPO", "/repo", 1);
    for (const char *v : {"PERL5LIB", "PERL5OPT", "BP_MODULES", "SGE_ROOT", "LSF_ENVDIR"}) unsetenv(v);
    if (dsim_perl_init(pl_script)) { fprintf(stderr, "perl does not compile %s\n", pl_script); _exit(2); }
}
struct Boot { Boot() { int p = personality(0xffffffff); if (getenv("DSIM_REEXEC") || (p >= 0 && (p & ADDR_NO_RANDOMIZE))) initPerl(); } };
void plBoot() { static Boot b; }
}
