// S02: questions about the machine (host name, operating system, file times) against a simulated one
#include "elem.hpp"
#include "io.hpp"
#include <unistd.h>
#include <errno.h>
#include <stdlib.h>
#include <netdb.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <Lintel/StringUtil.hpp>
#include <Lintel/TestUtil.hpp>
#include <Lintel/FileUtil.hpp>
namespace {
struct Box { // the simulated machine
    bool on; string host; int host_errno; bool unterminated;
    int gai; vector<string> canon; int lookups, lists, freed; string looked;
    int popen_errno, status, fail_at; unsigned popens, pcloses, chunk; string out, command; bool readFailed;
    int stat_errno; struct stat st; string statted;
} box;
struct Pipe { FILE *f; string data; size_t pos; } *pipe_;
bool failedOnce;
ssize_t pipeRead(void *k, char *b, size_t n) { Pipe *p = (Pipe *)k; Unlib u; size_t lim = p->data.size(); if (box.fail_at >= 0) { if (p->pos >= (size_t)box.fail_at) { if (!box.readFailed) fault("pipe-read-fails"); box.readFailed = true; errno = EIO; return -1; } lim = std::min(lim, (size_t)box.fail_at); }
    size_t c = std::min(n, lim - p->pos); if (box.chunk && c > box.chunk) c = 1 + choose(S_IO, 1, box.chunk); memcpy(b, p->data.data() + p->pos, c); p->pos += c; return c; }
}
extern "C" {
int gethostname(char *b, size_t n) __THROW { if (!box.on) { static int (*f)(char *, size_t) = (int (*)(char *, size_t))dlsym(RTLD_NEXT, "gethostname"); return f(b, n); } Unlib u; if (box.host_errno) { fault("gethostname-fails"); errno = box.host_errno; return -1; } size_t k = box.host.size(); if (k >= n) { memcpy(b, box.host.data(), n); fault("host-name-cut"); return 0; } memcpy(b, box.host.c_str(), k + 1); return 0; }
int getaddrinfo(const char *name, const char *, const struct addrinfo *, struct addrinfo **res) { Unlib u; ++box.lookups; box.looked = name; if (box.gai) { fault("lookup-fails"); if (box.gai == EAI_SYSTEM) errno = ETIMEDOUT; return box.gai; } struct addrinfo *head = NULL, **at = &head; for (const string &c : box.canon) { struct addrinfo *a = (struct addrinfo *)calloc(1, sizeof *a); a->ai_canonname = c == "-" ? NULL : strdup(c.c_str()); *at = a; at = &a->ai_next; } if (head) ++box.lists; *res = head; return 0; }
void freeaddrinfo(struct addrinfo *a) __THROW { Unlib u; if (a) ++box.freed; while (a) { struct addrinfo *n = a->ai_next; free(a->ai_canonname); free(a); a = n; } }
FILE *popen(const char *c, const char *) { Unlib u; box.command = c; if (box.popen_errno) { fault("popen-fails"); errno = box.popen_errno; return NULL; } ++box.popens; if (pipe_) violate("pipe-leaked", "a second pipe is opened while one is open"); pipe_ = new Pipe; pipe_->data = box.out; pipe_->pos = 0; cookie_io_functions_t io = {pipeRead, NULL, NULL, NULL}; pipe_->f = fopencookie(pipe_, "r", io); return pipe_->f; }
int pclose(FILE *f) { Unlib u; if (!pipe_ || f != pipe_->f) violate("pipe-closed-twice", "pclose of something that is not open"); fclose(f); delete pipe_; pipe_ = NULL; ++box.pcloses; return box.status; }
int stat(const char *p, struct stat *s) __THROW { if (!box.on) { static int (*f)(const char *, struct stat *) = (int (*)(const char *, struct stat *))dlsym(RTLD_NEXT, "stat"); return f(p, s); } Unlib u; box.statted = p; if (box.stat_errno) { fault("stat-fails"); errno = box.stat_errno; return -1; } *s = box.st; return 0; }
}
namespace {
string word(unsigned sub, unsigned longest) { string s; unsigned n = choose(S_WORK, sub, 4) == 3 ? range(S_WORK, sub, 1, longest) : range(S_WORK, sub, 1, 12); for (unsigned i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789.x"[choose(S_WORK, sub, 37)]; return s; }
__attribute__((noinline)) void dirtyStack() { volatile char b[8192]; for (size_t i = 0; i < sizeof b; ++i) b[i] = 'y'; }
SIM_SCENARIO("S02", questions, 1) {
    throwingAsserts(); box = Box(); box.on = true; box.fail_at = -1; pipe_ = NULL; bool nt = false; int ops = range(S_CFG, 0, 1, tierThorough() ? 40 : 15); size_t blocks = libBlocks();
    string envOs, envArch, envTool; unsetenv("BUILD_OS"); unsetenv("UNAME_M"); unsetenv("DEPTOOL");
    for (int i = 0; i < ops; ++i) {
        box.host_errno = box.gai = box.popen_errno = box.status = box.stat_errno = 0; box.fail_at = -1; box.readFailed = false; box.chunk = choose(S_IO, 0, 2) ? range(S_IO, 2, 1, 60) : 0; unsigned op = choose(S_WORK, 0, 3); string why; bool armed = false; Outcome r; ev("op", op); bool flt = faultsEnabled();
        if (op == 0) { box.host = word(1, flt ? 2500 : 900); box.canon.clear(); for (int k = choose(S_WORK, 2, 4); k > 0; --k) box.canon.push_back(choose(S_WORK, 3, 3) == 2 ? "-" : word(4, 200));
            if (flt) { if (chance(S_FAULT, 0, 0.15)) { static const int e[] = {ENAMETOOLONG, EPERM, EFAULT}; box.host_errno = e[choose(S_FAULT, 1, 3)]; } if (chance(S_FAULT, 2, 0.3)) { static const int e[] = {EAI_AGAIN, EAI_NONAME, EAI_MEMORY, EAI_SYSTEM, EAI_FAIL}; box.gai = e[choose(S_FAULT, 3, 5)]; } armed = maybeArm(4, 0.3, 6); }
            dirtyStack(); string got; int l0 = box.lookups; r = attempt([&] { string s = getHostFQDN(); Unlib u; got = s; }, &why); string host = box.host.substr(0, 1023), want = host; if (!box.gai) for (auto &c : box.canon) if (c != "-") { want = c; break; }
            SIM_CHECK(box.lists == box.freed, "lookup-leaked", "%d lookups gave a result, %d results were freed", box.lists, box.freed);
            if (r == DONE) { SIM_CHECK(!box.host_errno, "failure-ignored", "a host name although the system has none to give"); SIM_CHECK(box.lookups == l0 || box.looked == host, "looked-up-other", "looked up '%s', the host is '%s'", box.looked.c_str(), host.c_str()); SIM_CHECK(got == want, "host-wrong", "host name '%s', expected '%s'", got.c_str(), want.c_str()); }
            else SIM_CHECK(box.host_errno || r == FAILED, "valid-use-refused", "the host name was refused: %s", why.c_str()); }
        else if (op == 1) { // deptool
            bool eo = choose(S_WORK, 10, 3) == 2, ea = choose(S_WORK, 11, 3) == 2, et = choose(S_WORK, 12, 2); string os = word(13, 40), ver = word(14, 20), arch = word(15, 250); for (char &c : os) if (c == '.') c = '_'; bool noDash = choose(S_WORK, 16, 15) == 14; if (choose(S_WORK, 17, 5) == 4) ver += "-lts"; string both = noDash ? os : os + "-" + ver;
            eo ? setenv("BUILD_OS", both.c_str(), 1) : unsetenv("BUILD_OS"); ea ? setenv("UNAME_M", arch.c_str(), 1) : unsetenv("UNAME_M"); et ? setenv("DEPTOOL", "/some/where/deptool", 1) : unsetenv("DEPTOOL");
            string o1 = "export BUILD_OS=\"" + both + "\";\n", o2 = "export UNAME_M=\"" + arch + "\";\n", noise = "export PATH=\"" + word(18, 900) + "\";\n", noise2 = "export CMAKE=\"" + word(19, 300) + "\";\n"; bool swap = choose(S_WORK, 20, 2); string all[4] = {choose(S_WORK, 21, 2) ? noise : "", swap ? o2 : o1, choose(S_WORK, 22, 2) ? noise2 : "", swap ? o1 : o2};
            box.out = all[0] + all[1] + all[2] + all[3] + (choose(S_WORK, 23, 2) ? "export LAST=\"1\";\n" : ""); bool missing = false, cut = false;
            if (flt) { if (chance(S_FAULT, 10, 0.1)) { static const int e[] = {ENOMEM, EMFILE, EAGAIN}; box.popen_errno = e[choose(S_FAULT, 11, 3)]; } else if (chance(S_FAULT, 12, 0.15)) { missing = true; fault("deptool-missing"); box.out.clear(); box.status = choose(S_FAULT, 13, 2) ? 127 << 8 : 2 << 8; } else if (chance(S_FAULT, 14, 0.2)) { fault("deptool-dies"); box.out.resize(choose(S_FAULT, 15, box.out.size())); box.status = 9; cut = true; } else if (chance(S_FAULT, 16, 0.2)) box.fail_at = choose(S_FAULT, 17, box.out.size()); armed = maybeArm(18, 0.2, 30); }
            lintel::DeptoolInfo got; unsigned p0 = box.popens; r = attempt([&] { lintel::DeptoolInfo d = lintel::getDeptoolInfo(); Unlib u; got = d; }, &why); bool asked = box.popens > p0 || (box.popen_errno && !(eo && ea));
            SIM_CHECK(!pipe_ && box.popens == box.pcloses, "pipe-leaked", "%u pipes opened, %u closed", box.popens, box.pcloses); if (eo && ea) SIM_CHECK(!asked, "needless-deptool", "deptool was run although the environment has the answer");
            bool empty = got.os.empty() && got.version.empty() && got.arch.empty();
            if (r == DONE) { if (asked && (box.popen_errno || missing)) SIM_CHECK(empty, "made-up", "without deptool the answer is '%s' '%s' '%s'", got.os.c_str(), got.version.c_str(), got.arch.c_str());
                else if (empty && asked && cut && box.out.empty()) { } else SIM_CHECK(got.os == os && got.version == ver && got.arch == arch && !noDash, "system-wrong", "the answer is '%s' '%s' '%s', expected '%s' '%s' '%s'", got.os.c_str(), got.version.c_str(), got.arch.c_str(), os.c_str(), ver.c_str(), arch.c_str());
                SIM_CHECK(!(asked && box.readFailed), "failure-ignored", "deptool's answer could not be read to its end"); }
            else SIM_CHECK(r == FAILED || noDash || (asked && (cut || box.readFailed)), "valid-use-refused", "the system was refused (deptool %s): %s", !asked ? "not asked" : missing ? "missing" : box.popen_errno ? "cannot be run" : "answered", why.c_str());
            if (asked) probe("asked-deptool"); }
        else { memset(&box.st, 0, sizeof box.st); box.st.st_mtim.tv_sec = choose(S_WORK, 30, 3) ? (long)range(S_WORK, 31, 0, 9000000000ll) : -(long)range(S_WORK, 31, 0, 9000000000ll); box.st.st_mtim.tv_nsec = choose(S_WORK, 32, 3) ? range(S_WORK, 33, 0, 999999999) : 0; string f = "/x/" + word(34, 60); if (flt && chance(S_FAULT, 30, 0.3)) { static const int e[] = {ENOENT, EACCES, EIO, EOVERFLOW}; box.stat_errno = e[choose(S_FAULT, 31, 4)]; }
            int64_t got = 0, want = (int64_t)box.st.st_mtim.tv_sec * 1000000000 + box.st.st_mtim.tv_nsec; if (flt) armed = maybeArm(32, 0.2, 6); bool direct = choose(S_WORK, 35, 3) == 2; r = attempt([&] { got = direct ? lintel::modifyTimeNanoSec(box.st) : lintel::modifyTimeNanoSec(f); }, &why);
            if (r == DONE) { SIM_CHECK(direct || !box.stat_errno, "failure-ignored", "a time for a file that cannot be examined"); SIM_CHECK(got == want && (direct || box.statted == f), "time-wrong", "time %lld of '%s', expected %lld of '%s'", (long long)got, box.statted.c_str(), (long long)want, f.c_str()); }
            else SIM_CHECK(r == FAILED || (!direct && box.stat_errno), "valid-use-refused", "the time was refused: %s", why.c_str()); }
        if (r != DONE) nt = true; (void)armed; why.clear(); note("  %d: question %u -> %d", i, op, r); stateHash(op * 4 + r); SIM_CHECK(libBlocks() == blocks, "memory-leaked", "question %u leaves %zu blocks", op, libBlocks() - blocks);
    }
    box.on = false; if (nt || ops > 4) nontrivial();
}
}
