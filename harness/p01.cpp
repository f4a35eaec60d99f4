// P01: checked system calls against a simulated system
#include "elem.hpp"
#include "io.hpp"
#include <Lintel/Posix.hpp>
#include <errno.h>
#include <fcntl.h>
namespace {
struct Sys : SimOS {
    long result; int err; unsigned calls; string what; long a1, a2, a3; const void *ptr; // the simple calls
    string data; size_t pos; unsigned chunk; long failAt; int readErr; unsigned reads; size_t asked; bool block;
    Sys() : result(0), err(0), calls(0), a1(0), a2(0), a3(0), ptr(NULL), pos(0), chunk(0), failAt(-1), readErr(0), reads(0), asked(0), block(false) { }
    long ret(const char *w, long x = 0, long y = 0, long z = 0, const void *p = NULL) { ++calls; what = w; a1 = x; a2 = y; a3 = z; ptr = p; ev(w, x, y, z); if (err) { fault((string(w) + "-fails").c_str()); errno = err; return -1; } return result; }
    bool path(const char *p) override { return !strncmp(p, "/sim/", 5); }
    bool fd(int d) override { return d >= 1000; }
    bool procs() override { return true; }
    int open(const char *p, int fl) override { return ret("open", fl, 0, 0, p); }
    int close(int d) override { return ret("close", d); }
    ssize_t write(int d, const void *b, size_t n) override { return ret("write", d, n, 0, b); }
    off_t lseek(int d, off_t o, int w) override { return ret("lseek", d, o, w); }
    int dup2(int a, int b) override { return ret("dup2", a, b); }
    int pipe(int *p) override { long r = ret("pipe", 0, 0, 0, p); if (r >= 0) { p[0] = 1003; p[1] = 1004; } return r; }
    pid_t fork() override { return ret("fork"); }
    pid_t waitpid(pid_t p, int *s, int o) override { long r = ret("waitpid", p, o, 0, s); if (r > 0 && s) *s = 0x1234; return r; }
    int kill(pid_t p, int s) override { return ret("kill", p, s); }
    ssize_t read(int d, void *b, size_t n) override { (void)d; ++reads; asked += n; if (failAt >= 0 && (long)pos >= failAt) { fault("read-fails"); ev("read-fails", pos); errno = readErr; return -1; } size_t k = std::min(n, data.size() - pos); if (failAt >= 0) k = std::min(k, (size_t)failAt - pos); if (chunk && k > 1) { size_t q = 1 + choose(S_IO, 0, std::min((size_t)chunk, k)); if (q < k) { k = q; fault("short-read"); } } memcpy(b, data.data() + pos, k); pos += k; ev("read", n, k); return k; }
};
int anErr(unsigned sub) { static const int errs[] = {EIO, EINTR, EBADF, EAGAIN, ENOSPC, EPIPE, ECHILD, ENOMEM, EMFILE, EACCES, ESRCH, EPERM}; unsigned k = choose(S_FAULT, sub, 24); return k < 12 ? errs[k] : 1 + choose(S_FAULT, sub + 1, 133); }
SIM_SCENARIO("P01", calls, 1) {
    throwingAsserts(); Sys &s = *new Sys; sim_os = &s; int n = range(S_CFG, 0, 1, 30); bool nt = false;
    for (int i = 0; i < n; ++i) {
        unsigned w = choose(S_WORK, 0, 9); s.err = faultsEnabled() && chance(S_FAULT, 0, 0.5) ? anErr(1) : 0; s.calls = 0; s.result = 0; int fd = 1000 + choose(S_WORK, 1, 50), x = choose(S_WORK, 2, 100); off_t off = x - 10; if (choose(S_WORK, 5, 4) == 3) off = (off_t)choose(S_WORK, 6, 1ull << 48); long got = -5, want = 0; bool args = true; string msg; int fds[2] = {-1, -1}, st = 0; static const char *names[] = {"open", "close", "write", "lseek", "dup2", "pipe", "fork", "waitpid", "kill"}; char buf[100] = ""; const char *path = "/sim/x";
        if (w == 0 || w == 2 || w == 3 || w == 6 || w == 7) s.result = w == 2 ? choose(S_IO, 1, x + 1) : w == 7 ? choose(S_WORK, 3, 2) * (1 + x) : w == 3 && off > 100 ? off : (long)choose(S_IO, 1, 5000); want = s.result; if (w == 4) s.result = x + 1000; errno = choose(S_WORK, 4, 2) ? EEXIST : 0;
        Outcome o = attempt([&] { switch (w) { case 0: got = posix::open(path, x); break; case 1: posix::close(fd); got = 0; break; case 2: got = posix::write(fd, buf, x); break; case 3: got = posix::lseek(fd, off, x % 3); break; case 4: posix::dup2(fd, x + 1000); got = 0; break; case 5: posix::pipe(fds); got = 0; break; case 6: got = posix::fork(); break; case 7: got = posix::waitpid(x - 2, &st, x % 2); break; case 8: got = posix::kill(x - 2, x % 30); break; } }, &msg);
        switch (w) { case 0: args = s.ptr == path && s.a1 == x; break; case 1: args = s.a1 == fd; break; case 2: args = s.a1 == fd && s.a2 == x && s.ptr == buf; break; case 3: args = s.a1 == fd && s.a2 == off && s.a3 == x % 3; break; case 4: args = s.a1 == fd && s.a2 == x + 1000; break; case 5: args = s.ptr == fds; break; case 7: args = s.a1 == x - 2 && s.a2 == x % 2 && s.ptr == &st; break; case 8: args = s.a1 == x - 2 && s.a2 == x % 30; break; }
        note("   %s -> %d %ld (error %d)", names[w], o, got, s.err);
        SIM_CHECK(s.calls == 1 || (s.err == EINTR && s.calls > 1), "wrong-calls", "%s made %u system calls", names[w], s.calls); SIM_CHECK(s.what == names[w] && args, "wrong-arguments", "%s called %s(%ld, %ld, %ld)", names[w], s.what.c_str(), s.a1, s.a2, s.a3);
        if (s.err) { nt = true; SIM_CHECK(o == FATAL, "failure-ignored", "%s failed with error %d, which was not reported", names[w], s.err); SIM_CHECK(msg.find(strerror(s.err)) != string::npos, "failure-misnamed", "%s failed with '%s', reported as '%s'", names[w], strerror(s.err), msg.c_str()); }
        else { SIM_CHECK(o == DONE, "valid-use-refused", "%s succeeded but was reported as failed: %s", names[w], msg.c_str()); SIM_CHECK(got == want, "result-wrong", "%s returned %ld, the system %ld", names[w], got, want); if (w == 5) SIM_CHECK(fds[0] == 1003 && fds[1] == 1004, "result-wrong", "pipe"); if (w == 7 && want > 0) SIM_CHECK(st == 0x1234, "result-wrong", "status"); }
    }
    if (nt || n > 3) nontrivial();
}
SIM_SCENARIO("P01", reads, 2) {
    throwingAsserts(); Sys &s = *new Sys; sim_os = &s; size_t len = range(S_CFG, 0, 0, 300); for (size_t i = 0; i < len; ++i) s.data += (char)(i * 7 + 3); s.chunk = choose(S_CFG, 1, 2) ? 0 : range(S_CFG, 2, 1, 40); int n = range(S_CFG, 3, 1, 20); bool nt = false;
    for (int i = 0; i < n; ++i) {
        if (faultsEnabled() && chance(S_FAULT, 0, 0.3)) { s.failAt = s.pos + choose(S_FAULT, 1, 40); s.readErr = anErr(2); } else s.failAt = -1;
        size_t want = choose(S_WORK, 0, 60), from = s.pos; s.reads = 0; unsigned w = choose(S_WORK, 1, 5); string msg; long got = -5; char *buf = new char[want + 32]; memset(buf, 0x5a, want + 32); size_t dst = choose(S_WORK, 2, 16); int fd = 1000 + i;
        Outcome o = DONE; bool other = false; try { o = attempt([&] { if (w < 3) got = posix::readN(fd, buf + dst, want); else if (w == 3) got = posix::read(fd, buf + dst, want); else { posix::read0(fd, buf + dst, want); got = want; } }, &msg); } catch (std::exception &e) { other = true; msg = e.what(); }
        size_t took = s.pos - from; static const char *names[] = {"readN", "readN", "readN", "read", "read0"}; note("   %s(%zu) at %zu of %zu -> %d %ld, took %zu", names[w], want, from, len, o, got, took); bool hitFail = s.failAt >= 0 && (long)s.pos >= s.failAt && o != DONE;
        SIM_CHECK(!other, "failure-not-fatal", "a failed %s was reported by an exception that any handler may swallow: %s", names[w], msg.c_str());
        SIM_CHECK(took <= want, "read-beyond", "%s(%zu) took %zu bytes from the source", names[w], want, took);
        for (size_t q = 0; q < want + 32; ++q) { bool in = q >= dst && q < dst + took; char x = in ? s.data[from + q - dst] : 0x5a; SIM_CHECK(buf[q] == x || (q >= dst && q < dst + want && !in), "bytes-wrong", "%s(%zu): byte %zd of the buffer is %d, expected %d (source gave %zu)", names[w], want, (ssize_t)(q - dst), buf[q], x, took); }
        if (o == DONE && w < 3) { SIM_CHECK(got == (long)took, "result-wrong", "readN returned %ld after %zu bytes", got, took); SIM_CHECK(took == want || (s.pos == len && (s.failAt < 0 || s.failAt > (long)len || true)), "stopped-early", "readN stopped at %zu of %zu with input left", took, want); SIM_CHECK(took == want || s.failAt < 0 || (long)s.pos < s.failAt || s.pos == len, "failure-ignored", "readN"); if (s.reads > 1) nt = true; }
        else if (o == DONE && w == 3) SIM_CHECK(got == (long)took && s.reads == 1, "result-wrong", "read returned %ld after %zu bytes in %u calls", got, took, s.reads);
        else if (o == DONE) SIM_CHECK(took == want, "short-accepted", "read0(%zu) accepted %zu bytes", want, took);
        else { nt = true; bool sysFail = hitFail; if (w == 4) SIM_CHECK(took != want || sysFail, "valid-use-refused", "read0 got everything and failed: %s", msg.c_str()); else { SIM_CHECK(sysFail, "valid-use-refused", "%s failed though the system did not: %s", names[w], msg.c_str()); } if (sysFail && (w != 4 || took == 0)) SIM_CHECK(msg.find(strerror(s.readErr)) != string::npos, "failure-misnamed", "read failed with '%s', reported as '%s'", strerror(s.readErr), msg.c_str()); }
        delete [] buf; s.failAt = -1; if (s.pos == len && choose(S_WORK, 3, 2)) s.pos = 0;
    }
    if (nt) nontrivial();
}
}
