// E01: failing checks run their hooks and never continue
#include "log.hpp"
#include <dlfcn.h>
#include <unistd.h>
enum HK { H_RETURN, H_THROW, H_THROW_SOME, H_FAIL, H_INT, H_ADD, H_CLEAR };
static const char *hkName[] = {"return", "throw", "throw-some", "fail", "throw-int", "add", "clear"};
struct Hook { int id, kind; bool pre; };
struct Call { int hook; bool pre; bool msgOut; };
struct Fail { bool active; string expr, msg, unique; unsigned line; vector<Call> calls; vector<int> pre, post; bool recursed; int thrower; bool listChanged; };
static Fail F[48]; static vector<Hook> hooks; static vector<int> curPre, curPost; static Console *con; static bool ended; static int throws, aborts; static bool cerrBroken;
static void hookFn(int id, const char *e, const char *f, unsigned l, const string &m);
static void addHook(int kind, bool pre) { Hook h = {(int)hooks.size(), kind, pre}; int id = h.id; hooks.push_back(h); (pre ? curPre : curPost).push_back(id); assert_hook_fn fn = [id](const char *e, const char *f, unsigned l, const string &m) { hookFn(id, e, f, l, m); }; if (pre) AssertBoostFnBefore(fn); else AssertBoostFnAfter(fn); }
static bool onErr(const string &s) { return con->err.data.find(s) != string::npos; }
static void hookFn(int id, const char *e, const char *f, unsigned l, const string &m) {
    int t = tid(); Fail &x = F[t]; int kind;
    { NoPreempt np; kind = hooks[id].kind; SIM_CHECK(x.active, "hook-without-failure", "hook called although this thread failed no check");
      SIM_CHECK(!x.recursed, "hooks-in-recursion", "a hook was called again for a failure inside a hook");
      if (x.listChanged) { bool in = false; for (int h : hooks[id].pre ? curPre : curPost) in |= h == id; SIM_CHECK(in, "removed-hook-called", "hook %d was called after the hooks were cleared", id); }
      SIM_CHECK(x.expr == e && string(f).find("e01.cpp") != string::npos && l == x.line && m == x.msg, "hook-arguments", "hook %d got (%s,%s,%u,%s), the failure is (%s,%u,%s)", id, e, f, l, m.c_str(), x.expr.c_str(), x.line, x.msg.c_str());
      Call c = {id, hooks[id].pre, onErr(x.unique)}; x.calls.push_back(c); ev("hook", t, id, kind); note("   T%d hook %d (%s, %s)", t, id, hooks[id].pre ? "before" : "after", hkName[kind]);
      bool uq = x.unique[0] == 'u'; SIM_CHECK(cerrBroken || (hooks[id].pre && !uq) || c.msgOut == !hooks[id].pre, hooks[id].pre ? "message-before-hooks" : "after-hook-before-message", "hook %d", id); }
    point(1);
    switch (kind) {
    case H_RETURN: break;
    case H_THROW: { x.thrower = id; AssertBoostThrowExceptionFn(e, f, l, m); }
    case H_THROW_SOME: if (l % 2) { x.thrower = id; throw AssertBoostException(e, f, l, m); } break;
    case H_INT: x.thrower = id; throw (int)(1000 + id);
    case H_FAIL: x.recursed = true; x.unique = "nested-" + std::to_string(t); { INVARIANT(t < 0, x.unique); } violate("continued-past-check", "execution went on after a failed check inside a hook");
    case H_ADD: x.listChanged = true; if (hooks.size() < 12) { NoPreempt np; addHook(H_RETURN, hooks[id].pre); } break;
    case H_CLEAR: x.listChanged = true; { NoPreempt np; curPre.clear(); curPost.clear(); AssertBoostClearFns(); } break;
    }
}
// were the calls those the hook lists at the time of the failure demand?  n hooks must be complete unless one threw
static void checkCalls(Fail &x, bool threw) {
    vector<int> want = x.pre; if (!threw || (!x.calls.empty() && !hooks[x.calls.back().hook].pre)) want.insert(want.end(), x.post.begin(), x.post.end());
    string got; for (Call &c : x.calls) got += " " + std::to_string(c.hook); string w; for (int h : want) w += " " + std::to_string(h);
    if (!x.listChanged) {
        size_t n = threw ? x.calls.size() : want.size();
        SIM_CHECK(x.calls.size() == n && n <= want.size(), "hooks-missing", "hooks called:%s, registered:%s", got.c_str(), w.c_str());
        for (size_t i = 0; i < n; ++i) SIM_CHECK(x.calls[i].hook == want[i], "hook-order", "hooks called:%s, registered:%s", got.c_str(), w.c_str());
    } else for (size_t i = 0; i < x.calls.size(); ++i) for (size_t j = 0; j < i; ++j) SIM_CHECK(x.calls[i].hook != x.calls[j].hook, "hook-twice", "hooks called:%s", got.c_str());
    if (threw) SIM_CHECK(!x.calls.empty() && x.calls.back().hook == x.thrower, "stray-exception", "exception, hooks called:%s, thrower %d", got.c_str(), x.thrower);
    else SIM_CHECK(x.thrower < 0, "exception-lost", "hook %d threw but the process aborts", x.thrower);
}
static void died(const char *how) {
    if (!inRun() || !simActive()) return;
    NoPreempt np; int t = tid(); Fail &x = F[t];
    SIM_CHECK(x.active, "abort-without-failure", "%s although thread %d failed no check", how, t);
    SIM_CHECK(cerrBroken || (onErr(x.unique) && onErr("Assertion failure") ), "no-message", "process ends without the failure's message; stderr: %s", con->err.data.c_str());
    if (!x.recursed) checkCalls(x, false); else SIM_CHECK(cerrBroken || onErr("Recursing on assertions"), "recursion-unreported", "stderr: %s", con->err.data.c_str());
    ++aborts; probe("aborted"); ev("abort", t); stateHash(x.calls.size() * 7 + throws); delete con; thrEnd(); finish();
}
extern "C" void abort() { died("abort"); static void (*r)() = (void (*)())dlsym(RTLD_NEXT, "abort"); r(); for (;;) { } }
static int evaluated;
static bool cond(bool v) { NoPreempt np; ++evaluated; return v; }
static string details(const string &m) { NoPreempt np; ++evaluated; return m; }
static void failOnce(int t, int i) {
    Fail &x = F[t]; string uniq = "u" + std::to_string(t) + "." + std::to_string(i); if (choose(S_WORK, t, 12) == 11) uniq += string(choose(S_WORK, t, 9000), 'p') + "."; int kind = choose(S_WORK, t, 8); bool pass = choose(S_WORK, t, 3) == 1; int ex = 0; string exmsg; unsigned exline = 0;
    auto arm = [&](const char *e, const string &m, unsigned line, const string &u) { NoPreempt np; x.active = !pass; x.expr = e; x.msg = m; x.unique = u; x.line = line; x.calls.clear(); x.pre = curPre; x.post = curPost; x.recursed = false; x.thrower = -1; x.listChanged = false; ev(pass ? "pass" : "fail", t, kind); };
    int ev0, want = -1; { NoPreempt np; evaluated = 0; ev0 = 0; (void)ev0; }
    try {
        switch (kind) {
        case 0: arm("cond(pass)", uniq + "x", __LINE__, uniq); INVARIANT(cond(pass), uniq + "x"); break;
        case 1: arm("cond(pass)", "", __LINE__, ""); if (pass) { SINVARIANT(cond(pass)); } else { arm("cond(pass)", global_assertboost_no_details, __LINE__, "**** Failed expression: "); SINVARIANT(cond(pass)); } break;
        case 2: arm("cond(pass)", uniq + "=5", __LINE__, uniq); INVARIANT(cond(pass), boost::format("%s=%d") % uniq % 5); break;
        case 3: pass = false; arm("Fatal error", uniq, __LINE__, uniq); FATAL_ERROR(uniq); break;
        case 4: pass = false; arm("Fatal error", uniq + "!", __LINE__, uniq); FATAL_ERROR(boost::format("%s!") % uniq); break;
        case 5: arm("cond(pass)", "**** Programmer error, format given too few arguments", __LINE__, "too few arguments"); INVARIANT(cond(pass), boost::format("%s %s") % uniq); break;
        case 6: arm("cond(pass)", "Exception evaluating boost::format(\"%s\") % uniq % 3", __LINE__, "Exception evaluating"); INVARIANT(cond(pass), boost::format("%s") % uniq % 3); break;
        case 7: arm("cond(pass)", uniq, __LINE__, uniq); CHECKED(cond(pass), details(uniq)); want = 1; break;
        }
        NoPreempt np; SIM_CHECK(pass, "continued-past-check", "execution went on after a failed check (form %d)", kind);
    } catch (AssertBoostException &e) { ex = 1; exmsg = e.msg; exline = e.line; SIM_CHECK(e.expression == x.expr, "exception-details", "expression %s", e.expression.c_str()); }
    catch (int v) { ex = 2; SIM_CHECK(v == 1000 + x.thrower, "exception-details", "%d", v); }
    NoPreempt np; (void)want;
    if (pass) { SIM_CHECK(ex == 0, "passing-check-threw", "form %d", kind); return; }
    SIM_CHECK(ex != 0, "continued-past-check", "form %d", kind); checkCalls(x, true); if (ex == 1) SIM_CHECK(exmsg == x.msg && exline == x.line, "exception-details", "exception (%u,%s), failure (%u,%s)", exline, exmsg.c_str(), x.line, x.msg.c_str());
    x.active = false; ++throws; ev("caught", t, ex);
}
struct BadBuf : std::streambuf { int overflow(int) { fault("stderr-write-fails"); return EOF; } std::streamsize xsputn(const char *, std::streamsize) { fault("stderr-write-fails"); return 0; } int sync() { return -1; } };
static void common(bool changes) {
    AssertBoostClearFns(); thrBegin(); con = new Console; BadBuf bad; if (faultsEnabled() && choose(S_CFG, 5, 4) == 1) { cerrBroken = true; std::cerr.rdbuf(&bad); std::cout.rdbuf(&bad); }
    int npre = choose(S_CFG, 0, 4), npost = choose(S_CFG, 1, 3), n = changes ? 1 : range(S_CFG, 2, 1, 4);
    for (int i = 0; i < npre + npost; ++i) { bool pre = i < npre; static const int plain[] = {H_RETURN, H_THROW, H_THROW_SOME, H_RETURN, H_FAIL, H_INT}; int k = plain[choose(S_CFG, 10 + i, 6)]; if (k == H_FAIL && !faultsEnabled()) k = H_RETURN; if (changes && choose(S_CFG, 20 + i, 2)) k = choose(S_CFG, 30 + i, 2) ? H_ADD : H_CLEAR; addHook(k, pre); }
    if (choose(S_CFG, 3, 6) == 1) setenv("LINTEL_ASSERT_BOOST_RECURSE_SLEEP", "1", 1);
    int k = range(S_CFG, 4, 1, 4);
    for (int t = 0; t < n; ++t) spawn([&] { for (int i = 0; i < k; ++i) if (choose(S_WORK, tid(), 8) == 7) { // a failure noticed while an exception is on its way
        struct Late { int i; ~Late() { failOnce(tid(), i); } }; try { Late l = {i}; throw 'x'; } catch (char) { } } else failOnce(tid(), i); });
    joinAll(); if (n > 1 || changes) nontrivial(); stateHash(throws); std::cerr.rdbuf(con->e); std::cout.rdbuf(con->o); delete con; thrEnd();
}
SIM_SCENARIO("E01", failures, 3) { common(false); }
SIM_SCENARIO("E01", hook_lists, 1) { common(true); }
