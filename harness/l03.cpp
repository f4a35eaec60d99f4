// L03: failing appenders and misuse leave logging usable
#include "log.hpp"
static vector<Msg *> msgs; static std::map<string, int> byText; static int inside, napp; static vector<vector<int> > cnt; static unsigned style; static vector<int> lastIdx[8];
struct AppError { int app, msg; };
static void appender(int a, const string &text, LintelLog::LogType) {
    bool boom = false; int mi;
    { NoPreempt np; SIM_CHECK(inside++ == 0, "overlap", "two messages at the same time"); auto it = byText.find(text);
      if (it == byText.end()) { SIM_CHECK(text == "final" || text.find("close to running out") == 0, "unknown-text", "\"%s\"", text.c_str()); --inside; return; }
      mi = it->second; Msg *m = msgs[mi]; ++cnt[mi][a]; SIM_CHECK(cnt[mi][a] == 1, "duplicated", "appender %d got message %d twice", a, mi);
      if (!lastIdx[a].empty()) { } 
      boom = faultsEnabled() && chance(S_FAULT, a, 0.35); if (boom) { m->threw = true; m->thrower = a; fault("appender-throws"); } ev("append", a, mi, boom); }
    if (choose(S_WORK, 30, 2)) point(1);
    { NoPreempt np; --inside; }
    if (boom) { switch (style) { case 0: throw AppError{a, mi}; case 1: throw std::runtime_error("appender"); case 2: throw TestExc(mi); default: FATAL_ERROR("appender fails"); } }
}
static void logOne(int t, int i, bool *threw) {
    Msg *m; int mi; { NoPreempt np; m = new Msg; m->thr = t; m->idx = i; m->type = (LintelLog::LogType)choose(S_WORK, t, LintelLog::MaxLogType); m->threw = false; m->thrower = -1; m->text = "m" + std::to_string(t) + "." + std::to_string(i); mi = msgs.size(); byText[m->text] = mi; msgs.push_back(m); cnt.push_back(vector<int>(napp, 0)); }
    bool ex = false; 
    try { LintelLog::log(m->text, m->type); } catch (AppError &e) { ex = true; NoPreempt np; SIM_CHECK(e.msg == mi && e.app == m->thrower, "wrong-exception", "got the exception of message %d", e.msg); } catch (std::runtime_error &) { ex = true; } catch (TestExc &e) { ex = true; SIM_CHECK(e.v == mi, "wrong-exception", "got the exception of message %d", e.v); } catch (AssertBoostException &) { ex = true; }
    NoPreempt np; SIM_CHECK(ex == m->threw, ex ? "stray-exception" : "swallowed-exception", "appender threw %d, caller got an exception %d", m->threw, ex); *threw = ex;
    for (int a = 0; a < napp; ++a) { int c = cnt[mi][a]; if (!m->threw || a <= m->thrower) SIM_CHECK(c == 1, "lost", "appender %d got message \"%s\" %d times (thrower %d)", a, m->text.c_str(), c, m->thrower); }
}
static bool prefilled;
static void misuse(int t) {
    switch (choose(S_WORK, t, 7)) {
    case 0: { SIM_CHECK(fatal([] { LintelLog::reserveCategories(0); }), "shrink-accepted", "reserveCategories(0) accepted"); break; }
    case 1: { SIM_CHECK(fatal([] { LintelLog::parseDebugString("a=1=2"); }), "bad-string-accepted", "a=1=2 accepted"); break; }
    case 2: { SIM_CHECK(fatal([] { LintelLog::parseDebugString("good=3,a=xyz"); }), "bad-string-accepted", "a=xyz accepted"); SIM_CHECK(LintelLog::wouldDebug("good", 3), "earlier-part-lost", "good=3 not applied"); break; }
    case 3: { SIM_CHECK(fatal([] { LintelLog::logTypeToString(LintelLog::MaxLogType); }), "bad-type-accepted", "unknown log type accepted"); break; }
    case 4: if (napp == 0) { SIM_CHECK(fatal([] { LintelLog::log("x", LintelLog::MaxLogType); }), "bad-type-accepted", "unknown log type accepted"); } break;
    case 5: if (prefilled) break; { // too many patterns
        bool f = false; for (int i = 0; i < 101 && !f; ++i) f = fatal([&] { LintelLog::setDebugLevel("zz" + std::to_string(i) + "*", 1); }); SIM_CHECK(f, "patterns-unlimited", "101 patterns accepted"); break; }
    case 6: if (!prefilled) break; { bool f = false; int i = 0; for (; i < 12 && !f; ++i) f = fatal([&] { string nm = "fill" + std::to_string(t) + "." + std::to_string(i); switch (choose(S_WORK, t, 3)) { case 0: { LintelLog::Category c(nm); break; } case 1: LintelLog::setDebugLevel(nm, 1); break; default: LintelLog::wouldDebug(nm, 1); } });
        if (f) { string nm = "fill" + std::to_string(t) + "." + std::to_string(i - 0); for (int r = 0; r < 2; ++r) SIM_CHECK(fatal([&] { LintelLog::Category c(nm); }), "refused-then-accepted", "category \"%s\" refused, then accepted", nm.c_str()); } SIM_CHECK(f, "categories-unlimited", "more than the reserve accepted"); break; }
    }
}
static void run(bool mis) {
    throwingAsserts(); thrBegin(); setBudget(4000000); Console con; napp = choose(S_CFG, 0, 4); if (!mis && napp == 0) napp = 1; style = choose(S_CFG, 1, 4); 
    LintelLog::Category pre("pre"), good("good"); LintelLog::setDebugLevel("pre", 2);
    for (int a = 0; a < napp; ++a) LintelLog::addAppender([a](const string &m, const LintelLog::LogType t) { appender(a, m, t); });
    if (mis && choose(S_CFG, 3, 3) == 1) { prefilled = true; for (int i = 0; i < 4; ++i) { } NoPreempt np; bool f = false; unsigned last = 0; for (int i = 0; last + 9 < 4000; ++i) { LintelLog::Category c("p" + std::to_string(i)); last = c.id; } (void)f; }
    int n = range(S_CFG, 2, 1, 4); int ex = 0;
    for (int t = 0; t < n; ++t) spawn([&, t] { int k = range(S_WORK, tid(), 1, 4); for (int i = 0; i < k; ++i) { bool th = false; if (mis && choose(S_WORK, tid(), 3) == 1) misuse(tid()); logOne(tid(), i, &th); NoPreempt np; ex += th; } });
    joinAll();
    // still usable
    bool th = false; for (int i = 0; i < 3; ++i) logOne(0, 100 + i, &th); SIM_CHECK(LintelLog::wouldDebug(pre, 2) && !LintelLog::wouldDebug(pre, 3), "level-lost", "existing category changed"); LintelLog::setDebugLevel("pre", 4); SIM_CHECK(LintelLog::wouldDebug("pre", 4), "unusable", "cannot set a level any more");
    { int before = napp; vector<string> got; if (!faultsEnabled()) { LintelLog::addAppender([&](const string &m, LintelLog::LogType) { got.push_back(m); }); LintelLog::info("final"); SIM_CHECK(got.size() == 1 || before > 0, "unusable", "new appender does not get messages"); } }
    if (n > 1) nontrivial(); stateHash(ex); stateHash(msgs.size()); thrEnd();
}
SIM_SCENARIO("L03", appenders, 3) { run(false); }
SIM_SCENARIO("L03", misuse, 1) { run(true); }
