// T07: once-only initialisation
#include "h.hpp"
#include "io.hpp"
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>
#include <Lintel/LintelLog.hpp>
#include <errno.h>
#include <map>
namespace dsim { extern void (*io_point)(); }
static void sysPoint() { point(1); }
static string listing(int *expect) {
    string s; int n = 0; unsigned lines = choose(S_WORK, 50, 12);
    for (unsigned i = 0; i < lines; ++i) {
        switch (choose(S_WORK, 51, 9)) {
        case 0: case 1: case 2: { char b[40]; snprintf(b, sizeof b, "processor\t: %d", n); s += b; ++n; break; }
        case 3: s += "processor : 3"; break;
        case 4: s += "model name\t: processor\t: 4"; break;
        case 5: break;
        case 6: s += "Processor\t: 1"; break;
        case 7: s += "flags\t\t: " + string(1 + choose(S_WORK, 52, 400), 'x'); break;
        case 8: s += "processor\t:"; break;
        }
        if (i + 1 < lines || choose(S_WORK, 53, 2) == 0) s += "\n";
    }
    if (choose(S_WORK, 57, 24) == 23) for (unsigned k = range(S_WORK, 57, 100, 900); k; --k) { char b[40]; snprintf(b, sizeof b, "processor\t: %d\n", n); s = b + s; ++n; }
    *expect = n; return s;
}
SIM_SCENARIO("T07", ncpus, 3) {
    throwingAsserts(); int expect = 0; string content = listing(&expect);
    ReportFile &f = reportFile("/proc/cpuinfo"); f.content = [&] { return content; };
    f.max_chunk = choose(S_CFG, 1, 2) ? 1 + choose(S_CFG, 2, 60) : 0;
    bool failed_ok = false; (void)failed_ok;
    unsigned env = choose(S_WORK, 54, 6); int envval = -1; bool envbad = false;
    if (env == 1) { envval = 1 + choose(S_WORK, 55, 300); setenv("NUMBER_OF_PROCESSORS", std::to_string(envval).c_str(), 1); }
    else if (env == 2) { static const char *bad[] = {"0", "many", "", "-"}; setenv("NUMBER_OF_PROCESSORS", bad[choose(S_WORK, 56, 4)], 1); envbad = true; }
    else unsetenv("NUMBER_OF_PROCESSORS");
    unsigned ferr = 0; if (faultsEnabled() && env != 1 && !envbad) {
        ferr = 1 + choose(S_FAULT, 1, 3);
        if (ferr == 1) f.open_errno = choose(S_FAULT, 2, 2) ? EMFILE : ENOENT;
        if (ferr == 2) { f.fail_at = choose(S_FAULT, 3, content.size() + 1); f.fail_errno = choose(S_FAULT, 4, 2) ? EIO : ENOMEM; }
        if (ferr == 3) f.p_eintr = 0.3;
    }
    thrBegin(); io_point = sysPoint; spurious_ok = false;
    int n = range(S_CFG, 3, 1, 5); int good = 0, bad = 0; vector<int> got;
    for (int i = 0; i < n; ++i) spawn([&] {
        int calls = 1 + choose(S_WORK, tid(), 2);
        for (int c = 0; c < calls; ++c) {
            int r = -1; bool ft = fatal([&] { r = PThreadMisc::getNCpus(); });
            NoPreempt np; if (ft) ++bad; else { ++good; got.push_back(r); }
        }
    });
    joinAll();
    bool mustFail = env == 1 ? false : envbad ? true : ferr == 1 ? true : ferr == 2 ? f.fired > 0 : expect == 0;
    if (env == 1) { for (int g : got) SIM_CHECK(g == envval, "env-override", "got %d, override %d", g, envval); SIM_CHECK(bad == 0, "env-refused", "valid override %d refused", envval); }
    else if (mustFail || expect == 0) { SIM_CHECK(good == 0, "made-up-count", "%d callers got a processor count (%d) although the listing could not be read completely or has no processors (override \"%s\")", good, got.empty() ? 0 : got[0], envbad ? getenv("NUMBER_OF_PROCESSORS") : ""); }
    else { SIM_CHECK(bad == 0, "refused", "%d callers failed on a readable listing with %d processors", bad, expect); for (int g : got) SIM_CHECK(g == expect, "wrong-count", "got %d, the listing has %d processors", g, expect);
        SIM_CHECK(f.opened_ok == 1, "counted-twice", "the listing was read %u times", f.opened_ok); }
    SIM_CHECK(f.openNow() == 0, "handle-leak", "%u handles left open", f.openNow());
    if (mustFail) { // the failure goes away: the library must still be usable and right
        f.open_errno = 0; f.fail_at = -1; unsetenv("NUMBER_OF_PROCESSORS"); content += "\nprocessor\t: 77\n"; ++expect; probe("recovered");
        unsigned before = f.opened_ok; int r = -1; bool ft = fatal([&] { r = PThreadMisc::getNCpus(); });
        SIM_CHECK(!ft && r == expect, "wrong-after-failure", "after a failed first use: %s, got %d, the listing has %d", ft ? "fatal" : "ok", r, expect);
        (void)before;
    }
    if (n > 1) nontrivial(); ev("got", good, bad, expect); stateHash(good * 100 + bad); stateHash(expect); thrEnd();
}
SIM_SCENARIO("T07", log_instance, 2) {
    throwingAsserts(); thrBegin(); int n = range(S_CFG, 0, 2, 4);
    std::map<string, unsigned> ids; vector<string> seen[8]; int napp = 0, logged = 0; vector<int> order;
    for (int i = 0; i < n; ++i) spawn([&, i] {
        int me = i; 
        switch (choose(S_WORK, tid(), 4)) {
        case 0: { LintelLog::addAppender([&seen, me](const string &m, LintelLog::LogType) { NoPreempt np; seen[me].push_back(m); }); { NoPreempt np; ++napp; } LintelLog::info("from-" + std::to_string(me)); NoPreempt np; bool ok = false; for (auto &m : seen[me]) ok = ok || m == "from-" + std::to_string(me); SIM_CHECK(ok, "appender-lost", "an appender added before the message did not get it"); ++logged; break; }
        case 1: { LintelLog::Category c("cat" + std::to_string(choose(S_WORK, tid(), 2))); unsigned id = c.id; string nm = "cat"; (void)nm; LintelLog::Category d("own" + std::to_string(me)); LintelLog::Category d2("own" + std::to_string(me)); SIM_CHECK(d.id == d2.id && d.id != id, "category-lost", "ids %u %u %u", id, d.id, d2.id); break; }
        case 2: { string nm = "lv" + std::to_string(me); LintelLog::setDebugLevel(nm, 3); SIM_CHECK(LintelLog::wouldDebug(nm, 3) && !LintelLog::wouldDebug(nm, 4), "level-lost", "level set during first use is gone"); break; }
        case 3: LintelLog::report("plain"); break;
        }
        LintelLog::Category x("shared"); { NoPreempt np; ids["shared" + std::to_string(x.id)]++; }
    });
    joinAll(); SIM_CHECK(ids.size() == 1, "instance-twice", "one category name got %zu different ids", ids.size());
    int k = 0; LintelLog::info("last"); for (int i = 0; i < n; ++i) { for (auto &m : seen[i]) k += m == "last"; } SIM_CHECK(k == napp, "appender-forgotten", "%d of %d appenders got the last message", k, napp);
    nontrivial(); stateHash(k); thrEnd();
}
SIMPLE_MUTEX_SINGLETON(theMutex)
SIM_SCENARIO("T07", simple_mutex, 1) {
    throwingAsserts(); thrBegin(); int n = range(S_CFG, 0, 2, 5), it = range(S_CFG, 1, 1, 3); int inside = 0, cnt = 0;
    for (int i = 0; i < n; ++i) spawn([&, it] { for (int k = 0; k < it; ++k) { 
        try { SimpleScopedLock l(theMutex()); int v; { NoPreempt np; SIM_CHECK(++inside == 1, "overlap", "%d threads inside the simple mutex", inside); v = cnt; } point(1); { NoPreempt np; cnt = v + 1; --inside; } if (choose(S_WORK, tid(), 4) == 1) throw TestExc(1); } catch (TestExc &) { } } });
    joinAll(); SIM_CHECK(cnt == n * it, "lost-update", "%d != %d", cnt, n * it); SIM_CHECK(mutexOwner((void *)&theMutex()) == -1 , "left-locked", "mutex still held"); nontrivial(); thrEnd();
}
