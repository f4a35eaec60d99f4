#include "dbsim.hpp"
PL_SCRIPT("r03.pl")
// the query helpers: the right answer or an exception
static void r03() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; if (faultsEnabled()) c.killP = choose(S_CFG, 3, 4) == 3 ? 0.003 : 0;
    Db db; db.prepChecks = choose(S_CFG, 4, 2);
    if (faultsEnabled()) { auto p = [](int i, double a) { return choose(S_CFG, 20 + i, 3) == 2 ? a : 0.0; }; db.stmtErrP = p(0, 0.05); db.lostP = p(2, 0.01); db.fetchErrP = choose(S_CFG, 24, 2) ? 0.05 : 0.01; db.prepErrP = p(5, 0.02); db.connErrP = p(8, 0.2); }
    std::map<int, int> faultsIn; std::map<int, bool> last; int good = 0, bad = 0;
    db.onFault = [&](int pid, const char *) { faultsIn[pid]++; };
    PlHooks h; h.call = [&](int pid, const std::string &q) { return db.call(pid, q); };
    h.exit = [&](int pid, int) { db.gone(pid); };
    h.note = [&](int pid, const std::string &s) {
        if (s.compare(0, 4, "try ") == 0) faultsIn[pid] = 0;
        else if (s == "done") { SIM_CHECK(!faultsIn[pid], "error-swallowed", "the database reported an error to process %d but the call returned normally", pid); ++good; }
        else if (s == "died") { if (faultsIn[pid]) { ++bad; probe("error-reported"); } }
        else if (s.compare(0, 9, "mustfault") == 0) SIM_CHECK(faultsIn[pid], "spurious-failure", "%s died although the answer is well-defined and the database reported no error", s.c_str() + 10);
    };
    plRun("r03_main", c, h);
    if (good > 2 && (bad || !faultsEnabled())) nontrivial();
}
SIM_SCENARIO("R03", r03_query) { r03(); }
