#include "dbsim.hpp"
PL_SCRIPT("r01.pl")
// transaction(): all of the function's changes or none, and the caller knows which
static void setFaults(Db &db) {
    if (!faultsEnabled()) return;
    auto p = [](int i, double a) { return choose(S_CFG, 20 + i, 3) == 2 ? a : 0.0; };
    db.stmtErrP = p(0, 0.05); db.abortP = p(1, 0.05); db.lostP = p(2, 0.03); db.commitErrP = p(3, 0.2); db.fetchErrP = p(4, 0.05); db.prepErrP = p(5, 0.02); db.rollbackErrP = p(6, 0.3); db.beginErrP = p(7, 0.1); db.connErrP = p(8, 0.2);
}
static void r01() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; if (faultsEnabled()) c.killP = choose(S_CFG, 3, 3) == 2 ? 0.005 : 0;
    Db db; db.prepChecks = choose(S_CFG, 4, 2); setFaults(db);
    struct T { std::set<std::string> rows; long add = 0; bool fin = false, begun = false, applied = false, fault = false, undet = false, over = false; int vpid = 0; };
    std::map<std::string, T> t; std::map<int, std::string> cur; std::map<int, bool> rbFail; bool mixed = false; int oks = 0, excs = 0;
    auto idOf = [](const std::string &row) { return row.substr(0, row.find('.')); };
    db.onFault = [&](int pid, const char *w) { auto i = cur.find(pid); if (i != cur.end()) { t[i->second].fault = true; if (!strcmp(w, "db-lost-after-commit")) t[i->second].undet = true; } if (!strcmp(w, "db-rollback-error")) rbFail[pid] = true; };
    db.onCommit = [&](int pid, const Db::State &b, const Db::State &a) {
        if (!a.count("t") || !b.count("t")) return;
        std::map<std::string, std::set<std::string>> now; for (auto &r : a.at("t")) if (!b.at("t").count(r.first) && r.first.find(".after") == std::string::npos) now[idOf(r.first)].insert(r.first);
        for (auto &k : now) { T &x = t[k.first];
            SIM_CHECK(x.fin, "half-committed", "process %d: rows of transaction %s became durable while its function had not finished", pid, k.first.c_str());
            SIM_CHECK(k.second == x.rows, "half-committed", "process %d: transaction %s: %zu of %zu rows became durable", pid, k.first.c_str(), k.second.size(), x.rows.size());
            x.applied = true; }
    };
    PlHooks h; h.call = [&](int pid, const std::string &q) { return db.call(pid, q); };
    h.exit = [&](int pid, int) { db.gone(pid); cur.erase(pid); };
    h.note = [&](int pid, const std::string &s) {
        char id[64]; int j; long by; 
        if (sscanf(s.c_str(), "begin %60s", id) == 1) { cur[pid] = id; t[id].vpid = pid; t[id].begun = true; }
        else if (sscanf(s.c_str(), "in %60s", id) == 1) SIM_CHECK(db.inTxn(pid), "no-transaction", "the function of transaction %s runs outside a transaction", id);
        else if (sscanf(s.c_str(), "row %60s %d", id, &j) == 2) t[id].rows.insert(std::string(id) + "." + std::to_string(j));
        else if (sscanf(s.c_str(), "add %60s %ld", id, &by) == 2) t[id].add += by;
        else if (sscanf(s.c_str(), "fin %60s", id) == 1) t[id].fin = true;
        else if (sscanf(s.c_str(), "after %60s", id) == 1) { SIM_CHECK(db.committed["t"].count(std::string(id) + ".after"), "still-in-transaction", "a statement executed after transaction %s is not durable", id); probe("autocommit-after"); }
        else if (sscanf(s.c_str(), "ok %60s", id) == 1 || sscanf(s.c_str(), "exc %60s", id) == 1) {
            T &x = t[id]; bool ok = s[0] == 'o'; x.over = true; cur.erase(pid); (ok ? oks : excs)++;
            if (ok) { SIM_CHECK(x.applied, "not-durable", "transaction %s returned normally but its changes are not in the database", id); }
            else {
                if (x.undet) probe("outcome-unknown"); else SIM_CHECK(!x.applied, "applied-but-failed", "transaction %s raised an exception but its changes are in the database", id);
                int threw = 0, called = 0; sscanf(s.c_str(), "exc %*s %d %d", &threw, &called);
                if (!threw) { SIM_CHECK(x.fault, "spurious-failure", "transaction %s failed although neither its function nor the database did", id); probe(called ? "commit-failed" : "begin-failed"); }
            }
            SIM_CHECK(!db.inTxn(pid) || rbFail[pid], "transaction-left-open", "transaction %s is over but the connection still has a transaction open", id);
            if (x.fault) mixed = true;
        } else if (s == "alldone") { long want = 0; for (auto &k : t) if (k.second.applied) want += k.second.add; long got = atol(db.committed["c"]["n"].c_str());
            SIM_CHECK(got == want, "lost-update", "the counter is %ld, the committed transactions added %ld", got, want); }
    };
    plRun("r01_main", c, h);
    if (oks && (excs || mixed)) nontrivial();
}
SIM_SCENARIO("R01", r01_txn) { r01(); }
