#include "dbsim.hpp"
PL_SCRIPT("r02.pl")
// schema versions: every step exactly once, together with its version number; the caller knows where the database is
static void r02() {
    PlCfg c; static const double sw[] = {0.3, 0.05, 0.8, 1.0}; c.switchP = sw[choose(S_CFG, 1, 4)]; if (faultsEnabled()) c.killP = choose(S_CFG, 3, 3) == 2 ? 0.01 : 0;
    Db db; db.prepChecks = choose(S_CFG, 4, 2); db.truncates = choose(S_CFG, 5, 2);
    if (faultsEnabled()) { auto p = [](int i, double a) { return choose(S_CFG, 20 + i, 3) == 2 ? a : 0.0; };
        db.stmtErrP = p(0, 0.03); db.abortP = p(1, 0.03); db.lostP = p(2, 0.02); db.commitErrP = p(3, 0.15); db.fetchErrP = p(4, 0.1); db.prepErrP = p(5, 0.03); db.rollbackErrP = p(6, 0.3); db.beginErrP = p(7, 0.1); db.connErrP = p(8, 0.2); }
    struct Run { int app = -1, target = 0, init = 0, broken = -1, nopath = 0, skip = 0, from = 0; bool in = false, fault = false; std::string key; };
    struct App { bool legacy = false; };
    std::map<int, Run> run; std::map<int, App> apps; std::map<int, bool> faulted; int migrated = 0, installed = 0, failed = 0; const std::string CT = "lintel_dbi_config"; std::string PRE = "?";
    auto version = [&](const Db::State &s, int app) { auto t = s.find(CT); if (t == s.end()) return 0; auto r = t->second.find(PRE + std::to_string(app)); return r == t->second.end() ? 0 : atoi(r->second.c_str()); };
    db.onFault = [&](int pid, const char *) { faulted[pid] = true; };
    db.onCommit = [&](int pid, const Db::State &b, const Db::State &a) {
        Run *me = run.count(pid) ? &run[pid] : NULL;
        for (int app = 0; app < 3; ++app) {
            std::string m = "m_" + std::to_string(app), x = "x_" + std::to_string(app) + "_2"; int vb = version(b, app), va = version(a, app);
            bool mb = b.count(m), ma = a.count(m), same = mb == ma && (!mb || b.at(m) == a.at(m)) && b.count(x) == a.count(x) && vb == va;
            if (same) continue;
            if (!me || (me->in == false && !(apps[app].legacy))) { if (!me) continue; }
            if (!me->in) violate("unexpected-change", "process %d changed application %d's schema outside setupSchema", pid, app);
            SIM_CHECK(me->app == app, "other-application", "process %d sets up application %d but changed application %d", pid, me->app, app);
            if (!vb && !mb) { // installation
                SIM_CHECK(me->init, "installed-from-nothing", "application %d was installed by a process that has no initial schema", app);
                SIM_CHECK(va == me->init && ma && a.at(m).count("init") && a.at(m).count("steps") && a.at(m).at("steps") == "0", "torn-installation", "application %d: installed in part (version %d, tables %s)", app, va, ma ? "there" : "missing"); ++installed; probe("installed");
            } else {
                int v = vb ? vb : 1; SIM_CHECK(vb || (apps[app].legacy && me->from), "installed-twice", "application %d: process %d ran the installation on an installed schema", app, pid);
                SIM_CHECK(v < me->target, "migrated-too-far", "application %d: process %d migrated on from version %d, its target is %d", app, pid, v, me->target);
                int to = v == me->skip && v + 2 <= me->target ? v + 2 : v + 1; std::string st = "step" + std::to_string(v);
                Db::Table want = b.at(m); want[st] = "1"; want["steps"] = std::to_string(atoi(want["steps"].c_str()) + 1); bool dup = b.at(m).count(st);
                SIM_CHECK(va == to && ma && a.at(m) == want && !dup && (bool)a.count(x) == (v == 2 ? true : v == 3 ? false : b.count(x)), "torn-migration", "application %d: the step from version %d left version %d and steps '%s' (before '%s')", app, v, va, ma ? (a.at(m).count("steps") ? a.at(m).at("steps").c_str() : "?") : "no table", b.at(m).at("steps").c_str()); ++migrated; probe("migrated");
            }
        }
        if (b.count(CT)) { SIM_CHECK(a.count(CT), "config-dropped", "the configuration table is gone");
            for (auto &k : b.at(CT)) if (k.first.compare(0, 4, "own-") == 0) { auto i = a.at(CT).find(k.first); bool mine = me && me->key.substr(0, 255) == k.first; SIM_CHECK(i != a.at(CT).end() && (mine || i->second == k.second), "config-lost", "process %d changed or lost the setting %s", pid, k.first.substr(0, 20).c_str()); } }
    };
    PlHooks h; h.call = [&](int pid, const std::string &q) { return db.call(pid, q); };
    h.exit = [&](int pid, int) { db.gone(pid); run.erase(pid); };
    h.note = [&](int pid, const std::string &s) {
        int app, target, init, broken, nopath, skip, from; char w[600], w2[64]; int len;
        if (s.compare(0, 8, "appname ") == 0) { PRE = "lintel-dbi-schema-" + s.substr(8); return; }
        if (sscanf(s.c_str(), "legacy %d", &app) == 1) { apps[app].legacy = true; return; }
        if (sscanf(s.c_str(), "setup %d %d %d %d %d %d %d", &app, &target, &init, &broken, &nopath, &skip, &from) == 7) { Run r; r.app = app; r.target = target; r.init = init; r.broken = broken; r.nopath = nopath; r.skip = skip; r.from = from; r.in = true; run[pid] = r; faulted[pid] = false; }
        else if (sscanf(s.c_str(), "ok %d", &app) == 1 || sscanf(s.c_str(), "exc %d %60s", &app, w2) == 2) {
            Run &r = run[pid]; r.in = false; int v = version(db.committed, app); if (!v && r.from) v = r.from; bool ok = s[0] == 'o';
            if (ok) SIM_CHECK(v == r.target, "wrong-version", "setupSchema for version %d returned normally but the database has version %d", r.target, v);
            else { ++failed;
                // may it fail? follow the path it has to go from here
                bool may = false; int x = v; if (!x) { if (!r.init || r.broken == 0) may = true; x = r.init; } int guard = 0;
                while (!may && x < r.target && ++guard < 9) { if (x == r.nopath || x == r.broken) may = true; x = x == r.skip && x + 2 <= r.target ? x + 2 : x + 1; }
                if (x != r.target) may = true;
                SIM_CHECK(may || faulted[pid], "spurious-failure", "setupSchema for version %d failed (version now %d) although every step is there and the database reported no error", r.target, v); if (faulted[pid]) probe("failed-by-fault"); }
            SIM_CHECK(!db.inTxn(pid) || faulted[pid], "transaction-left-open", "setupSchema is over but a transaction is open");
        }
        else if (sscanf(s.c_str(), "getver %d", &app) == 1) faulted[pid] = false;
        else if (sscanf(s.c_str(), "gotver %d %60s", &app, w2) == 2) { int v = version(db.committed, app); if (!strcmp(w2, "died")) SIM_CHECK(faulted[pid], "spurious-failure", "getInstalledSchemaVersion died although the database reported no error"); else SIM_CHECK((v ? std::to_string(v) : "undef") == w2, "wrong-version", "getInstalledSchemaVersion gives %s, the database has %d", w2, v); }
        else if (sscanf(s.c_str(), "cfgset %599s %d", w, &len) == 2) { faulted[pid] = false; run[pid].key = w; }
        else if (sscanf(s.c_str(), "cfgok %599s %d", w, &len) == 2) { run[pid].key.clear(); auto &t = db.committed[CT]; auto i = t.find(w); SIM_CHECK(i != t.end() && (int)i->second.size() == len, "setting-not-stored", "setConfig returned but the database does not have the value"); probe("setting-stored"); }
        else if (sscanf(s.c_str(), "cfgexc %599s %d", w, &len) == 2) { run[pid].key.clear(); SIM_CHECK(faulted[pid] || len > 1024 || strlen(w) > 254 || !db.committed.count(CT), "spurious-failure", "setConfig died although the database reported no error"); probe("setting-refused"); }
        else if (sscanf(s.c_str(), "cfgget %599s", w) == 1) faulted[pid] = false;
        else if (sscanf(s.c_str(), "cfggot %599s %60s", w, w2) == 2) { auto t = db.committed.find(CT); std::string want = "undef"; if (t != db.committed.end()) { auto i = t->second.find(w); if (i != t->second.end()) want = "v" + std::to_string(i->second.size()); }
            if (!strcmp(w2, "died")) SIM_CHECK(faulted[pid], "spurious-failure", "getConfig died although the database reported no error"); else SIM_CHECK(want == w2, "wrong-setting", "getConfig gives %s, the database has %s", w2, want.c_str()); }
        else if (s.compare(0, 8, "reserved") == 0) faulted[pid] = false;
    };
    plRun("r02_main", c, h);
    if (migrated && (failed || installed)) nontrivial();
}
SIM_SCENARIO("R02", r02_schema) { r02(); }
