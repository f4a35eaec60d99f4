// The simulated database server: a stub with real transaction semantics (all of a committed transaction, nothing of any
// other), one writer at a time, and the faults real servers show. Lives in the simulator; perl processes talk to it
// through DBD::Sim.
#ifndef DBSIM_HPP
#define DBSIM_HPP
#include "pl_h.hpp"
#include <map>
#include <functional>
#include <set>
#include <vector>
struct Db {
    typedef std::map<std::string, std::string> Table;
    typedef std::map<std::string, Table> State;
    // configuration
    bool prepChecks = false;      // prepare refuses statements on absent tables (SQLite) or not (MySQL)
    bool truncates = false;       // values too long for their column are cut silently (MySQL without strict mode)
    double stmtErrP = 0, abortP = 0, lostP = 0, commitErrP = 0, fetchErrP = 0, prepErrP = 0, rollbackErrP = 0, beginErrP = 0, connErrP = 0, lockTimeoutP = 0.1;
    // state
    State committed;
    struct Sess { int vpid = 0; bool open = true, txn = false, wrote = false; State work; bool failed = false; bool undetermined = false; std::vector<std::string> did; int waits = 0; };
    std::map<int, Sess> sess; int nextSess = 1; int writer = 0; // session that holds the write lock
    std::function<void(int vpid, const State &before, const State &after)> onCommit;
    std::function<void(int vpid, const char *what)> onFault;     // an error the client is about to see

    static std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find('\x1f', p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; } }
    static std::string err(int code, const std::string &m) { return "err\x1f" + std::to_string(code) + "\x1f" + m; }
    static std::string lost(const std::string &m) { return "lost\x1f" "2006\x1f" + m; }
    void tell(int vpid, const char *what) { fault(what); ev("db-fault", vpid); if (onFault) onFault(vpid, what); }
    bool inTxn(int vpid) { for (auto &k : sess) if (k.second.vpid == vpid && k.second.open && k.second.txn) return true; return false; }
    void end(int id, bool keep) { Sess &s = sess[id]; if (s.wrote) { if (keep) { State before = committed; committed = s.work; if (onCommit) onCommit(s.vpid, before, committed); } s.work.clear(); s.wrote = false; } s.txn = false; if (writer == id) writer = 0; }
    void drop(int id) { end(id, false); sess[id].open = false; }
    void gone(int vpid) { for (auto &k : sess) if (k.second.vpid == vpid && k.second.open) drop(k.first); }

    // ---------------------------------------------------------------- statements
    struct Sql { std::string op, table; bool ifx = false; std::vector<std::string> v; int params = 0; std::vector<std::string> cols; bool add = false; bool where = false; bool bad = false; };
    static std::vector<std::string> tokens(const std::string &q) {
        std::vector<std::string> t; size_t i = 0, n = q.size();
        while (i < n) { char c = q[i];
            if (isspace((unsigned char)c)) { ++i; continue; }
            if (c == '-' && i + 1 < n && q[i + 1] == '-') { while (i < n && q[i] != '\n') ++i; continue; }
            if (c == '\'' || c == '"') { std::string s(1, '\''); ++i; for (;;) { if (i >= n) { t.push_back("\x01unterminated"); return t; } if (q[i] == c) { if (i + 1 < n && q[i + 1] == c) { s += c; i += 2; continue; } ++i; break; } s += q[i++]; } t.push_back(s); continue; }
            if (isalnum((unsigned char)c) || c == '_') { size_t j = i; while (j < n && (isalnum((unsigned char)q[j]) || q[j] == '_')) ++j; t.push_back(q.substr(i, j - i)); i = j; continue; }
            t.push_back(std::string(1, c)); ++i; }
        while (!t.empty() && t.back() == ";") t.pop_back();
        return t;
    }
    static Sql parse(const std::string &q) {
        Sql r; std::vector<std::string> t = tokens(q); size_t i = 0;
        auto at = [&](const char *w) { if (i < t.size() && t[i] == w) { ++i; return true; } return false; };
        auto val = [&]() { if (i >= t.size()) { r.bad = true; return; } std::string x = t[i++]; if (x == "?") { ++r.params; r.v.push_back("?"); } else r.v.push_back(x[0] == '\'' ? x : isdigit((unsigned char)x[0]) ? "'" + x : (r.bad = true, "")); };
        auto name = [&]() { if (i < t.size() && (isalpha((unsigned char)t[i][0]) || t[i][0] == '_')) r.table = t[i++]; else r.bad = true; };
        auto need = [&](const char *w) { if (!at(w)) r.bad = true; };
        auto where = [&]() { if (at("where")) { need("name"); need("="); val(); r.where = true; } };
        for (auto &k : t) if (k == ";" || k[0] == '\x01') { r.bad = true; return r; }
        if (at("create") || at("drop")) { r.op = t[0]; need("table"); if (at("if")) { if (r.op == "create") need("not"); need("exists"); r.ifx = true; } name(); if (r.op == "create") { if (!at("(")) r.bad = true; int d = 1; while (i < t.size() && d) { d += t[i] == "(" ? 1 : t[i] == ")" ? -1 : 0; ++i; } if (d) r.bad = true; } }
        else if (at("insert") || at("replace")) { r.op = t[0]; need("into"); name(); need("values"); need("("); val(); need(","); val(); need(")"); }
        else if (at("update")) { r.op = "update"; name(); need("set"); need("value"); need("="); if (at("value")) { need("+"); r.add = true; } val(); where(); }
        else if (at("delete")) { r.op = "delete"; need("from"); name(); where(); }
        else if (at("select")) { r.op = "select"; if (at("*")) r.cols = {"name", "value"}; else do { if (at("name")) r.cols.push_back("name"); else if (at("value")) r.cols.push_back("value"); else r.bad = true; } while (at(",") && !r.bad); need("from"); name(); where(); }
        else r.bad = true;
        if (i != t.size()) r.bad = true;
        return r;
    }
    State &view(int id) { Sess &s = sess[id]; return s.wrote ? s.work : committed; }
    std::string exec(int id, const std::vector<std::string> &f) {
        Sess &s = sess[id]; Sql q = parse(f[2]); if (q.bad) return err(1064, "syntax error in '" + f[2] + "'");
        std::vector<std::string> v; size_t b = 3; for (auto &x : q.v) { if (x == "?") v.push_back(b < f.size() ? f[b++] : ""); else v.push_back(x.substr(1)); }
        bool write = q.op != "select";
        bool exists = view(id).count(q.table);
        if (!write) {
            if (!exists) return err(1146, "no such table: " + q.table);
            std::string r = "ok\x1f" "0"; for (auto &k : view(id)[q.table]) if (!q.where || k.first == v.back()) for (auto &c : q.cols) r += "\x1f" + (c == "name" ? k.first : k.second);
            return r;
        }
        // a writer waits for the one before it
        if (writer && writer != id) { if (++s.waits > 3 && plFaultsOn() && chance(S_FAULT, 30, lockTimeoutP)) { s.waits = 0; tell(s.vpid, "db-lock-timeout"); return err(1205, "lock wait timeout"); } probe("db-writer-waits"); return "wait"; }
        s.waits = 0; State before = s.wrote ? s.work : committed; State w = before; long n = 0;
        if (q.op == "create") { if (exists && !q.ifx) return err(1050, "table " + q.table + " exists"); if (!exists) w[q.table]; }
        else if (q.op == "drop") { if (!exists && !q.ifx) return err(1051, "no such table: " + q.table); w.erase(q.table); }
        else {
            if (!exists) return err(1146, "no such table: " + q.table);
            Table &t = w[q.table];
            if (q.op == "insert" || q.op == "replace") {
                if (truncates) { v[0] = v[0].substr(0, 255); v[1] = v[1].substr(0, 1024); } else if (v[0].size() > 255 || v[1].size() > 1024) return err(1406, "data too long");
                if (q.op == "insert" && t.count(v[0])) return err(1062, "duplicate entry " + v[0]); t[v[0]] = v[1]; n = 1;
            } else if (q.op == "update") { for (auto &k : t) if (!q.where || k.first == v.back()) { k.second = q.add ? std::to_string(atol(k.second.c_str()) + atol(v[0].c_str())) : v[0]; ++n; } }
            else for (auto k = t.begin(); k != t.end();) if (!q.where || k->first == v.back()) { k = t.erase(k); ++n; } else ++k;
        }
        s.work = w; s.wrote = true; writer = id;
        if (!s.txn) end(id, true);
        return "ok\x1f" + std::to_string(n);
    }
    std::string call(int vpid, const std::string &req) {
        std::vector<std::string> f = split(req); const std::string &op = f[0]; bool F = plFaultsOn();
        if (op == "conn") { if (F && chance(S_FAULT, 31, connErrP)) { tell(vpid, "db-connect-refused"); return err(2003, "cannot connect"); } int id = nextSess++; sess[id].vpid = vpid; return "ok\x1f" + std::to_string(id); }
        int id = atoi(f[1].c_str()); Sess &s = sess[id];
        if (op == "disc") { drop(id); return "ok"; }
        if (!s.open) { if (onFault) onFault(vpid, "gone"); return lost("server has gone away"); }
        if (op == "ping") return "ok";
        if (F && chance(S_FAULT, 32, op == "commit" ? lostP * 3 : lostP)) { // the connection breaks: before or after the server did its part
            bool after = op == "commit" && s.wrote && choose(S_FAULT, 33, 2) == 1; if (after) end(id, true); drop(id); tell(vpid, op == "commit" ? (after ? "db-lost-after-commit" : "db-lost-before-commit") : "db-connection-lost"); return lost("lost connection during " + op); }
        if (op == "begin") { if (F && chance(S_FAULT, 34, beginErrP)) { tell(vpid, "db-begin-error"); return err(1015, "cannot begin"); } if (s.txn) return err(1568, "transaction in progress"); s.txn = true; return "ok"; }
        if (op == "commit") {
            if (!s.txn) return "ok";
            if (F && chance(S_FAULT, 35, commitErrP)) { bool rolled = choose(S_FAULT, 36, 2); tell(vpid, rolled ? "db-commit-rolled-back" : "db-commit-error"); if (rolled) { end(id, false); return err(1213, "serialization failure: transaction rolled back"); } return err(1180, "error during commit"); }
            end(id, true); return "ok"; }
        if (op == "rollback") { if (F && s.txn && chance(S_FAULT, 37, rollbackErrP)) { tell(vpid, "db-rollback-error"); s.failed = true; return err(1181, "error during rollback"); } end(id, false); return "ok"; }
        if (op == "prep") {
            if (F && chance(S_FAULT, 38, prepErrP)) { tell(vpid, "db-prepare-error"); return err(1030, "error while preparing"); }
            Sql q = parse(f[2]); if (prepChecks) { if (q.bad) return err(1064, "syntax error in '" + f[2] + "'"); if (q.op != "create" && q.op != "drop" && !view(id).count(q.table)) return err(1, "no such table: " + q.table); }
            std::string c; for (auto &x : q.cols) c += (c.empty() ? "" : ",") + x; return "ok\x1f" + std::to_string(q.params) + "\x1f" + c; }
        if (op == "tinfo") { if (F && chance(S_FAULT, 39, stmtErrP)) { tell(vpid, "db-statement-error"); return err(1030, "error in table_info"); } std::string r = "ok"; for (auto &k : view(id)) if (f[2] == "%" || f[2] == k.first) r += "\x1f" + k.first; return r; }
        if (op == "fetch") { if (F && chance(S_FAULT, 40, fetchErrP)) { tell(vpid, "db-fetch-error"); return err(2013, "error while fetching"); } return "ok"; }
        if (op == "exec") {
            if (F && chance(S_FAULT, 41, stmtErrP)) { tell(vpid, "db-statement-error"); return err(1030, "error from storage engine"); }
            if (F && s.txn && chance(S_FAULT, 42, abortP)) { tell(vpid, "db-deadlock-abort"); end(id, false); return err(1213, "deadlock found: transaction rolled back"); }
            return exec(id, f); }
        return err(1, "bad request " + op);
    }
};
#endif
