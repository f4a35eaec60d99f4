// L01: every message once to every appender, whole and serialised
#include "log.hpp"
static vector<Msg *> msgs; static vector<App *> apps; static std::map<string, int> byText; static int inside;
static void appender(App *a, const string &text, LintelLog::LogType type) {
    { NoPreempt np; SIM_CHECK(inside++ == 0, "overlap", "two messages are being appended at the same time (appender %d, \"%s\")", a->id, text.c_str()); }
    { NoPreempt np;
      auto it = byText.find(text); SIM_CHECK(it != byText.end(), "unknown-text", "appender %d got \"%s\", which nobody logged", a->id, text.c_str());
      Msg *m = msgs[it->second]; SIM_CHECK(m->type == type, "wrong-type", "message \"%s\" logged as %d arrived as %d", text.c_str(), m->type, type);
      Rec r = {it->second, eventSeq()}; a->got.push_back(r); ev("append", a->id, r.msg, type); }
    if (choose(S_WORK, 30, 3)) point(1);
    { NoPreempt np; --inside; }
}
static Msg *newMsg(int t, int i, LintelLog::LogType ty) { NoPreempt np; Msg *m = new Msg; m->thr = t; m->idx = i; m->type = ty; m->threw = false; m->sent = true;
    m->text = "m" + std::to_string(t) + "." + std::to_string(i) + (choose(S_WORK, 31, 4) == 1 ? string(" with\na second line") : "") + (choose(S_WORK, 32, 5) == 1 ? string(1, '\0') + "nul" : "") + (choose(S_WORK, 33, 6) == 1 ? " 100%" : "");
    byText[m->text] = msgs.size(); msgs.push_back(m); m->start = eventSeq(); return m; }
static void send(Msg *m, LintelLog::Category &on, LintelLog::Category &off) {
    const string &t = m->text;
    switch (m->type) {
    case LintelLog::Report: if (choose(S_WORK, tid(), 2)) LintelLog::report(boost::format("%s") % t); else LintelLog::report(t); break;
    case LintelLog::Debug: switch (choose(S_WORK, tid(), 7)) {
        case 0: LintelLog::debug(t); break; case 1: LintelLog::debug(boost::format("%s") % t); break;
        case 2: LintelLogDebug("enabled", t); break; case 3: LintelLogDebugLevel("enabled", 3, t); break;
        case 4: LintelLogDebugLevelVariable(on, 2, t); break;
        case 5: LintelLogDebug("disabled", t); m->sent = false; break; case 6: LintelLogDebugLevelVariable(off, 4, t); m->sent = false; break; } break;
    case LintelLog::Info: if (choose(S_WORK, tid(), 2)) LintelLog::info(boost::format("%s") % t); else LintelLog::info(t); break;
    case LintelLog::Warn: if (choose(S_WORK, tid(), 2)) LintelLog::warn(boost::format("%s") % t); else LintelLog::warn(t); break;
    default: if (choose(S_WORK, tid(), 3) == 1) LintelLog::log(t, LintelLog::Error); else if (choose(S_WORK, tid(), 2)) LintelLog::error(boost::format("%s") % t); else LintelLog::error(t); break;
    }
    NoPreempt np; m->end = eventSeq();
}
static void addApp() {
    App *a; { NoPreempt np; a = new App; a->id = apps.size(); apps.push_back(a); a->start = eventSeq(); a->end = ~0ull; }
    LintelLog::addAppender([a](const string &m, const LintelLog::LogType t) { appender(a, m, t); });
    NoPreempt np; a->end = eventSeq(); ev("add-appender", a->id);
}
SIM_SCENARIO("L01", messages, 3) {
    throwingAsserts(); thrBegin(); Console con;
    int pre = choose(S_CFG, 0, 4), n = range(S_CFG, 1, 1, 4), late = choose(S_CFG, 2, 3); if (choose(S_CFG, 3, 4) == 1) { pre = late = 0; }
    LintelLog::setDebugLevel("enabled", 3); LintelLog::Category on("enabled"), off("enabled");
    for (int i = 0; i < pre; ++i) addApp();
    for (int t = 0; t < n; ++t) spawn([&, t] { int k = range(S_WORK, tid(), 1, 4); for (int i = 0; i < k; ++i) { Msg *m = newMsg(t, i, (LintelLog::LogType)choose(S_WORK, tid(), LintelLog::MaxLogType)); send(m, on, off); } });
    for (int i = 0; i < late; ++i) spawn([&] { addApp(); });
    joinAll();
    // registration order = order in which the additions took effect: by the order appenders see any common message
    vector<vector<int> > cnt(msgs.size(), vector<int>(apps.size(), 0)); vector<vector<uint64_t> > when(msgs.size(), vector<uint64_t>(apps.size(), 0));
    for (App *a : apps) { int lastIdx[8]; for (int &x : lastIdx) x = -1;
        for (Rec &r : a->got) { Msg *m = msgs[r.msg]; ++cnt[r.msg][a->id]; when[r.msg][a->id] = r.seq; SIM_CHECK(m->idx > lastIdx[m->thr], "reordered", "appender %d got message %d of thread %d after message %d", a->id, m->idx, m->thr, lastIdx[m->thr]); lastIdx[m->thr] = m->idx;
            SIM_CHECK(r.seq > m->start && r.seq < m->end, "not-synchronous", "message \"%s\" appended outside its log call", m->text.c_str()); } }
    size_t expOut = 0, expErr = 0; (void)expOut; (void)expErr; vector<size_t> conPos(msgs.size(), string::npos); size_t outLen = 0, errLen = 0; 
    for (size_t i = 0; i < msgs.size(); ++i) { Msg *m = msgs[i]; int total = 0; bool must = false;
        for (App *a : apps) { int c = cnt[i][a->id]; total += c; bool req = m->sent && a->end < m->start, may = m->sent && a->start < m->end; must = must || req;
            SIM_CHECK(c <= 1, "duplicated", "appender %d got \"%s\" %d times", a->id, m->text.c_str(), c); SIM_CHECK(!req || c == 1, "lost", "appender %d, registered before, did not get \"%s\"", a->id, m->text.c_str()); SIM_CHECK(may || c == 0, "unexpected", "appender %d got \"%s\" (sent %d)", a->id, m->text.c_str(), m->sent); }
        string line = consoleLine(*m); RecBuf &b = m->type >= LintelLog::Warn ? con.err : con.out; RecBuf &o = m->type >= LintelLog::Warn ? con.out : con.err;
        size_t p = b.data.find(line); bool onCon = p != string::npos; SIM_CHECK(o.data.find(m->text) == string::npos, "wrong-stream", "\"%s\" (type %d) is on the other stream", m->text.c_str(), m->type);
        bool wantCon = m->sent && total == 0; SIM_CHECK(onCon == wantCon, wantCon ? "console-lost" : "console-unexpected", "\"%s\" (type %d): on console %d, appended %d times, appenders %zu; console: %s|%s", m->text.c_str(), m->type, onCon, total, apps.size(), con.out.data.c_str(), con.err.data.c_str());
        if (onCon) { SIM_CHECK(b.data.find(m->text, p + line.size()) == string::npos, "console-duplicated", "\"%s\" twice on the console", m->text.c_str()); (&b == &con.err ? errLen : outLen) += line.size(); conPos[i] = p; 
            for (size_t j = 0; j < i; ++j) if (conPos[j] != string::npos && msgs[j]->thr == m->thr && (msgs[j]->type >= LintelLog::Warn) == (m->type >= LintelLog::Warn)) SIM_CHECK(conPos[j] < p, "console-reordered", "messages %zu and %zu of one thread swapped", j, i); } }
    SIM_CHECK(outLen == con.out.data.size() && errLen == con.err.data.size(), "console-garbled", "console has text besides the messages: %s|%s", con.out.data.c_str(), con.err.data.c_str());
    for (size_t a = 0; a < apps.size(); ++a) for (size_t b = 0; b < apps.size(); ++b) if (a != b) {
        int ab = 0, ba = 0; for (size_t i = 0; i < msgs.size(); ++i) if (cnt[i][a] && cnt[i][b]) { if (when[i][a] < when[i][b]) ++ab; else ++ba; }
        SIM_CHECK(!(ab && ba), "order-varies", "appenders %zu and %zu are not called in a fixed order", a, b);
        if (apps[a]->end < apps[b]->start) SIM_CHECK(ba == 0, "not-registration-order", "appender %zu, registered later, was called before appender %zu", b, a);
        for (size_t i = 0; i < msgs.size(); ++i) for (size_t j = 0; j < msgs.size(); ++j) if (cnt[i][a] && cnt[i][b] && cnt[j][a] && cnt[j][b]) SIM_CHECK((when[i][a] < when[j][a]) == (when[i][b] < when[j][b]), "message-order-differs", "appenders disagree on the order of two messages");
    }
    if (n > 1) nontrivial(); stateHash(msgs.size()); for (auto &c : cnt) for (int x : c) stateHash(x); thrEnd();
}
// the same texts again and again, long ones and empty ones, up to many appenders
SIM_SCENARIO("L01", repeats, 1) {
    throwingAsserts(); thrBegin(); Console con; int n = range(S_CFG, 0, 1, 4); unsigned na = choose(S_CFG, 1, 3) == 2 ? 1 + choose(S_CFG, 2, 40) : choose(S_CFG, 2, 4);
    typedef std::pair<string, int> One; static vector<vector<One> > got; static vector<One> sent; got.resize(na);
    static const string texts[] = {"again", "again and again", "", string(5000, 'x')};
    for (unsigned i = 0; i < na; ++i) LintelLog::addAppender([i](const string &m, const LintelLog::LogType t) { NoPreempt np; got[i].push_back(One(m, t)); });
    for (int t = 0; t < n; ++t) spawn([&] { int k = range(S_WORK, tid(), 1, 6); unsigned w = choose(S_WORK, tid(), 4); for (int i = 0; i < k; ++i) { if (choose(S_WORK, tid(), 4) == 3) w = choose(S_WORK, tid(), 4); LintelLog::LogType ty = (LintelLog::LogType)choose(S_WORK, tid(), LintelLog::MaxLogType); { NoPreempt np; sent.push_back(One(texts[w], ty)); } LintelLog::log(texts[w], ty); } });
    joinAll(); size_t len[2] = {0, 0}; vector<One> want = sent; std::sort(want.begin(), want.end());
    for (One &o : sent) { Msg m; m.type = (LintelLog::LogType)o.second; m.text = o.first; len[m.type >= LintelLog::Warn] += consoleLine(m).size(); }
    if (na == 0) SIM_CHECK(con.out.data.size() == len[0] && con.err.data.size() == len[1], "console-lost", "%zu and %zu bytes on the console, the messages have %zu and %zu", con.out.data.size(), con.err.data.size(), len[0], len[1]);
    else SIM_CHECK(con.out.data.empty() && con.err.data.empty(), "console-unexpected", "console output although %u appenders are registered", na);
    for (unsigned i = 0; i < na; ++i) { SIM_CHECK(got[i] == got[0], "message-order-differs", "appenders 0 and %u were given different messages", i); vector<One> g = got[i]; std::sort(g.begin(), g.end()); SIM_CHECK(g == want, g.size() < want.size() ? "lost" : "duplicated", "%zu messages were logged, appender %u of %u got %zu", want.size(), i, na, g.size()); }
    if (n > 1) nontrivial(); stateHash(sent.size() * 64 + na); thrEnd();
}
// the appender that prints the time: the lines on the console carry the text and a time within the call
SIM_SCENARIO("L01", timed, 1) {
    throwingAsserts(); thrBegin(); Console con; int n = range(S_CFG, 0, 1, 4); setRealtime(((int64_t)range(S_CFG, 1, 0, 2000000000) * 1000000 + (choose(S_CFG, 2, 2) ? range(S_CFG, 3, 0, 999999) : range(S_CFG, 3, 0, 20000))) * 1000);
    if (chance(S_CFG, 4, 0.3)) { spawn([] { LintelLog::addAppender([](const string &, LintelLog::LogType) { point(1); }); }); probe("second-appender"); }
    LintelLog::addAppender(LintelLog::consoleTimeAppender); static std::map<int, int64_t> from, to;
    for (int t = 0; t < n; ++t) spawn([&, t] { int k = range(S_WORK, tid(), 1, 4); for (int i = 0; i < k; ++i) { Msg *m = newMsg(t, i, (LintelLog::LogType)choose(S_WORK, tid(), LintelLog::MaxLogType)); int me; { NoPreempt np; me = byText[m->text]; from[me] = realtimeNow(); } LintelLog::log(m->text, m->type); NoPreempt np; to[me] = realtimeNow(); if (chance(S_TIME, tid(), 0.3)) sleepNs(range(S_TIME, tid(), 1, 1200000000)); } });
    joinAll(); static const char *ty[] = {"", "DEBUG", "INFO", "WARN", "ERROR"}; size_t printed = 0;
    for (int e = 0; e < 2; ++e) { const string &d = e ? con.err.data : con.out.data; size_t p = 0; vector<int> last(n, -1);
        while (p < d.size()) { bool hit = false; for (size_t i = 0; i < msgs.size() && !hit; ++i) { Msg *m = msgs[i]; if (m->threw || (m->type >= LintelLog::Warn) != (e == 1)) continue; size_t q = p; long long sec = -1, us = 0;
                if (m->type != LintelLog::Report) { string h = string(ty[m->type]) + " @"; if (d.compare(q, h.size(), h)) continue; q += h.size(); size_t s0 = q; while (q < d.size() && isdigit(d[q])) ++q; if (q == s0 || q - s0 > 15 || q >= d.size() || d[q] != '.') continue; sec = atoll(d.c_str() + s0); ++q; size_t f0 = q; double sc = 1e6; double f = 0; while (q < d.size() && isdigit(d[q])) { sc /= 10; f += (d[q] - '0') * sc; ++q; } if (q == f0) continue; us = llround(f); if (d.compare(q, 2, ": ")) continue; q += 2; }
                if (d.compare(q, m->text.size() + 1, m->text + "\n")) continue;
                hit = true; m->threw = true; ++printed; p = q + m->text.size() + 1; SIM_CHECK(m->idx > last[m->thr], "console-reordered", "message %d of thread %d after message %d", m->idx, m->thr, last[m->thr]); last[m->thr] = m->idx;
                if (sec >= 0) { long long at = sec * 1000000 + us; SIM_CHECK(at >= from[i] / 1000 && at <= to[i] / 1000, "time-wrong", "\"%s\" was logged between %lld.%06lld and %lld.%06lld, printed as of %lld.%06lld: %s", m->text.c_str(), (long long)from[i] / 1000000000, (long long)from[i] / 1000 % 1000000, (long long)to[i] / 1000000000, (long long)to[i] / 1000 % 1000000, sec, us, d.c_str()); } }
            SIM_CHECK(hit, "console-garbled", "the console's stream %d goes on with \"%s\", which nobody logged or is there already", e, d.c_str() + p); } }
    SIM_CHECK(printed == msgs.size(), "console-lost", "%zu messages of %zu were printed", printed, msgs.size());
    if (n > 1) nontrivial(); stateHash(printed); thrEnd();
}
