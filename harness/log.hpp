#ifndef LOG_HPP
#define LOG_HPP
#include "h.hpp"
#include <Lintel/LintelLog.hpp>
#include <streambuf>
#include <iostream>
#include <map>
#include <set>
// records what is written to a standard stream; each write is a schedule point
struct RecBuf : std::streambuf {
    string data; const char *nm; RecBuf(const char *n) : nm(n) { }
    int overflow(int c) { if (c != EOF) { point(1); NoPreempt np; data += (char)c; } return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) { point(1); NoPreempt np; data.append(s, n); return n; }
    int sync() { point(1); return 0; }
};
struct Console { RecBuf out, err; std::streambuf *o, *e; Console() : out("out"), err("err") { o = std::cout.rdbuf(&out); e = std::cerr.rdbuf(&err); } ~Console() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Msg { int thr, idx; LintelLog::LogType type; string text; uint64_t start, end; bool threw; int thrower; bool sent; };
struct Rec { int msg; uint64_t seq; };
struct App { uint64_t start, end; vector<Rec> got; int id; };
inline string consoleLine(const Msg &m) { static const char *p[] = {"", "DEBUG: ", "INFO: ", "WARN: ", "ERROR: "}; return p[m.type] + m.text + "\n"; }
#endif
