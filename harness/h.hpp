#ifndef H_HPP
#define H_HPP
#include "thr.hpp"
#include <Lintel/AssertBoost.hpp>
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>
using namespace dsim;
using std::string; using std::vector;
struct TestExc { int v; TestExc(int v) : v(v) { } };
inline void throwingAsserts() { AssertBoostClearFns(); AssertBoostFnBefore(AssertBoostThrowExceptionFn); }
// expects fn to fail an assertion (turned into AssertBoostException)
template<class F> bool fatal(F fn, string *msg = NULL) { try { fn(); } catch (AssertBoostException &e) { if (msg) *msg = e.msg; return true; } return false; }
#endif
