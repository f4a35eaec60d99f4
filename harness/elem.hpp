// an element type whose life is tracked and whose copies can fail
#ifndef ELEM_HPP
#define ELEM_HPP
#include "alloc.hpp"
#include <Lintel/AssertBoost.hpp>
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <new>
#include <string>
#include <vector>
#include <ostream>
#include <stdio.h>
#include <string.h>
using namespace dsim; using std::string; using std::vector;
struct CopyFail { };
inline void throwingAsserts() { AssertBoostClearFns(); AssertBoostFnBefore(AssertBoostThrowExceptionFn); }
template<class F> bool fatal(F fn, string *msg = NULL) { try { fn(); } catch (AssertBoostException &e) { if (msg) *msg = e.msg; return true; } return false; }
struct LifeTable { std::unordered_set<const void *> live; };
inline LifeTable &life() { static LifeTable *t = new LifeTable; return *t; }
inline void lifeBegin(const void *p, int v) { Unlib u; if (!life().live.insert(p).second) violate("constructed-twice", "an element was constructed over a live one (value %d)", v); }
inline void lifeEnd(const void *p, int v) { Unlib u; if (!life().live.erase(p)) violate("destroyed-twice", "an element that is not alive was destroyed (value %d)", v); }
inline void lifeUse(const void *p, const char *what) { Unlib u; if (!life().live.count(p)) violate("dead-element-used", "%s of an element that is not alive", what); }
// Elem<false>: copies fail by allocation or by themselves; swap (moves) never fails
#ifdef ELEM_NO_MOVE
#define Elem ElemCopyOnly
#endif
struct Elem {
    int v; int *own;
    Elem() : v(0), own(make(0)) { lifeBegin(this, 0); }
    explicit Elem(int x) : v(x), own(make(x)) { lifeBegin(this, x); }
    Elem(const Elem &o) : v(o.v), own(copyOf(o)) { lifeBegin(this, v); }
#ifndef ELEM_NO_MOVE
    Elem(Elem &&o) noexcept : v(o.v), own(o.own) { lifeUse(&o, "move"); o.own = NULL; lifeBegin(this, v); }
#endif
    Elem &operator=(const Elem &o) { lifeUse(this, "assignment to"); int *n = copyOf(o); delete own; own = n; v = o.v; return *this; }
#ifndef ELEM_NO_MOVE
    Elem &operator=(Elem &&o) noexcept { lifeUse(this, "assignment to"); lifeUse(&o, "move"); std::swap(v, o.v); std::swap(own, o.own); return *this; }
#endif
    ~Elem() { lifeEnd(this, v); delete own; own = NULL; }
    static int *make(int x) { return new int(x); }
    static int *copyOf(const Elem &o) { lifeUse(&o, "copy"); if (faultPoint("element-copy-fails")) throw CopyFail(); return o.own ? new int(*o.own) : NULL; }
    int get() const { lifeUse(this, "read"); SIM_CHECK(own && *own == v, "element-corrupt", "element %d has lost its contents", v); return v; }
    bool operator==(const Elem &o) const { return get() == o.get(); }
};
inline std::ostream &operator<<(std::ostream &o, const Elem &e) { return o << e.v; }
inline size_t elemsAlive() { return life().live.size(); }
enum Outcome { DONE, FAILED, FATAL };
// runs fn as code under test; FAILED: an injected failure came out; FATAL: an assertion failed
template<class F> Outcome attempt(F fn, string *msg = NULL) {
    Outcome r = DONE; bool was = inLib();
    try { Lib l; fn(); } catch (CopyFail &) { r = FAILED; } catch (std::bad_alloc &) { r = FAILED; } catch (AssertBoostException &e) { r = FATAL; if (msg) *msg = e.msg; }
    (void)was; if (r == FAILED && !faultFired()) violate("spurious-failure", "the operation failed although nothing was made to fail");
    if (r == FAILED) probe("failed-operation"); 
    disarmFault(); return r;
}
#endif
