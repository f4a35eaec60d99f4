#include "alloc.hpp"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
extern "C" __attribute__((weak)) const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16:max_malloc_fill_size=4096:symbolize=0"; }
namespace dsim {
static bool lib, sticky; extern bool *lib_scope; bool *lib_scope = &lib; static unsigned armedAt, points, fired;
// open addressing set of live blocks allocated in Lib scope
enum { CAP = 1 << 17 }; static void *tab[CAP]; static size_t live; static void *const TOMB = (void *)1;
static size_t slot(void *p) { return (size_t)mix64((uint64_t)p) & (CAP - 1); }
static void add(void *p) { size_t i = slot(p), n = 0; while (tab[i] && tab[i] != TOMB) { i = (i + 1) & (CAP - 1); if (++n > CAP - 8) simError("block table full"); } tab[i] = p; ++live; }
static void del(void *p) { size_t i = slot(p), n = 0; while (tab[i] && n++ < CAP) { if (tab[i] == p) { tab[i] = tab[(i + 1) & (CAP - 1)] ? TOMB : NULL; --live; return; } i = (i + 1) & (CAP - 1); } }
Lib::Lib() : was(lib) { lib = true; } Lib::~Lib() { lib = was; }
Unlib::Unlib() : was(lib) { lib = false; } Unlib::~Unlib() { lib = was; }
bool inLib() { return lib; }
void armFault(unsigned k, bool s) { armedAt = k; sticky = s; points = fired = 0; }
unsigned disarmFault() { armedAt = 0; return fired; }
unsigned faultPoints() { return points; }
bool faultFired() { return fired != 0; }
bool faultPoint(const char *kind) {
    if (!lib) return false;
    ++points;
    if (armedAt && (points == armedAt || (sticky && points > armedAt))) { ++fired; if (fired == 1) { Unlib u; fault(kind); note("   ! %s at fault point %u", kind, points); } return true; }
    return false;
}
size_t libBlocks() { return live; }
bool maybeArm(unsigned sub, double p, unsigned span) {
    if (!faultsEnabled() || !chance(S_FAULT, sub, p)) { armFault(0, false); return false; }
    unsigned k = 1 + (choose(S_FAULT, sub, 2) ? choose(S_FAULT, sub, span) : choose(S_FAULT, sub, 4)); armFault(k, choose(S_FAULT, sub, 4) == 1); return true;
}
static void *alloc(size_t n, bool nothrow) {
    if (lib && faultPoint("alloc-fails")) { if (nothrow) return NULL; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1); if (!p) { if (nothrow) return NULL; throw std::bad_alloc(); }
    if (lib) add(p);
    return p;
}
static void release(void *p) { if (!p) return; if (live) del(p); free(p); }
struct CpuLimit { CpuLimit() { on_run_begin = [] { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 4; setitimer(ITIMER_VIRTUAL, &it, NULL); }; } } cpuLimit;
}
void *operator new(size_t n) { return dsim::alloc(n, false); }
void *operator new[](size_t n) { return dsim::alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return dsim::alloc(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return dsim::alloc(n, true); }
void operator delete(void *p) noexcept { dsim::release(p); }
void operator delete[](void *p) noexcept { dsim::release(p); }
void operator delete(void *p, size_t) noexcept { dsim::release(p); }
void operator delete[](void *p, size_t) noexcept { dsim::release(p); }
