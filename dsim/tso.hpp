// dsim machine simulator: instruction-level interleavings and per-thread store buffers (x86-TSO).
#ifndef DSIM_TSO_HPP
#define DSIM_TSO_HPP
#include "thr.hpp"
namespace dsim {
void tsoBegin();           // after thrBegin
void tsoEnd();
bool tsoPending(int t);    // does this thread have stores other threads cannot see yet?
}
#endif
