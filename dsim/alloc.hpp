// allocation and copy-failure simulator: inside a Lib scope every operator new, element copy and user callback is a fault point
#ifndef DSIM_ALLOC_HPP
#define DSIM_ALLOC_HPP
#include "core.hpp"
namespace dsim {
struct Lib { Lib(); ~Lib(); bool was; };        // code under test is running
struct Unlib { Unlib(); ~Unlib(); bool was; };  // back to harness code for a moment
bool inLib();
void armFault(unsigned k, bool sticky);         // the k-th fault point from now fails (0: none); sticky: all later ones too
unsigned disarmFault();                         // returns how many fault points failed since arming
unsigned faultPoints();                         // fault points passed since arming
bool faultPoint(const char *kind);              // true: fail now
bool faultFired();
size_t libBlocks();                             // blocks allocated by code under test and not yet freed
// draws from S_FAULT whether and where the next operation fails
bool maybeArm(unsigned sub, double p, unsigned span);
}
#endif
