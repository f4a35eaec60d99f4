#define ELEM_NO_MOVE 1
#include "h01.hpp"
