#define ELEM_NO_MOVE 1
#include "h02.hpp"
