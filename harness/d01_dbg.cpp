#define DBG 1
#define DEBUG 1
#define Deque Deque_checked
#include "d01.hpp"
