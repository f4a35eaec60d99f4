#define DBG 1
#define DEBUG 1
#define PriorityQueue PriorityQueue_checked
#include "q01.hpp"
