#define DBG 1
#define DEBUG 1
#define HashTable HashTable_checked
#define HashMap HashMap_checked
#define RotatingHashMap RotatingHashMap_checked
#include "h02.hpp"
