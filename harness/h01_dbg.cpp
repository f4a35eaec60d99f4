#define DBG 1
#define DEBUG 1
#define HashTable HashTable_checked
#define HashMap HashMap_checked
#define HashUnique HashUnique_checked
#include "h01.hpp"
