#include "h01.hpp"
