#include "d01.hpp"
