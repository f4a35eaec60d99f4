#include "h02.hpp"
