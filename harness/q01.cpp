#include "q01.hpp"
