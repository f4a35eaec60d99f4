#include "b02.hpp"
