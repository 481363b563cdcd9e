#define OP_ 3
#include "common.hpp"
PAIRS(types_not)
