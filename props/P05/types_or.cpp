#define OP_ 0
#include "common.hpp"
PAIRS(types_or)
