#define OP_ 1
#include "common.hpp"
PAIRS(types_and)
