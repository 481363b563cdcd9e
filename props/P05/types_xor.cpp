#define OP_ 2
#include "common.hpp"
PAIRS(types_xor)
