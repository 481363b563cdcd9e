#define OP_ 2
#include "arbset.hpp"
PAIRS(xor_types)
