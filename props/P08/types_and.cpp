#define OP_ 1
#include "arbset.hpp"
PAIRS(and_types)
