#define OP_ 0
#include "arbset.hpp"
PAIRS(or_types)
