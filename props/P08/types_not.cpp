#define OP_ 3
#include "arbset.hpp"
PAIRS(not_types)
