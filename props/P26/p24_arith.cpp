#define PBT_PREFIX "P24.arith."
#define PBT_DIV 50
#include "../P24/arith.cpp"
