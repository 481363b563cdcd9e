#define PBT_PREFIX "P25.invariance."
#define PBT_DIV 50
#include "../P25/invariance.cpp"
