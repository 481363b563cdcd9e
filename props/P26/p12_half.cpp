#define PBT_PREFIX "P12.half."
#define PBT_DIV 50
#include "../P12/half.cpp"
