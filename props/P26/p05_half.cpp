#define PBT_PREFIX "P05.half."
#define PBT_DIV 100
#include "../P05/half.cpp"
