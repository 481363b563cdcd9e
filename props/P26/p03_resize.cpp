#define PBT_PREFIX "P03.resize."
#define PBT_DIV 75
#include "../P03/resize.cpp"
