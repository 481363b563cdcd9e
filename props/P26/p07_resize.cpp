#define PBT_PREFIX "P07.resize."
#define PBT_DIV 375
#include "../P07/resize.cpp"
