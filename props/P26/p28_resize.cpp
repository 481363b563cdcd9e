#define PBT_PREFIX "P28.resize."
#define PBT_DIV 250
#include "../P28/resize.cpp"
