#define PBT_PREFIX "P23.geometry."
#define PBT_DIV 50
#include "../P23/geometry.cpp"
