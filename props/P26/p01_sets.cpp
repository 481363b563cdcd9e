#define PBT_PREFIX "P01.sets."
#define PBT_DIV 500
#include "../P01/sets.cpp"
