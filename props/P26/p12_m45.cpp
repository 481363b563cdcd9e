#define PBT_PREFIX "P12.m45."
#define PBT_DIV 50
#include "../P12/m45.cpp"
