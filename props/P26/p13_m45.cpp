#define PBT_PREFIX "P13.m45."
#define PBT_DIV 50
#include "../P13/m45.cpp"
