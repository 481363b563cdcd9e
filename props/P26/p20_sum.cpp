#define PBT_PREFIX "P20.sum."
#define PBT_DIV 50
#include "../P20/sum.cpp"
