#define PBT_PREFIX "P02.out."
#define PBT_DIV 75
#include "../P02/out.cpp"
