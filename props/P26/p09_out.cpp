#define PBT_PREFIX "P09.out."
#define PBT_DIV 100
#include "../P09/out.cpp"
