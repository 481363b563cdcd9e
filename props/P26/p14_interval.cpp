#define PBT_PREFIX "P14.interval."
#define PBT_DIV 100
#include "../P14/interval.cpp"
