#define PBT_PREFIX "P05.sets."
#define PBT_DIV 100
#include "../P05/sets.cpp"
