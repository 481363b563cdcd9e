#define PBT_PREFIX "P08.sets."
#define PBT_DIV 375
#include "../P08/sets.cpp"
