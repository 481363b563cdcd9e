#define PBT_PREFIX "P04.state."
#define PBT_DIV 375
#include "../P04/state.cpp"
