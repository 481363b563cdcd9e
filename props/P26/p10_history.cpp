#define PBT_PREFIX "P10.history."
#define PBT_DIV 375
#include "../P10/history.cpp"
