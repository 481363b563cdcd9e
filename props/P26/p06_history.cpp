#define PBT_PREFIX "P06.history."
#define PBT_DIV 100
#include "../P06/history.cpp"
