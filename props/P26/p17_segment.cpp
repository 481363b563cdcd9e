#define PBT_PREFIX "P17.segment."
#define PBT_DIV 100
#include "../P17/segment.cpp"
