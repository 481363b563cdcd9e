#define PBT_PREFIX "P12.general."
#define PBT_DIV 25
#include "../P12/general.cpp"
