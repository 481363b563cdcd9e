#define PBT_PREFIX "P13.general."
#define PBT_DIV 25
#include "../P13/general.cpp"
