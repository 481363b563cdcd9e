#define PBT_PREFIX "P22.structure."
#define PBT_DIV 50
#include "../P22/structure.cpp"
