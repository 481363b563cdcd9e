#define PBT_PREFIX "P06.outputs."
#define PBT_DIV 100
#include "../P06/outputs.cpp"
