#define POLY_LIM (1 << 29)  // products of differences stay below 2^63
#define PBT_PREFIX "P18.general."
#define PBT_DIV 50
#include "../P18/general.cpp"
