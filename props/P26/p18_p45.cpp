#define POLY_LIM (1 << 29)  // products of differences stay below 2^63
#define PBT_PREFIX "P18.p45."
#define PBT_DIV 250
#include "../P18/p45.cpp"
