#define PBT_PREFIX "P16.algebra."
#define PBT_DIV 100
#include "../P16/algebra.cpp"
