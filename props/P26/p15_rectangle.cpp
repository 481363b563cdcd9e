#define PBT_PREFIX "P15.rectangle."
#define PBT_DIV 100
#include "../P15/rectangle.cpp"
