#define PBT_PREFIX "P21.simplify."
#define PBT_DIV 50
#include "../P21/simplify.cpp"
