#define PBT_PREFIX "P19.segments."
#define PBT_DIV 50
#include "../P19/segments.cpp"
