#define COMP_PART2
#include "ops_comp.cpp"
