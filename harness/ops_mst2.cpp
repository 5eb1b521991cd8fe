#define MST_PART2
#include "ops_mst.cpp"
