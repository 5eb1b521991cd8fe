#define PART 3
#include "ops_misc.cpp"
