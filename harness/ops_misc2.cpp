#define PART 2
#include "ops_misc.cpp"
