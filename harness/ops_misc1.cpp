#define PART 1
#include "ops_misc.cpp"
