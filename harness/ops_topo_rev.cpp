// The same calls over transposed views.
#define TRANSPOSED
#include "ops_topo.cpp"
