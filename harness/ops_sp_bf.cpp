// Bellman-Ford and negative cycles: the same call family in a second translation unit (compiled in parallel).
#define SP_BELLMAN
#include "ops_sp.cpp"
