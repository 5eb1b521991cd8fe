#include "searchview.hpp"
OP("edges_dfs view", 4, ANY) { searchview::pick<true, true>(w); }
OP("edges_dfs view, undirected", 2, UNDIRECTED) { searchview::pick_undirected<true, true>(w); }
