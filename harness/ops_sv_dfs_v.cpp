#include "searchview.hpp"
OP("vertices_dfs view", 4, ANY) { searchview::pick<true, false>(w); }
OP("vertices_dfs view, undirected", 2, UNDIRECTED) { searchview::pick_undirected<true, false>(w); }
