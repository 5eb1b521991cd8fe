#include "searchview.hpp"
OP("edges_bfs view", 4, ANY) { searchview::pick<false, true>(w); }
OP("edges_bfs view, undirected", 2, UNDIRECTED) { searchview::pick_undirected<false, true>(w); }
