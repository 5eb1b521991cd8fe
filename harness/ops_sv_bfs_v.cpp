#include "searchview.hpp"
OP("vertices_bfs view", 4, ANY) { searchview::pick<false, false>(w); }
OP("vertices_bfs view, undirected", 2, UNDIRECTED) { searchview::pick_undirected<false, false>(w); }
