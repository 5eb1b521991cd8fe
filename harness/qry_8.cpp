// compressed, bidirectional and undirected graphs, edges without values
#include "query.hpp"
using namespace graph::container;
using CGI = compressed_graph<int, int, int, uint32_t, uint32_t>;
QUERY("compressed", CGI, Index, Compressed, true, false)
QUERY("const compressed", const CGI, Index, Compressed, true, false)
using BV = dynamic_graph<int, int, void, Vid, true, bidir_traits<int, int, void, Vid, std::vector, std::vector>>;
QUERY("bidirectional vector", BV, Index, Dynamic<query::Index>, true, false)
QUERY("const bidirectional vector", const BV, Index, Dynamic<query::Index>, true, false)
using BL = dynamic_graph<int, int, void, Vid, true, bidir_traits<int, int, void, Vid, std::list, std::deque>>;
QUERY("bidirectional list", BL, Index, Dynamic<query::Index>, true, false)
QUERY("undirected", UAL, Index, Undirected, true, false)
QUERY("const undirected", const UAL, Index, Undirected, true, false)
QUERY("a vector of the caller's own ranges", VSV, Index, Plain<query::Index>, true, false)
