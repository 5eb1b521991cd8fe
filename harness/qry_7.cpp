// dynamic graphs: vertices in an unordered_map
#include "query.hpp"
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, VID) dynamic_graph<EV, VV, int, VID, false, T<EV, VV, int, VID, false>>
#define DQ(T, EV, VV, VID, K, DEDUP)                                                                                   \
  using G_##T = DG(T, EV, VV, VID);                                                                                    \
  QUERY("dynamic " #T, G_##T, K, Dynamic<query::K>, (!std::is_void_v<EV>), DEDUP)
DQ(uov_graph_traits, int, int, uint32_t, Sparse, false)
DQ(uod_graph_traits, int, int, std::string, Sparse, false)
DQ(uol_graph_traits, int, int, int, Sparse, false)
DQ(uofl_graph_traits, int, int, int64_t, Sparse, false)
DQ(uos_graph_traits, int, int, std::string, Sparse, true)
DQ(uous_graph_traits, int, int, uint32_t, Sparse, true)
using CU = const DG(uov_graph_traits, int, int, std::string);
QUERY("const dynamic uov", CU, Sparse, Dynamic<query::Sparse>, true, false)
