// dynamic graphs: vertices in a deque; const graphs
#include "query.hpp"
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, VID) dynamic_graph<EV, VV, int, VID, false, T<EV, VV, int, VID, false>>
#define DQ(T, EV, VV, VID, K, DEDUP)                                                                                   \
  using G_##T = DG(T, EV, VV, VID);                                                                                    \
  QUERY("dynamic " #T, G_##T, K, Dynamic<query::K>, (!std::is_void_v<EV>), DEDUP)
DQ(dov_graph_traits, int, int, uint32_t, Index, false)
DQ(dod_graph_traits, int, int, uint32_t, Index, false)
DQ(dol_graph_traits, int, int, uint16_t, Index, false)
DQ(dofl_graph_traits, int, int, uint32_t, Index, false)
DQ(dos_graph_traits, int, int, uint32_t, Index, true)
DQ(dous_graph_traits, int, int, uint32_t, Index, true)
using CV = const DG(vov_graph_traits, int, int, uint32_t);
QUERY("const dynamic vov", CV, Index, Dynamic<query::Index>, true, false)
using CL = const DG(dol_graph_traits, int, int, uint32_t);
QUERY("const dynamic dol", CL, Index, Dynamic<query::Index>, true, false)
