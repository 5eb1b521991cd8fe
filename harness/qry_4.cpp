// dynamic graphs: vertices in a vector
#include "query.hpp"
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, VID) dynamic_graph<EV, VV, int, VID, false, T<EV, VV, int, VID, false>>
#define DQ(T, EV, VV, VID, K, DEDUP)                                                                                   \
  using G_##T = DG(T, EV, VV, VID);                                                                                    \
  QUERY("dynamic " #T, G_##T, K, Dynamic<query::K>, (!std::is_void_v<EV>), DEDUP)
DQ(vov_graph_traits, int, int, uint32_t, Index, false)
DQ(vod_graph_traits, int, int, uint64_t, Index, false)
DQ(vol_graph_traits, int, int, int, Index, false)
DQ(vofl_graph_traits, int, int, uint32_t, Index, false)
DQ(vos_graph_traits, int, int, uint32_t, Index, true)
DQ(vous_graph_traits, int, int, uint32_t, Index, true)
DQ(vom_graph_traits, int, int, uint32_t, Index, true)
DQ(voum_graph_traits, int, int, uint32_t, Index, true)
