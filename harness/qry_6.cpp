// dynamic graphs: vertices in a map
#include "query.hpp"
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, VID) dynamic_graph<EV, VV, int, VID, false, T<EV, VV, int, VID, false>>
#define DQ(T, EV, VV, VID, K, DEDUP)                                                                                   \
  using G_##T = DG(T, EV, VV, VID);                                                                                    \
  QUERY("dynamic " #T, G_##T, K, Dynamic<query::K>, (!std::is_void_v<EV>), DEDUP)
DQ(mov_graph_traits, int, int, uint64_t, Sparse, false)
DQ(mod_graph_traits, int, int, std::string, Sparse, false)
DQ(mol_graph_traits, int, int, int, Sparse, false)
DQ(mofl_graph_traits, int, int, std::string, Sparse, false)
DQ(mos_graph_traits, int, int, int64_t, Sparse, true)
DQ(mous_graph_traits, int, int, std::string, Sparse, true)
DQ(mom_graph_traits, int, int, std::string, Sparse, true)
using CM = const DG(mol_graph_traits, int, int, uint32_t);
QUERY("const dynamic mol", CM, Sparse, Dynamic<query::Sparse>, true, false)
