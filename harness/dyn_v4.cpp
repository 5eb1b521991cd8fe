#include "dyn_machine.hpp"
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("vous ValT Val Val uint32_t", DG(vous_graph_traits, ValT, Val, Val, uint32_t))
COMBO("vom Val ValT void uint32_t", DG(vom_graph_traits, Val, ValT, void, uint32_t))
COMBO("vom ValT void void uint16_t", DG(vom_graph_traits, ValT, void, void, uint16_t))
COMBO("voum ValT Val void uint32_t", DG(voum_graph_traits, ValT, Val, void, uint32_t))
COMBO("voum void void void uint64_t", DG(voum_graph_traits, void, void, void, uint64_t))
