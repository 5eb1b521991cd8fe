#include "dyn_machine.hpp"
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("vov Val Val Val", DG(vov_graph_traits, Val, Val, Val, uint32_t))
COMBO("vov ValT ValT void", DG(vov_graph_traits, ValT, ValT, void, uint64_t))
COMBO("vov void void void", DG(vov_graph_traits, void, void, void, uint32_t))
COMBO("vod Val ValT void", DG(vod_graph_traits, Val, ValT, void, int))
COMBO("vol ValT Val Val", DG(vol_graph_traits, ValT, Val, Val, uint32_t))
COMBO("vofl Val void void", DG(vofl_graph_traits, Val, void, void, uint8_t))
