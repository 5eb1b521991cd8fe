#include "dyn_machine.hpp"
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("mos Val Val void uint32_t", DG(mos_graph_traits, Val, Val, void, uint32_t))
COMBO("mous ValT void void int64_t", DG(mous_graph_traits, ValT, void, void, int64_t))
COMBO("mom ValT Val void string", DG(mom_graph_traits, ValT, Val, void, std::string))
COMBO("vos Val Val void uint32_t", DG(vos_graph_traits, Val, Val, void, uint32_t))
COMBO("vos void void void uint32_t", DG(vos_graph_traits, void, void, void, uint32_t))
