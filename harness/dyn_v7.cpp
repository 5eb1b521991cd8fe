#include "dyn_machine.hpp"
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("uos ValT Val void uint32_t", DG(uos_graph_traits, ValT, Val, void, uint32_t))
COMBO("uos Val void void string", DG(uos_graph_traits, Val, void, void, std::string))
COMBO("uous ValT Val void uint64_t", DG(uous_graph_traits, ValT, Val, void, uint64_t))
COMBO("uous Val Val void string", DG(uous_graph_traits, Val, Val, void, std::string))
COMBO("mom Val void Val int64_t", DG(mom_graph_traits, Val, void, Val, int64_t))
