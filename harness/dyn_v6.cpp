#include "dyn_machine.hpp"
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("uov Val Val void uint32_t", DG(uov_graph_traits, Val, Val, void, uint32_t))
COMBO("uov ValT ValT void string", DG(uov_graph_traits, ValT, ValT, void, std::string))
COMBO("uod ValT void void int64_t", DG(uod_graph_traits, ValT, void, void, int64_t))
COMBO("uol Val Val Val string", DG(uol_graph_traits, Val, Val, Val, std::string))
COMBO("uofl void ValT void uint32_t", DG(uofl_graph_traits, void, ValT, void, uint32_t))
