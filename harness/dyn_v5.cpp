#include "dyn_machine.hpp"
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("dov Val Val void uint32_t", DG(dov_graph_traits, Val, Val, void, uint32_t))
COMBO("dod ValT void void int", DG(dod_graph_traits, ValT, void, void, int))
COMBO("dol void Val Val uint32_t", DG(dol_graph_traits, void, Val, Val, uint32_t))
COMBO("dofl ValT ValT void uint32_t", DG(dofl_graph_traits, ValT, ValT, void, uint32_t))
COMBO("dos Val void void uint32_t", DG(dos_graph_traits, Val, void, void, uint32_t))
COMBO("dous ValT Val void uint32_t", DG(dous_graph_traits, ValT, Val, void, uint32_t))
