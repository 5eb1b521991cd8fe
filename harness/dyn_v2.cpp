#include "dyn_machine.hpp"
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
using namespace graph::container;
#define DG(T, EV, VV, GV, VID) dynamic_graph<EV, VV, GV, VID, false, T<EV, VV, GV, VID, false>>
COMBO("mov Val Val void uint32_t", DG(mov_graph_traits, Val, Val, void, uint32_t))
COMBO("mov ValT ValT Val string", DG(mov_graph_traits, ValT, ValT, Val, std::string))
COMBO("mol Val void void string", DG(mol_graph_traits, Val, void, void, std::string))
COMBO("mofl ValT Val void int", DG(mofl_graph_traits, ValT, Val, void, int))
COMBO("mod void ValT void uint64_t", DG(mod_graph_traits, void, ValT, void, uint64_t))
COMBO("mov ValT Val void int64_t", DG(mov_graph_traits, ValT, Val, void, int64_t))
