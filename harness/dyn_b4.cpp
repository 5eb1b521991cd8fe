#include "dyn_bidir.hpp"
// out- and in-edges in different containers; both accept parallel edges or neither does
COMBO("Val void void uint32_t vector list vector", BG(Val, void, void, uint32_t, vector, list, vector))
COMBO("ValT Val void uint32_t forward_list vector deque", BG(ValT, Val, void, uint32_t, forward_list, vector, deque))
COMBO("Val ValT void uint32_t map_u32 set map_u32", BG(Val, ValT, void, uint32_t, map_u32, set, map_u32))
COMBO("ValT void Val uint32_t unordered_set set umap_u32", BG(ValT, void, Val, uint32_t, unordered_set, set, umap_u32))
