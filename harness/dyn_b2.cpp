#include "dyn_bidir.hpp"
COMBO("Val Val void uint32_t set set vector", BG(Val, Val, void, uint32_t, set, set, vector))
COMBO("ValT void void uint32_t map_u32 map_u32 vector", BG(ValT, void, void, uint32_t, map_u32, map_u32, vector))
COMBO("void ValT void uint32_t unordered_set unordered_set deque", BG(void, ValT, void, uint32_t, unordered_set, unordered_set, deque))
COMBO("ValT Val void uint32_t umap_u32 umap_u32 vector", BG(ValT, Val, void, uint32_t, umap_u32, umap_u32, vector))
