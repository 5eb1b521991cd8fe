#include "dyn_bidir.hpp"
COMBO("Val ValT void int64_t vector vector map_i64", BG(Val, ValT, void, int64_t, vector, vector, map_i64))
COMBO("ValT Val Val string list list map_str", BG(ValT, Val, Val, std::string, list, list, map_str))
COMBO("Val void void uint32_t vector vector umap_u32", BG(Val, void, void, uint32_t, vector, vector, umap_u32))
COMBO("ValT Val void string set set umap_str", BG(ValT, Val, void, std::string, set, set, umap_str))
