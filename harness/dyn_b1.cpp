#include "dyn_bidir.hpp"
COMBO("Val Val Val uint32_t vector vector vector", BG(Val, Val, Val, uint32_t, vector, vector, vector))
COMBO("ValT ValT void uint32_t list list deque", BG(ValT, ValT, void, uint32_t, list, list, deque))
COMBO("void void void uint32_t forward_list forward_list vector", BG(void, void, void, uint32_t, forward_list, forward_list, vector))
COMBO("ValT void void uint64_t deque deque vector", BG(ValT, void, void, uint64_t, deque, deque, vector))
