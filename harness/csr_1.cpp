#include "csr_machine.hpp"
CSR(Val, Val, Val, uint32_t, uint32_t)
CSR(ValT, ValT, void, uint32_t, uint64_t)
CSR(void, void, void, uint32_t, uint32_t)
