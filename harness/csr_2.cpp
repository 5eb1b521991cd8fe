#include "csr_machine.hpp"
CSR(Val, void, void, uint8_t, uint32_t)
CSR(void, ValT, Val, uint64_t, uint16_t)
CSR(ValT, Val, ValT, int, uint32_t)
