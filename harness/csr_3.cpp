#include "csr_machine.hpp"
CSR(ValT, void, Val, uint16_t, uint8_t)
CSR(Val, ValT, void, uint8_t, uint64_t)
CSR(void, Val, void, int64_t, int)
