// The work clock of P16 counts basic blocks; what the C library does in bulk (moving a vector's elements up by one, say)
// is counted by its size. Linked with --wrap for these four functions.
#include <cstddef>
namespace sim {
void bulk_work(size_t n);
}
extern "C" {
void* __real_memmove(void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int   __real_memcmp(const void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
  sim::bulk_work(n);
  return __real_memmove(d, s, n);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  sim::bulk_work(n);
  return __real_memcpy(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  sim::bulk_work(n);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  sim::bulk_work(n);
  return __real_memcmp(a, b, n);
}
}
