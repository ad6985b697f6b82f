#include <cstddef>
#include <new>
extern "C" { void *hv_malloc(size_t); void hv_free(void *); }
void *operator new(size_t n) { return hv_malloc(n ? n : 1); }
void *operator new[](size_t n) { return hv_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { hv_free(p); }
void operator delete[](void *p) noexcept { hv_free(p); }
void operator delete(void *p, size_t) noexcept { hv_free(p); }
void operator delete[](void *p, size_t) noexcept { hv_free(p); }
