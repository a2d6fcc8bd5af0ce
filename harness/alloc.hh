// Memory runs out early and politely: a request for more than half a gigabyte
// throws std::bad_alloc (the sanitizer's own operator new would end the process).
#include <new>
#include <cstdlib>
static void *pbt_alloc(size_t n) { if (n <= (512u << 20)) if (void *p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void *operator new(size_t n) { return pbt_alloc(n); }
void *operator new[](size_t n) { return pbt_alloc(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return n <= (512u << 20) ? std::malloc(n ? n : 1) : nullptr; }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return n <= (512u << 20) ? std::malloc(n ? n : 1) : nullptr; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
