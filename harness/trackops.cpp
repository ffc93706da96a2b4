// operator new/delete in a translation unit of their own, so that the code under test is optimized
// as in a program that uses the ordinary ones.
#include <cstdlib>
#include <cstddef>
#include <new>
void (*volatile vf_on_new)(void*, size_t) = nullptr;
void (*volatile vf_on_del)(void*) = nullptr;
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (vf_on_new) vf_on_new(p, n); return p; }
static void drop(void* p) { if (!p) return; if (vf_on_del) vf_on_del(p); free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
