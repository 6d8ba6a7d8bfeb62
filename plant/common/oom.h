#pragma once
// The n-th allocation of this thread from now on fails (0: none).
#include <cstdlib>
#include <new>
inline thread_local long failIn = 0;
inline thread_local bool failed = false;
static void* get(std::size_t n) { if (failIn > 0 && --failIn == 0) { failed = true; throw std::bad_alloc(); } if (auto p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
