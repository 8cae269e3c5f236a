// Global operator new / delete that count live blocks and fail on request.
#include "c28.hpp"
#include <cstdlib>
#include <new>

namespace al {
long live = 0;      // blocks allocated and not yet released
long countdown = -1; // allocations until one fails; -1: never
long allocs = 0;
bool hit = false;
static void* get(std::size_t n, std::size_t a) {
   ++allocs;
   if(countdown >= 0) {
      if(countdown == 0) {
         hit = true;
         throw std::bad_alloc();
      }
      --countdown;
   }
   void* p = a > alignof(std::max_align_t) ? std::aligned_alloc(a, (n + a - 1) / a * a) : std::malloc(n ? n : 1);
   if(!p) throw std::bad_alloc();
   ++live;
   return p;
}
static void put(void* p) {
   if(p) {
      --live;
      std::free(p);
   }
}
} // namespace al
void* operator new(std::size_t n) { return al::get(n, 0); }
void* operator new[](std::size_t n) { return al::get(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return al::get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return al::get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { al::put(p); }
void operator delete[](void* p) noexcept { al::put(p); }
void operator delete(void* p, std::size_t) noexcept { al::put(p); }
void operator delete[](void* p, std::size_t) noexcept { al::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { al::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { al::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { al::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { al::put(p); }
// The non-throwing forms may fail silently and their callers have a fallback: they never fail here.
static void* nothrow_(std::size_t n, std::size_t a) noexcept {
   auto c = al::countdown;
   al::countdown = -1;
   void* p = al::get(n, a);
   al::countdown = c;
   return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return nothrow_(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return nothrow_(n, 0); }
