// Counts the live heap bytes allocated through operator new.
#include <malloc.h>

#include <cstdlib>
#include <new>

#include "inject.h"

namespace vt {
std::atomic<int64_t> gLiveBytes{0}, gPeakBytes{0};
}
static void *take(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  const int64_t live = vt::gLiveBytes.fetch_add(int64_t(malloc_usable_size(p))) +
                       int64_t(malloc_usable_size(p));
  int64_t peak = vt::gPeakBytes.load();
  while (live > peak && !vt::gPeakBytes.compare_exchange_weak(peak, live)) {
  }
  return p;
}
static void give(void *p) {
  if (!p) return;
  vt::gLiveBytes.fetch_sub(int64_t(malloc_usable_size(p)));
  std::free(p);
}
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
