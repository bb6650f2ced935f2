// The heap of the driver: freed memory is overwritten (a string that is used
// after its life is seen), a block freed twice is seen, and what the watcher
// allocates is counted.
#pragma once
#include "shim.hpp"
#include <new>

namespace mem {
struct Head {
  uint64_t magic;
  uint64_t size;
};
inline constexpr uint64_t LIVE = 0x6c69766562656566, DEAD = 0xdeaddeaddeaddead;
inline std::atomic<long> ours{0}; // blocks allocated by watchers which are still there

inline bool role() { return (shim::tl_w || shim::tl_role) && ! shim::tl_in && ! shim::tl_own; }

inline void* get(size_t n)
{
  auto* h = (Head*)malloc(n + sizeof(Head));
  if (! h) throw std::bad_alloc();
  h->magic = LIVE;
  h->size = n << 1 | (role() ? 1 : 0);
  if (h->size & 1) ++ours;
  return h + 1;
}
inline void put(void* p)
{
  if (! p) return;
  auto* h = (Head*)p - 1;
  if (h->magic != LIVE) {
    if (shim::L.buf) shim::logf("{\"e\":\"crash\",\"sig\":-1,\"what\":\"%s\"}", h->magic == DEAD ? "freed twice" : "freed a stray pointer");
    _exit(4);
  }
  h->magic = DEAD;
  if (h->size & 1) --ours;
  memset(p, 0xDB, h->size >> 1);
  free(h);
}
} // namespace mem

void* operator new(size_t n) { return mem::get(n); }
void* operator new[](size_t n) { return mem::get(n); }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, size_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t) noexcept { mem::put(p); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return mem::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p, std::nothrow_t const&) noexcept { mem::put(p); }
