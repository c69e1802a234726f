// operator new/delete from an arena at a fixed address, so that pointer values
// (and with them the iteration order of hash tables keyed or salted by them)
// are a function of the run alone. Freed memory is poisoned, which turns a use
// after free into a visible failure.
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <new>

#include "sim/sim.h"

namespace {
// Two arenas: one for the zygote and for setting a run up, one for the run
// itself, so that the run's addresses do not depend on what was done before.
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr uintptr_t kStride = 0x010000000000ull;
constexpr size_t kSize = size_t{2} << 30;
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;

// Size classes: multiples of 16 up to 1024, then powers of two.
constexpr int kSmall = 64;
constexpr int kClasses = kSmall + 32;
struct FreeNode {
  FreeNode* next;
};
struct Arena {
  char* next = nullptr;
  char* end = nullptr;
  FreeNode* free[kClasses] = {};
};
Arena g_arena[2];
int g_cur = 0;

struct Header {
  uint32_t cls;
  uint32_t magic;
  uint64_t size;
};
static_assert(sizeof(Header) == 16, "");

inline int ClassOf(size_t n, size_t* rounded) {
  if (n <= 1024) {
    int c = n == 0 ? 0 : (n + 15) / 16 - 1;
    *rounded = (c + 1) * 16;
    return c;
  }
  int b = 64 - __builtin_clzll(n - 1);
  *rounded = size_t{1} << b;
  return kSmall + (b - 11);
}

int g_plain = 0;

void* Alloc(size_t n) {
  if (__builtin_expect(g_plain > 0, 0)) return malloc(n ? n : 1);
  while (g_lock.test_and_set(std::memory_order_acquire)) {
  }
  Arena& a = g_arena[g_cur];
  if (!a.next) {
    void* p = mmap(reinterpret_cast<void*>(kBase + g_cur * kStride), kSize,
                   PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p == MAP_FAILED) abort();
    a.next = static_cast<char*>(p);
    a.end = a.next + kSize;
  }
  size_t r;
  int c = ClassOf(n, &r);
  char* p;
  if (a.free[c]) {
    p = reinterpret_cast<char*>(a.free[c]);
    a.free[c] = a.free[c]->next;
  } else {
    if (r + sizeof(Header) > static_cast<size_t>(a.end - a.next)) abort();
    p = a.next + sizeof(Header);
    a.next += r + sizeof(Header);
  }
  Header* h = reinterpret_cast<Header*>(p) - 1;
  h->cls = c;
  h->magic = 0xA110CA7E;
  h->size = n;
  g_lock.clear(std::memory_order_release);
  return p;
}

void Free(void* v) {
  if (!v) return;
  char* p = static_cast<char*>(v);
  const uintptr_t off = reinterpret_cast<uintptr_t>(p) - kBase;
  if (off >= 2 * kStride) {
    free(v);
    return;
  }
  Arena& a = g_arena[off / kStride];
  Header* h = reinterpret_cast<Header*>(p) - 1;
  if (h->magic != 0xA110CA7E) abort();  // double free or corruption
  while (g_lock.test_and_set(std::memory_order_acquire)) {
  }
  h->magic = 0xDEADBEEF;
  size_t n = h->size < 512 ? h->size : 512;
  memset(p, 0xDD, n);
  FreeNode* f = reinterpret_cast<FreeNode*>(p);
  f->next = a.free[h->cls];
  a.free[h->cls] = f;
  g_lock.clear(std::memory_order_release);
}

void* AllocAligned(size_t n, size_t al) {
  if (al <= 16) return Alloc(n);
  void* p = nullptr;
  if (posix_memalign(&p, al, n ? n : 1)) abort();
  return p;
}
}  // namespace

namespace reverbsim {
void UseRunArena() { g_cur = 1; }
extern int64_t g_mem_countdown;
PlainAlloc::PlainAlloc() : countdown(g_mem_countdown) { g_plain++; }
PlainAlloc::~PlainAlloc() {
  g_plain--;
  g_mem_countdown = countdown;
}
}  // namespace reverbsim

#ifndef SIM_NO_ARENA
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return AllocAligned(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return AllocAligned(n, (size_t)a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return AllocAligned(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return AllocAligned(n, (size_t)a); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { Free(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { Free(p); }
#endif
