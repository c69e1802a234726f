// Runtime for code compiled with -fsanitize=thread: every plain or atomic
// access of the library is a possible preemption point. This is not the
// ThreadSanitizer runtime; nothing but scheduling happens here.
#include <cstddef>
#include <cstdint>
#include <cstring>

#include "sim/sim.h"

namespace reverbsim {
int64_t MemNext();          // in sim.cc: draws the next distance
extern int64_t g_mem_countdown;
void MemPoint();
static inline void Access() {
  if (__builtin_expect(--g_mem_countdown <= 0, 0)) MemPoint();
}
}  // namespace reverbsim
using reverbsim::Access;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                            \
  void __tsan_read##n(void*) { Access(); }               \
  void __tsan_write##n(void*) { Access(); }              \
  void __tsan_unaligned_read##n(void*) { Access(); }     \
  void __tsan_unaligned_write##n(void*) { Access(); }    \
  void __tsan_volatile_read##n(void*) { Access(); }      \
  void __tsan_volatile_write##n(void*) { Access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { Access(); }
void __tsan_write_range(void*, size_t) { Access(); }
void __tsan_vptr_update(void**, void*) { Access(); }
void __tsan_vptr_read(void**) { Access(); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
#define ATOMIC(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                     \
    Access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                   \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                  \
    Access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                      \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                  \
    Access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }            \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                 \
    Access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }             \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                 \
    Access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }             \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                 \
    Access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }             \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                  \
    Access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }              \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                 \
    Access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }             \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                \
    Access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v,  \
                                                    int, int) {                \
    Access();                                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST); }                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v,    \
                                                  int, int) {                  \
    Access();                                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST); }                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int,   \
                                               int) {                          \
    Access();                                                                  \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
