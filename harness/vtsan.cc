// Receives the memory-access callbacks of sources compiled with
// -fsanitize=thread (the sanitizer's own runtime is not linked): each access is
// a potential preemption point of harness/vsched.
#include <cstddef>
#include <cstdint>
#include <cstring>

#include "vsched.h"
#define Y vsched::MemYield()
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n)                                        \
  void __tsan_read##n(void*) { Y; }                  \
  void __tsan_write##n(void*) { Y; }                 \
  void __tsan_unaligned_read##n(void*) { Y; }        \
  void __tsan_unaligned_write##n(void*) { Y; }       \
  void __tsan_volatile_read##n(void*) { Y; }         \
  void __tsan_volatile_write##n(void*) { Y; }        \
  void __tsan_unaligned_volatile_read##n(void*) { Y; } \
  void __tsan_unaligned_volatile_write##n(void*) { Y; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { Y; }
void __tsan_write_range(void*, size_t) { Y; }
#define AT(n, T)                                                               \
  T __tsan_atomic##n##_load(const volatile T* a, int) { Y; return __atomic_load_n(a, 5); }     \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { Y; __atomic_store_n(a, v, 5); }     \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { Y; return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { Y; return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { Y; return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { Y; return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { Y; return __atomic_fetch_or(a, v, 5); }   \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { Y; return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {         \
    Y; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                                  \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {           \
    Y; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { Y; return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Y; return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Y; return memset(d, c, n); }
}
