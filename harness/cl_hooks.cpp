// Hooks that the instrumented translation unit (cl_run.cpp) calls at every access to memory.
#include <cstdint>
#include <cstring>
extern "C" {
bool vt_armed; char *vt_base; uint64_t vt_size;
void vt_hit();
static void vt_access(const volatile void *p)
{
    if (!vt_armed || (char *)p < vt_base || (char *)p >= vt_base + vt_size) return;
    vt_armed = false; vt_hit(); vt_armed = true;
}
typedef int MO;
#define A(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, MO) { vt_access(a); return __atomic_load_n(a, 5); } \
void __tsan_atomic##N##_store(volatile T *a, T v, MO) { vt_access(a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, MO) { vt_access(a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, MO) { vt_access(a); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T n, MO, MO) { vt_access(a); return __atomic_compare_exchange_n(a, e, n, false, 5, 5); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T n, MO, MO) { vt_access(a); return __atomic_compare_exchange_n(a, e, n, false, 5, 5); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T n, MO, MO) { vt_access(a); __atomic_compare_exchange_n(a, &e, n, false, 5, 5); return e; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(MO) {}
void __tsan_atomic_signal_fence(MO) {}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *a) { vt_access(a); } void __tsan_write##N(void *a) { vt_access(a); } \
  void __tsan_unaligned_read##N(void *a) { vt_access(a); } void __tsan_unaligned_write##N(void *a) { vt_access(a); } \
  void __tsan_read_write##N(void *a) { vt_access(a); } void __tsan_unaligned_read_write##N(void *a) { vt_access(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long) { vt_access(a); }
void __tsan_write_range(void *a, unsigned long) { vt_access(a); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { vt_access(d); vt_access(s); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { vt_access(d); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { vt_access(d); vt_access(s); return memmove(d, s, n); }
}
