/* Compiler-inserted access callbacks (the runtime is compiled with -fsanitize=thread and linked
 * with this file instead of the sanitizer): every memory access and atomic of the runtime is a
 * point at which the seeded scheduler may switch threads. */
#include "sim.h"
/* plain reads and writes: see sim_core.c */
#define PTA() sim_pt(sim_w_atomic, __builtin_return_address(0))
extern char *sim_shadow;
void sim_heap_bad(void *p, void *ra);
#define CHK(a) do { uint64_t o_ = (uint64_t) (a) - 0x610000000000ULL; if (o_ < (8ULL << 30) && sim_shadow[o_ / 16]) sim_heap_bad((void *) (a), __builtin_return_address(0)); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { PTA(); CHK(a); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { PTA(); CHK(a); __atomic_store_n(a, v, 5); PTA(); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_exchange_n(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_add(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_sub(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_and(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_or(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_xor(a, v, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { PTA(); CHK(a); T r = __atomic_fetch_nand(a, v, 5); PTA(); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { PTA(); CHK(a); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); PTA(); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { PTA(); CHK(a); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); PTA(); return r; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { PTA(); CHK(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); PTA(); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { PTA(); }
void __tsan_atomic_signal_fence(int mo) {}
