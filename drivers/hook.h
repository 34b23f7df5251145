// Memory-access hooks: the driver is compiled with -fsanitize=thread and linked against
// these functions instead of the sanitizer's runtime, so that every load and store of the code
// under test on a registered range reports itself before it happens.
#ifndef HOOK_H
#define HOOK_H
#include <cstddef>
#include <cstdint>
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
static char *hook_lo[4], *hook_hi[4];
static int hook_ranges = 0;
static volatile bool hook_armed = false;
static void (*hook_fn)(void *, int, char) = 0;   // before the access: r w, atomic: l s
static void (*hook_done)(void *, int) = 0;        // after an atomic write
NOSAN static void hook_range(void *p, size_t n) { hook_lo[hook_ranges] = (char *)p; hook_hi[hook_ranges] = (char *)p + n; hook_ranges++; }
NOSAN static void hook_hit(void *p, int n, char kind) {
  if (!hook_armed) return;
  for (int k = 0; k < hook_ranges; k++)
    if ((char *)p + n > hook_lo[k] && (char *)p < hook_hi[k]) { hook_fn(p, n, kind); return; }
}
NOSAN static void hook_post(void *p, int n) { if (hook_armed && hook_done) hook_done(p, n); }
extern "C" {
NOSAN void __tsan_init() {}
NOSAN void __tsan_func_entry(void *) {}
NOSAN void __tsan_func_exit(void) {}
#define RW(n) \
  NOSAN void __tsan_read##n(void *p) { hook_hit(p, n, 'r'); } \
  NOSAN void __tsan_write##n(void *p) { hook_hit(p, n, 'w'); } \
  NOSAN void __tsan_unaligned_read##n(void *p) { hook_hit(p, n, 'r'); } \
  NOSAN void __tsan_unaligned_write##n(void *p) { hook_hit(p, n, 'w'); } \
  NOSAN void __tsan_volatile_read##n(void *p) { hook_hit(p, n, 'r'); } \
  NOSAN void __tsan_volatile_write##n(void *p) { hook_hit(p, n, 'w'); } \
  NOSAN void __tsan_unaligned_volatile_read##n(void *p) { hook_hit(p, n, 'r'); } \
  NOSAN void __tsan_unaligned_volatile_write##n(void *p) { hook_hit(p, n, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
NOSAN void __tsan_read_range(void *p, unsigned long n) { hook_hit(p, (int)n, 'r'); }
NOSAN void __tsan_write_range(void *p, unsigned long n) { hook_hit(p, (int)n, 'w'); }
NOSAN void __tsan_vptr_update(void **p, void *) { hook_hit(p, 8, 'w'); }
NOSAN void __tsan_vptr_read(void **) {}
NOSAN void __tsan_atomic_thread_fence(int) {}
NOSAN void __tsan_atomic_signal_fence(int) {}
#define FETCH(b, T, name, expr) \
  NOSAN T __tsan_atomic##b##_##name(volatile T *p, T v, int) { \
    hook_hit((void *)p, b / 8, 's'); T o = *p; *p = expr; hook_post((void *)p, b / 8); return o; }
#define AT(b, T) \
  NOSAN T __tsan_atomic##b##_load(const volatile T *p, int) { hook_hit((void *)p, b / 8, 'l'); return *p; } \
  NOSAN void __tsan_atomic##b##_store(volatile T *p, T v, int) { hook_hit((void *)p, b / 8, 's'); *p = v; hook_post((void *)p, b / 8); } \
  FETCH(b, T, exchange, v) FETCH(b, T, fetch_add, o + v) FETCH(b, T, fetch_sub, o - v) \
  FETCH(b, T, fetch_or, o | v) FETCH(b, T, fetch_and, o & v) FETCH(b, T, fetch_xor, o ^ v) \
  NOSAN bool __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { \
    hook_hit((void *)p, b / 8, 's'); \
    if (*p == *e) { *p = v; hook_post((void *)p, b / 8); return true; } *e = *p; return false; } \
  NOSAN bool __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { \
    hook_hit((void *)p, b / 8, 's'); \
    if (*p == *e) { *p = v; hook_post((void *)p, b / 8); return true; } *e = *p; return false; } \
  NOSAN T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { \
    hook_hit((void *)p, b / 8, 's'); T o = *p; if (o == e) { *p = v; hook_post((void *)p, b / 8); } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
__extension__ typedef unsigned __int128 hook_u128;
AT(128, hook_u128)
#undef AT
#undef FETCH
}
#endif
