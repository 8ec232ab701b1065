// Harness interface.  The symbolic executor gives these functions their meaning;
// rt/vp_native.cc implements them over recorded inputs for native replay.
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C" {
uint64_t vp_sym(int bits);               // arbitrary value of `bits` bits
void vp_sym_bytes(void* p, size_t n);    // arbitrary bytes
int vp_pick(int n);                      // arbitrary value in [0, n), one path per value
void vp_assume(bool);
void vp_assert(bool, int id);
void vp_reach(int id);
void vp_out(uint64_t);                   // observed value, compared between solver model and native run
void vp_expect_abort(bool);              // from here on, the program must (may) abort
int vp_live_heap(void);                  // live new/Rust heap blocks
}
#define VP_CHECK(c) vp_assert((c), __LINE__)
#define H(name) extern "C" __attribute__((noinline, used)) void h_##name()

template <typename T>
inline T vp_any() {
  if constexpr (sizeof(T) <= 8 && __is_integral(T)) {
    return static_cast<T>(vp_sym(__is_same(T, bool) ? 1 : 8 * static_cast<int>(sizeof(T))));
  } else {
    T t;
    vp_sym_bytes(&t, sizeof(T));
    return t;
  }
}
