// What the bindings of std_allocator.h expose to Rust.
#include <string>
#include "support/cc_std_impl/std_allocator.h"
extern "C" {
[[gnu::noinline]] void* c17_new(size_t n, size_t a) { return crubit_cc_std_internal::std_allocator::cpp_new(n, a); }
[[gnu::noinline]] void c17_delete(void* p, size_t n, size_t a) { crubit_cc_std_internal::std_allocator::cpp_delete(p, n, a); }
}
