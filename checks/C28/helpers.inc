// What the bindings of conversion_function_helpers.h expose to Rust.
#include "support/cc_std_impl/conversion_function_helpers.h"
namespace cf = crubit_cc_std_internal::conversion_function_helpers;
extern "C" {
size_t StringGetSize(const void* s) { return cf::StringGetSize(s); }
const char* StringGetData(const void* s) { return cf::StringGetData(s); }
char* StringGetMutData(void* s) { return cf::StringGetMutData(s); }
void StringCreateInPlace(void* d, void* s) { cf::StringCreateInPlace(d, s); }
void* StringCreateFromBuffer(const char* b, size_t n) { return cf::StringCreateFromBuffer(b, n); }
void* StringMoveOwnedPtr(void* s) { return cf::StringMoveOwnedPtr(s); }
void* StringCopyOwnedPtr(void* s) { return cf::StringCopyOwnedPtr(s); }
bool StringEqual(const void* a, const void* b) { return cf::StringEqual(a, b); }
void StringDelete(void* s) { cf::StringDelete(s); }
void StringCreateDefaultInPlace(void* d) { cf::StringCreateDefaultInPlace(d); }
void StringCreateFromBufferInPlace(void* d, const char* b, size_t n) { cf::StringCreateFromBufferInPlace(d, b, n); }
void StringCreateCopyInPlace(void* d, const void* s) { cf::StringCreateCopyInPlace(d, s); }
void StringDestroyInPlace(void* s) { cf::StringDestroyInPlace(s); }
}
