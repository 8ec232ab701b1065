// Functions of every kind the bindings support, each with a result that depends on every argument and on their order.
#ifndef VP_CALLS_H_
#define VP_CALLS_H_
#pragma clang lifetime_elision
#include <cstdint>
#include <cstddef>

using W = std::uint64_t;
constexpr W mx(W h, W x) { return ((h << 9) | (h >> 55)) + x; }

// ---- scalars: every fundamental type, by value, inline and not
W scalars1(bool a, char b, signed char c, unsigned char d, short e, unsigned short f);
W scalars2(int a, unsigned b, long c, unsigned long d, long long e, unsigned long long f);
inline W scalars3(std::int8_t a, std::int16_t b, std::int32_t c, std::int64_t d, std::uint8_t e, std::uint16_t f, std::uint32_t g, std::uint64_t h) {
  return mx(mx(mx(mx(mx(mx(mx(mx(1, a), b), c), d), e), f), g), h);
}
W scalars4(std::size_t a, std::ptrdiff_t b, std::intptr_t c, std::uintptr_t d, char16_t e, char32_t f);
float pick_float(float a, double b, bool first);
inline double pick_double(float a, double b, bool first) { return first ? a : b; }
// more arguments than there are registers, mixed
W many(int a, double b, unsigned char c, long d, float e, short f, unsigned g, bool h, long long i, unsigned short j);

bool ret_bool(int x);
inline char ret_char(int x) { return x; }
signed char ret_schar(int x);
inline unsigned char ret_uchar(int x) { return x; }
short ret_short(int x);
unsigned short ret_ushort(int x);
inline unsigned ret_uint(long long x) { return x; }
long ret_long(int x);
unsigned long long ret_ull(int x);
char16_t ret_c16(int x);

// ---- pointers and references
int* pass_ptr(int* p);
inline const int* pass_cptr(const int* p) { return p; }
void* pass_void(void* p);
inline int read_ref(const int& x) { return x; }
void write_ref(int& x, int v);
inline int& ref_id(int& x) { return x; }
const int& cref_id(const int& x);
int** pp(int** p);
inline unsigned long long read_ptr(const unsigned long long* p) { return p ? *p : 42; }

// ---- enums
enum class Small : unsigned char { kA, kB = 7, kC = 255 };
enum class Wide : long long { kMin = -9223372036854775807LL - 1, kZero = 0, kMax = 9223372036854775807LL };
enum Plain { kP0, kP1 = 5, kP2 };
Small enum_small(Small s, int d);
inline Wide enum_wide(Wide w) { return w == Wide::kMin ? Wide::kMax : w; }
Plain enum_plain(Plain p);

// ---- structs by value: trivial ones of various sizes
struct P2 { int x, y; };
struct Mixed { char c; double d; short s; };
struct Big { W a[2]; W b, c, d; };
struct Fl { float a, b, c; };
struct One { unsigned char v; };
struct Empty {};
P2 swap2(P2 p);
inline P2 add2(P2 a, const P2& b) { return P2{a.x ^ (b.x << 1), a.y ^ b.y}; }
W got(int i);
void mixed(int a, Mixed m, One o, Empty e, Big b, bool z);
Mixed make_mixed(char c, double d, short s);
inline Big make_big(W x, One o) { return Big{{x, x + 1}, x + 2, x + 3, o.v}; }
Fl rotf(Fl f);
inline One one(One o) { return One{(unsigned char)(o.v + 1)}; }
Empty empty(Empty e);
inline Big* big_ptr(Big* b) { return b; }
void big_set(Big& b, W v);

// ---- function pointers
using Fn = int (*)(int, short);
int call_fn(int (*f)(int, short), int a, short b);
inline W call_null(void (*f)(int*)) { return f == nullptr; }

// ---- linkage, overload-free namespaces, aliases
extern "C" int c_linkage(int a, unsigned char b);
extern "C" inline W c_inline(W a, W b) { return mx(a, b); }
namespace outer {
int same_name(int a);
namespace inner {
inline int same_name(int a) { return a * 3 + 1; }
using Count = unsigned;
Count counted(Count c);
}
int reopened(int a);
}
namespace outer {
inline int later(int a) { return reopened(a) ^ 0x55; }
}
W same_name(W a);

// ---- side effects happen exactly once and in order
W tick(W v);
void tock(W v);
W trace();

[[nodiscard]] int no_discard(int x);
inline int default_args(int a, int b = 7) { return a * 31 + b; }
inline constexpr int const_expr(int a) { return a ^ 0x1234; }
inline int no_except(int a) noexcept { return -a; }
int keywords(int self, int r, int mut, int match);
int fn(int type);
int overloaded(int a);
int overloaded(long a);
#endif
