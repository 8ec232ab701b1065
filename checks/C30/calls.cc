#include "calls.h"
#include "vp.h"
W scalars1(bool a, char b, signed char c, unsigned char d, short e, unsigned short f) { return mx(mx(mx(mx(mx(mx(2, a), b), c), d), e), f); }
W scalars2(int a, unsigned b, long c, unsigned long d, long long e, unsigned long long f) { return mx(mx(mx(mx(mx(mx(3, a), b), c), d), e), f); }
W scalars4(std::size_t a, std::ptrdiff_t b, std::intptr_t c, std::uintptr_t d, char16_t e, char32_t f) { return mx(mx(mx(mx(mx(mx(4, a), b), c), d), e), f); }
float pick_float(float a, double b, bool first) { return first ? a : (float)b; }
W many(int a, double b, unsigned char c, long d, float e, short f, unsigned g, bool h, long long i, unsigned short j) {
  W x, y = 0;
  __builtin_memcpy(&x, &b, 8);
  __builtin_memcpy(&y, &e, 4);
  return mx(mx(mx(mx(mx(mx(mx(mx(mx(mx(5, a), x), c), d), y), f), g), h), i), j);
}
bool ret_bool(int x) { return x > 3; }
signed char ret_schar(int x) { return x; }
short ret_short(int x) { return x; }
unsigned short ret_ushort(int x) { return x; }
long ret_long(int x) { return (long)x << 31; }
unsigned long long ret_ull(int x) { return (unsigned long long)x; }
char16_t ret_c16(int x) { return x; }
int* pass_ptr(int* p) { return p; }
void* pass_void(void* p) { return p; }
void write_ref(int& x, int v) { x = v; }
const int& cref_id(const int& x) { return x; }
int** pp(int** p) { return p; }
Small enum_small(Small s, int d) { return (Small)((int)s + d); }
Plain enum_plain(Plain p) { return p == kP1 ? kP2 : kP0; }
P2 swap2(P2 p) { return {p.y, p.x}; }
static W g_got[10];
W got(int i) { return g_got[i]; }
void mixed(int a, Mixed m, One o, Empty, Big b, bool z) {
  W d;
  __builtin_memcpy(&d, &m.d, 8);
  g_got[0] = a;
  g_got[1] = m.c;
  g_got[2] = d;
  g_got[3] = m.s;
  g_got[4] = o.v;
  g_got[5] = b.a[0];
  g_got[6] = b.a[1];
  g_got[7] = b.b;
  g_got[8] = b.d;
  g_got[9] = z;
}
Mixed make_mixed(char c, double d, short s) { return {c, d, s}; }
Fl rotf(Fl f) { return {f.b, f.c, f.a}; }
Empty empty(Empty e) { return e; }
void big_set(Big& b, W v) { b.a[1] = v; b.c = ~v; }
int call_fn(int (*f)(int, short), int a, short b) { return f ? f(a, b) : -1; }
extern "C" int c_linkage(int a, unsigned char b) { return a ^ (b << 8); }
namespace outer {
int same_name(int a) { return a ^ 0x7f; }
namespace inner {
Count counted(Count c) { return c >> 1; }
}
int reopened(int a) { return a ^ 0x0f; }
}
W same_name(W a) { return ~a; }
static W g_trace = 1;
W tick(W v) { return g_trace = mx(g_trace, v); }
void tock(W v) { g_trace = mx(g_trace, ~v); }
W trace() { return g_trace; }
int no_discard(int x) { return x - 1; }
int keywords(int self, int r, int mut, int match) { return (int)mx(mx(mx(mx(0, self), r), mut), match); }
int fn(int type) { return type + 0; }
int overloaded(int a) { return a; }
int overloaded(long a) { return (int)a + 1; }
