#include "meth.h"
#include <initializer_list>
Acc::Acc(W v, std::uint8_t n) : v_(v), n_(n) {}
std::uint8_t Acc::count() const { return n_; }
Acc& Acc::add(W d) { v_ += d; ++n_; return *this; }
W Acc::combine(W a, std::uint8_t b, const Acc& c) { return fold(fold(fold(0, a), b), c.v_); }
W Acc::cmp(const Acc& a, Acc b, int c) const { return fold(fold(fold(v_, a.v_), b.v_), c); }
bool Acc::operator<(const Acc& o) const { return v_ < o.v_; }
Acc Acc::operator+(const Acc& o) const { return Acc(v_ + (o.v_ << 1), n_ + o.n_ * 3); }
Acc& Acc::operator+=(const Acc& o) { v_ = fold(v_, o.v_); n_ = 21; return *this; }
bool operator==(const Q& x, const Q& y) { return x.a == y.a; }
Q operator+(const Q& x, const Q& y) { return Q{x.a ^ (y.a << 1), x.b ^ (y.b << 2)}; }
W Shape::mark(W k) const { return w_ + k; }
W Shape::reset(W k) { W o = w_; w_ = k; return o; }
W Square::mark(W k) const { return w_ ^ (k << 3); }
W Square::reset(W k) { W o = extra_; extra_ = k; return o + w_; }
void Square::grow(W by) { w_ += 2 * by; extra_ ^= by; }
W M2::m2() const { return q * 3; }
const M2& as_m2(const Mm& m) { return m; }
W over(int a) { return a; }
W over(long a) { return a; }
W uniq(std::uint8_t a) { return ~W(a); }
int g_int = 11;
extern const W g_const = 0x123456789abcdef0;
W gl::g_ns = 5;
Q g_q = {3, 4};
W globals() { return fold(fold(fold(fold(fold(0, g_int), g_inline), gl::g_ns), g_q.a), g_q.b); }
void set_globals(int a, W b, std::uint16_t c) { g_int = a; gl::g_ns = b; g_inline = c; g_q = {a ^ 1, a ^ 2}; }
std::uint64_t Props::all() const {
  W h = 0, x = 0;
  for (W v : {W(u8_), W(b_), W((unsigned char)c_), W(u32_), W((unsigned short)s_), W(l_)}) h = fold(h, v);
  __builtin_memcpy(&x, &d_, 8); h = fold(h, x); x = 0; __builtin_memcpy(&x, &f_, 4); return fold(h, x);
}
Fixed::~Fixed() {}
std::uint64_t Fixed::xyz() const { return fold(fold(x_, y_), z_); }
bool operator!=(const NeFree& a, const NeFree& b) { return a.v != b.v; }
