// Methods, operators, constructors, globals, constants and overloads.
#ifndef VP_METH_H_
#define VP_METH_H_
#pragma clang lifetime_elision
#include <cstdint>
#include <cstddef>

using W = std::uint64_t;
inline W fold(W h, W x) { return ((h << 7) | (h >> 57)) + x; }

// ---- methods of every kind of a trivial class
class Acc {
 public:
  Acc() : v_(17), n_(0) {}
  explicit Acc(W v) : v_(v), n_(1) {}
  Acc(W v, std::uint8_t n);
  Acc(int a, short b, W c) : v_(fold(fold(a, b), c)), n_(3) {}
  W get() const { return v_; }
  void set(W v) { v_ = v; }
  std::uint8_t count() const;
  Acc& add(W d);
  const W& peek() const { return v_; }
  W& poke() { return v_; }
  W lv() & { return fold(v_, 1); }
  W clv() const& { return fold(v_, 2); }
  static W combine(W a, std::uint8_t b, const Acc& c);
  static Acc make(W a) { return Acc(a, 9); }
  W cmp(const Acc& a, Acc b, int c) const;
  void swap_with(Acc& o) { Acc t = o; o = *this; *this = t; }

  bool operator==(const Acc& o) const { return v_ == o.v_; }
  bool operator<(const Acc& o) const;
  Acc operator+(const Acc& o) const;
  Acc operator-(const Acc& o) const { return Acc(v_ - o.v_, n_ * 2 + o.n_); }
  Acc operator*(W k) const { return Acc(v_ * 3 + k, n_); }
  Acc operator/(int k) const { return Acc(fold(v_, k), 4); }
  Acc operator%(const Acc& o) const { return Acc(fold(v_, o.v_), 5); }
  Acc operator&(const Acc& o) const { return Acc(v_ & ~o.v_, 6); }
  Acc operator|(const Acc& o) const { return Acc(v_ | (o.v_ << 1), 7); }
  Acc operator^(const Acc& o) const { return Acc(v_ ^ (o.v_ << 1), 8); }
  Acc operator<<(int k) const { return Acc(v_ << (k & 63), 9); }
  Acc operator>>(int k) const { return Acc(v_ >> (k & 63), 10); }
  Acc operator-() const { return Acc(~v_, 11); }
  Acc operator!() const { return Acc(v_ == 0, 12); }
  Acc& operator+=(const Acc& o);
  Acc& operator-=(const Acc& o) { v_ -= o.v_; n_ += 2; return *this; }
  Acc& operator*=(W k) { v_ = v_ * 5 + k; return *this; }
  Acc& operator/=(int k) { v_ = fold(v_, k); return *this; }
  Acc& operator%=(const Acc& o) { v_ = fold(o.v_, v_); return *this; }
  Acc& operator&=(const Acc& o) { v_ &= ~o.v_; return *this; }
  Acc& operator|=(const Acc& o) { v_ |= o.v_ << 1; return *this; }
  Acc& operator^=(const Acc& o) { v_ ^= o.v_ << 1; return *this; }
  Acc& operator<<=(int k) { v_ <<= k & 63; return *this; }
  Acc& operator>>=(int k) { v_ >>= k & 63; return *this; }

 private:
  W v_;
  std::uint8_t n_;
};

// ---- accessors of every width, also in a class that cannot move
class Props {
 public:
  bool b() const { return b_; }
  void set_b(bool v) { b_ = v; }
  char c() const { return c_; }
  void set_c(char v) { c_ = v; }
  std::uint8_t u8() const { return u8_; }
  void set_u8(std::uint8_t v) { u8_ = v; }
  short s() const { return s_; }
  void set_s(short v) { s_ = v; }
  std::uint32_t u32() const { return u32_; }
  void set_u32(std::uint32_t v) { u32_ = v; }
  long l() const { return l_; }
  void set_l(long v) { this->l_ = v; }
  float f() const { return f_; }
  void set_f(float v) { f_ = v; }
  double d() const { return (d_); }
  void set_d(double v) { d_ = v; }
  std::uint64_t all() const;
  std::uint16_t narrow() const { return u32_; }
  void widen(std::uint8_t v) { u32_ = v; }
  std::uint32_t& ref() { return u32_; }
 private:
  std::uint8_t u8_; bool b_; char c_; std::uint32_t u32_; short s_; long l_; float f_; double d_;
};
class Fixed : public Props {
 public:
  Fixed() : Props(), x_(3), y_(4), z_(5) {}
  Fixed(const Fixed&) = delete;
  virtual ~Fixed();
  std::uint16_t x() const { return x_; }
  void set_x(std::uint16_t v) { x_ = v; }
  std::uint8_t y() const { return y_; }
  void set_y(std::uint8_t v) { y_ = v; }
  std::uint64_t z() const { return z_; }
  void set_z(std::uint64_t v) { z_ = v; }
  std::uint64_t xyz() const;
 private:
  std::uint8_t y_; std::uint16_t x_; std::uint64_t z_;
};
// only inequality is defined
struct Ne { int v; bool operator!=(const Ne& o) const { return v != o.v; } };
struct NeFree { int v; };
bool operator!=(const NeFree& a, const NeFree& b);

// ---- free operators
struct Q { int a; int b; };
bool operator==(const Q& x, const Q& y);
inline bool operator<(const Q& x, const Q& y) { return x.a < y.a; }
Q operator+(const Q& x, const Q& y);
inline Q operator-(Q x, Q y) { return Q{x.a ^ (y.b << 1), x.b}; }
inline bool operator==(const Q& x, const Acc& y) { return (W)x.a == y.get(); }

// ---- virtual dispatch
class Shape {
 public:
  explicit Shape(W w) : w_(w) {}
  virtual W area() const { return w_ * 3; }
  virtual void grow(W by) { w_ += by; }
  virtual W mark(W k) const;
  virtual W reset(W k);
  W twice() const { return area() * 2; }
 protected:
  W w_;
};
class Square : public Shape {
 public:
  explicit Square(W w) : Shape(w), extra_(5) {}
  W area() const override { return w_ ^ extra_; }
  void grow(W by) override;
  W mark(W k) const override;
  W reset(W k) override;
 private:
  W extra_;
};

// ---- inherited methods through multiple bases
struct M1 { W p; W m1() const { return p + 1; } };
struct M2 { W q; W m2() const; void set2(W v) { q = v; } };
struct Mm : M1, M2 { W r; W mm() const { return p ^ (q << 1) ^ (r << 2); } };
const M2& as_m2(const Mm& m);

// ---- overloads
W over(int a);
W over(long a);
inline W over(const Q& q) { return q.a; }
W uniq(std::uint8_t a);

// ---- globals and constants
extern int g_int;
extern const W g_const;
inline std::uint16_t g_inline = 77;
namespace gl { extern W g_ns; inline constexpr int kNs = -9; }
extern Q g_q;
inline constexpr int kNeg = -5;
inline constexpr unsigned char kByte = 200;
inline constexpr W kBig = 0xfedcba9876543210;
inline constexpr bool kTrue = true;
inline constexpr std::int64_t kMin = INT64_MIN;
W globals();
void set_globals(int a, W b, std::uint16_t c);
#endif
