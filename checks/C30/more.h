// Indexing, deletion, calls, conversions, pointers without lifetimes, operators of types that cannot move.
#ifndef VP_MORE_H_
#define VP_MORE_H_
#pragma clang lifetime_elision
#include <cstddef>
#include <cstdint>
using W = std::uint64_t;
inline W mix(W h, W x) { return ((h << 11) | (h >> 53)) + x; }

class Arr {
 public:
  const W& operator[](std::size_t i) const { return v_[i & 3]; }
  W& operator[](std::size_t i) { return v_[i & 3]; }
 private:
  W v_[4];
};
struct Key { int k; };
class ByKey {
 public:
  std::uint8_t operator[](Key k) const;
  W operator()(int a, short b) const { return mix(mix(s, a), b); }
  explicit operator bool() const { return s != 0; }
  ByKey& operator++() { ++s; return *this; }
  ByKey operator++(int) { ByKey o = *this; s += 2; return o; }
  W operator*() const { return s; }
  ByKey operator~() const { return ByKey{s + 9}; }
  ByKey operator+() const { return ByKey{s + 5}; }
  W s;
};
// deletion through a base
class Obj {
 public:
  explicit Obj(W v) : v_(v) {}
  virtual ~Obj();
  W v() const { return v_; }
  static Obj* create(W v);
 protected:
  W v_;
};
class Sub : public Obj {
 public:
  explicit Sub(W v) : Obj(v), x_(v + 1) {}
  ~Sub() override;
  static Sub* create_sub(W v);
 private:
  W x_;
};
W destroyed();
// operators of a type that cannot move
class Big {
 public:
  explicit Big(W v);
  Big(const Big& o);
  ~Big();
  bool operator==(const Big& o) const { return v_ == o.v_; }
  bool operator<(const Big& o) const { return v_ < o.v_; }
  Big operator+(const Big& o) const;
  Big operator-() const;
  Big& operator+=(const Big& o);
  Big& operator-=(W d) { v_ -= d; return *this; }
  W v() const { return v_; }
  W& slot() { return v_; }
  W operator[](int i) const { return v_ + i; }
 private:
  W v_;
  Big* self_;
};
W live_bigs();
// constructors from pointers
struct FromPtr { W v; FromPtr(const W* p) : v(p ? *p : 1) {} };
struct FromRef { const W* p; explicit FromRef(const W& r) : p(&r) {} W get() const { return *p; } };
// operators on enums and with scalars
enum class Bit : std::uint8_t { kNone, kA = 1, kB = 2, kAll = 3 };
inline Bit operator|(Bit a, Bit b) { return Bit(std::uint8_t(a) | std::uint8_t(b)); }
Bit operator&(Bit a, Bit b);
struct Num { W v; };
bool operator==(const Num& a, int b);
inline Num operator+(const Num& a, W b) { return Num{a.v + b}; }
inline Num operator-(W b, const Num& a) { return Num{b - a.v}; }
inline Num& operator+=(Num& a, const Num& b) { a.v = mix(a.v, b.v); return a; }
inline bool operator<(const Num& a, const Num& b) { return a.v < b.v; }
inline Num operator-(const Num& a) { return Num{~a.v}; }
inline Num operator!(const Num& a) { return Num{a.v * 3}; }
// rvalue and const rvalue references
inline W take_rv(W&& w) { W r = w; w = 7; return r; }
W take_num(Num&& n);
// anonymous parameters
W anon(W, std::uint8_t, W);
// lots of structs in and out
struct Small { std::uint8_t a, b; };
Small* find(Small* first, std::size_t n, std::uint8_t a);
W sum(const Small* first, std::size_t n);
void fill(std::uint16_t* out, std::size_t n, std::uint16_t v);
const char* text(int i);
W len(const char* s);
W cb_sum(W (*f)(void* ctx, W x), void* ctx, W n);
struct CBs { W (*f)(W); void (*g)(Small*, int); };
W use_cbs(const CBs& c, W x, Small* s);
using Fp = W (*)(W);
Fp get_fn(int which);
#endif
