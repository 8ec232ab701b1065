// Conversion operators, renamed items, safety overrides, owned pointers, ref-qualified methods, operators in namespaces.
#ifndef VP_CONV_H_
#define VP_CONV_H_
#pragma clang lifetime_elision
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include "support/annotations.h"
using W = std::uint64_t;
inline W mix(W h, W x) { return ((h << 11) | (h >> 53)) + x; }

// conversions
struct Plain { int a; short b; };
struct Fixed {
  explicit Fixed(W v) : w(v) {}
  Fixed(const Fixed&) = delete;
  Fixed(Fixed&&) = delete;
  W w;
  W me() const { return reinterpret_cast<W>(this); }
};
class Conv {
 public:
  explicit Conv(W x) : v(x), n(0) {}
  explicit operator Plain() const { return Plain{static_cast<int>(v), static_cast<short>(v >> 32)}; }
  explicit operator Fixed() const { return Fixed(v ^ 0x55); }
  explicit operator std::uint16_t() const { return static_cast<std::uint16_t>(v >> 3); }
  explicit operator bool() const { return (v & 1) != 0; }
  explicit operator double() { ++n; return static_cast<double>(static_cast<std::uint32_t>(v)); }
  explicit operator const W&() const { return v; }
  explicit operator int&() { return n; }
  explicit operator W*() { return &v; }
  W v;
  int n;
};
struct Alone { W v; operator std::int64_t() const; };
std::int64_t alone_ref(const Alone& a);

// names
struct CRUBIT_RUST_NAME("Renamed") cc_named {
  CRUBIT_RUST_NAME("first") int f0;
  int f1;
  CRUBIT_RUST_NAME("get_sum") W Sum(int k) const { return mix(mix(f0, f1), k); }
  CRUBIT_RUST_NAME("stat") static W S(unsigned char c) { return c * 3u; }
};
CRUBIT_RUST_NAME("add_small") W add(int a, short b);
CRUBIT_RUST_NAME("add_big") W add(W a, W b);
CRUBIT_RUST_NAME("add_named") W add(cc_named n);
namespace ns_cc {
CRUBIT_RUST_NAME("inner_fn") W f(W x);
enum CRUBIT_RUST_NAME("Colour") color_t { kRed = 1, kBlue = 77 };
}  // namespace ns_cc
extern "C" {
CRUBIT_RUST_NAME("plain_c") extern int cc_plain_c;
}
CRUBIT_RUST_NAME("plain_cc") extern int cc_plain;
namespace ns_cc { CRUBIT_RUST_NAME("deep") extern int cc_deep; }
CRUBIT_RUST_NAME("Wide") typedef unsigned long wide_t;
wide_t widen(wide_t w);
enum class CRUBIT_RUST_NAME("Level") level_t : signed char { lo = -3, hi = 9 };
level_t up(level_t l, const level_t* p);
ns_cc::color_t pick_color(bool b);

// safety
CRUBIT_UNSAFE W risky(int a);
CRUBIT_UNSAFE_MARK_SAFE W fine(const W* p, int d);
struct CRUBIT_UNSAFE Risk { int a; };
W take_risk(Risk r, int k);
struct CRUBIT_UNSAFE_MARK_SAFE Held { W* p; };
W take_held(Held h);
class CRUBIT_THREAD_SAFE Counter {
 public:
  W add(int k) { n_ += k; return n_; }
  W get() const { return n_; }
  W n_;
};
[[noreturn]] void give_up(int code);

// ownership through raw pointers
struct CRUBIT_OWNED_POINTEE("OwnedThing") CRUBIT_RUST_NAME("RawThing") Thing {
  explicit Thing(W v) : value(v) {}
  W value;
  void Close();
};
struct CRUBIT_OWNED_POINTEE("OwnedOther", "FreeIt") Other { W value; };
Thing* CRUBIT_OWNED_POINTER make_owned(W v);
Other* CRUBIT_OWNED_POINTER make_other(W v, int k);
void free_other(Other* o);
Thing* make_raw(W v);
W use_owned(Thing* CRUBIT_OWNED_POINTER p);
W use_two(int a, Other* CRUBIT_OWNED_POINTER p, Thing* CRUBIT_OWNED_POINTER q);
W peek(const Thing* p);
int live();

// ref-qualified methods
class Quals {
 public:
  W lv(int k) & { v += k; return v; }
  W cl(int k) const& { return mix(v, k); }
  W rv(int k) && { W r = mix(v, k); v = 0; return r; }
  W v;
};

// operators that take their operands by value, in namespaces
namespace units {
struct M { W v; };
// clones through its copy constructor wherever the operator takes it by value
class [[clang::trivial_abi]] Tok {
 public:
  explicit Tok(W x);
  Tok(const Tok&);
  Tok(Tok&&);
  Tok& operator=(const Tok&);
  Tok& operator=(Tok&&);
  ~Tok();
  W v() const { return *p_; }
 private:
  W* p_;
};
bool operator==(Tok a, Tok b);
bool operator<(Tok a, Tok b);
W operator%(Tok a, const Tok& b);
Tok operator/(Tok a, int k);
inline bool operator==(M a, M b) { return a.v == b.v; }
inline bool operator<(M a, M b) { return a.v < b.v; }
inline M operator+(M a, M b) { return M{a.v + 2 * b.v}; }
inline M operator-(const M& a, const M& b) { return M{3 * a.v - b.v}; }
inline M& operator+=(M& a, M b) { a.v += b.v * 5; return a; }
class N {
 public:
  N() : v(3) {}
  explicit N(W x) : v(x) {}
  N(const N&);
  N(N&&);
  N& operator=(const N&);
  ~N();
  W operator|(N o) const;
  W v;
};
// no move, no clone: the operators cannot be bound, everything else can
class Stuck {
 public:
  explicit Stuck(W x) : v(x) {}
  Stuck(const Stuck&);
  ~Stuck();
  bool operator==(Stuck o) const;
  bool operator<(Stuck o) const;
  bool operator!=(Stuck o) const;
  W get() const { return v; }
  W v;
};
int live_n();
}  // namespace units
namespace units { W operator^(M a, int k); }
#endif
