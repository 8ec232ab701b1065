#include <cstddef>
#include <optional>
#include <tuple>
#include <type_traits>
#include "vp.h"
#include "fnum.h"
using namespace fnum;

namespace {
char step_char(char x) { return static_cast<char>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" char cb_char(char x) { return static_cast<char>(x ^ 5); }
}  // namespace
H(char) {
  char x = vp_any<char>(), y = vp_any<char>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(char_step(x)), char>);
  VP_CHECK(char_step(x) == step_char(x) && char_c(x) == step_char(x));
  std::tuple<bool, char> t = char_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<char> o = char_opt(x);
  VP_CHECK(o.has_value() && *o == step_char(x) && !char_opt(std::nullopt).has_value());
  char_at(&x, &q);
  VP_CHECK(q == step_char(x));
  const char& r = char_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(char_call(cb_char, x) == step_char(cb_char(x)));
  char x0 = x, y0 = y;
  char_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(char_rec) {
  static char y;
  char x = vp_any<char>();
  y = vp_any<char>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rchar v = Rchar::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), char> && std::is_same_v<decltype(v.p), const char*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_char(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(static_cast<unsigned char>(y)) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
char8_t step_c8(char8_t x) { return static_cast<char8_t>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" char8_t cb_c8(char8_t x) { return static_cast<char8_t>(x ^ 5); }
}  // namespace
H(c8) {
  char8_t x = vp_any<char8_t>(), y = vp_any<char8_t>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(c8_step(x)), char8_t>);
  VP_CHECK(c8_step(x) == step_c8(x) && c8_c(x) == step_c8(x));
  std::tuple<bool, char8_t> t = c8_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<char8_t> o = c8_opt(x);
  VP_CHECK(o.has_value() && *o == step_c8(x) && !c8_opt(std::nullopt).has_value());
  c8_at(&x, &q);
  VP_CHECK(q == step_c8(x));
  const char8_t& r = c8_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(c8_call(cb_c8, x) == step_c8(cb_c8(x)));
  char8_t x0 = x, y0 = y;
  c8_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(c8_rec) {
  static char8_t y;
  char8_t x = vp_any<char8_t>();
  y = vp_any<char8_t>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rc8 v = Rc8::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), char8_t> && std::is_same_v<decltype(v.p), const char8_t*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_c8(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
char16_t step_c16(char16_t x) { return static_cast<char16_t>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" char16_t cb_c16(char16_t x) { return static_cast<char16_t>(x ^ 5); }
}  // namespace
H(c16) {
  char16_t x = vp_any<char16_t>(), y = vp_any<char16_t>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(c16_step(x)), char16_t>);
  VP_CHECK(c16_step(x) == step_c16(x) && c16_c(x) == step_c16(x));
  std::tuple<bool, char16_t> t = c16_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<char16_t> o = c16_opt(x);
  VP_CHECK(o.has_value() && *o == step_c16(x) && !c16_opt(std::nullopt).has_value());
  c16_at(&x, &q);
  VP_CHECK(q == step_c16(x));
  const char16_t& r = c16_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(c16_call(cb_c16, x) == step_c16(cb_c16(x)));
  char16_t x0 = x, y0 = y;
  c16_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(c16_rec) {
  static char16_t y;
  char16_t x = vp_any<char16_t>();
  y = vp_any<char16_t>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rc16 v = Rc16::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), char16_t> && std::is_same_v<decltype(v.p), const char16_t*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_c16(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
char32_t step_c32(char32_t x) { return static_cast<char32_t>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" char32_t cb_c32(char32_t x) { return static_cast<char32_t>(x ^ 5); }
}  // namespace
H(c32) {
  char32_t x = vp_any<char32_t>(), y = vp_any<char32_t>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(c32_step(x)), char32_t>);
  VP_CHECK(c32_step(x) == step_c32(x) && c32_c(x) == step_c32(x));
  std::tuple<bool, char32_t> t = c32_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<char32_t> o = c32_opt(x);
  VP_CHECK(o.has_value() && *o == step_c32(x) && !c32_opt(std::nullopt).has_value());
  c32_at(&x, &q);
  VP_CHECK(q == step_c32(x));
  const char32_t& r = c32_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(c32_call(cb_c32, x) == step_c32(cb_c32(x)));
  char32_t x0 = x, y0 = y;
  c32_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(c32_rec) {
  static char32_t y;
  char32_t x = vp_any<char32_t>();
  y = vp_any<char32_t>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rc32 v = Rc32::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), char32_t> && std::is_same_v<decltype(v.p), const char32_t*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_c32(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
long long step_ll(long long x) { return static_cast<long long>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" long long cb_ll(long long x) { return static_cast<long long>(x ^ 5); }
}  // namespace
H(ll) {
  long long x = vp_any<long long>(), y = vp_any<long long>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(ll_step(x)), long long>);
  VP_CHECK(ll_step(x) == step_ll(x) && ll_c(x) == step_ll(x));
  std::tuple<bool, long long> t = ll_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<long long> o = ll_opt(x);
  VP_CHECK(o.has_value() && *o == step_ll(x) && !ll_opt(std::nullopt).has_value());
  ll_at(&x, &q);
  VP_CHECK(q == step_ll(x));
  const long long& r = ll_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(ll_call(cb_ll, x) == step_ll(cb_ll(x)));
  long long x0 = x, y0 = y;
  ll_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(ll_rec) {
  static long long y;
  long long x = vp_any<long long>();
  y = vp_any<long long>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rll v = Rll::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), long long> && std::is_same_v<decltype(v.p), const long long*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_ll(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
unsigned long long step_ull(unsigned long long x) { return static_cast<unsigned long long>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" unsigned long long cb_ull(unsigned long long x) { return static_cast<unsigned long long>(x ^ 5); }
}  // namespace
H(ull) {
  unsigned long long x = vp_any<unsigned long long>(), y = vp_any<unsigned long long>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(ull_step(x)), unsigned long long>);
  VP_CHECK(ull_step(x) == step_ull(x) && ull_c(x) == step_ull(x));
  std::tuple<bool, unsigned long long> t = ull_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<unsigned long long> o = ull_opt(x);
  VP_CHECK(o.has_value() && *o == step_ull(x) && !ull_opt(std::nullopt).has_value());
  ull_at(&x, &q);
  VP_CHECK(q == step_ull(x));
  const unsigned long long& r = ull_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(ull_call(cb_ull, x) == step_ull(cb_ull(x)));
  unsigned long long x0 = x, y0 = y;
  ull_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(ull_rec) {
  static unsigned long long y;
  unsigned long long x = vp_any<unsigned long long>();
  y = vp_any<unsigned long long>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rull v = Rull::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), unsigned long long> && std::is_same_v<decltype(v.p), const unsigned long long*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_ull(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
long step_l(long x) { return static_cast<long>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" long cb_l(long x) { return static_cast<long>(x ^ 5); }
}  // namespace
H(l) {
  long x = vp_any<long>(), y = vp_any<long>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(l_step(x)), long>);
  VP_CHECK(l_step(x) == step_l(x) && l_c(x) == step_l(x));
  std::tuple<bool, long> t = l_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<long> o = l_opt(x);
  VP_CHECK(o.has_value() && *o == step_l(x) && !l_opt(std::nullopt).has_value());
  l_at(&x, &q);
  VP_CHECK(q == step_l(x));
  const long& r = l_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(l_call(cb_l, x) == step_l(cb_l(x)));
  long x0 = x, y0 = y;
  l_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(l_rec) {
  static long y;
  long x = vp_any<long>();
  y = vp_any<long>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rl v = Rl::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), long> && std::is_same_v<decltype(v.p), const long*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_l(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
unsigned long step_ul(unsigned long x) { return static_cast<unsigned long>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" unsigned long cb_ul(unsigned long x) { return static_cast<unsigned long>(x ^ 5); }
}  // namespace
H(ul) {
  unsigned long x = vp_any<unsigned long>(), y = vp_any<unsigned long>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(ul_step(x)), unsigned long>);
  VP_CHECK(ul_step(x) == step_ul(x) && ul_c(x) == step_ul(x));
  std::tuple<bool, unsigned long> t = ul_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<unsigned long> o = ul_opt(x);
  VP_CHECK(o.has_value() && *o == step_ul(x) && !ul_opt(std::nullopt).has_value());
  ul_at(&x, &q);
  VP_CHECK(q == step_ul(x));
  const unsigned long& r = ul_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(ul_call(cb_ul, x) == step_ul(cb_ul(x)));
  unsigned long x0 = x, y0 = y;
  ul_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(ul_rec) {
  static unsigned long y;
  unsigned long x = vp_any<unsigned long>();
  y = vp_any<unsigned long>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rul v = Rul::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), unsigned long> && std::is_same_v<decltype(v.p), const unsigned long*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_ul(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
int step_i(int x) { return static_cast<int>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" int cb_i(int x) { return static_cast<int>(x ^ 5); }
}  // namespace
H(i) {
  int x = vp_any<int>(), y = vp_any<int>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(i_step(x)), int>);
  VP_CHECK(i_step(x) == step_i(x) && i_c(x) == step_i(x));
  std::tuple<bool, int> t = i_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<int> o = i_opt(x);
  VP_CHECK(o.has_value() && *o == step_i(x) && !i_opt(std::nullopt).has_value());
  i_at(&x, &q);
  VP_CHECK(q == step_i(x));
  const int& r = i_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(i_call(cb_i, x) == step_i(cb_i(x)));
  int x0 = x, y0 = y;
  i_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(i_rec) {
  static int y;
  int x = vp_any<int>();
  y = vp_any<int>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Ri v = Ri::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), int> && std::is_same_v<decltype(v.p), const int*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_i(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
unsigned int step_u(unsigned int x) { return static_cast<unsigned int>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" unsigned int cb_u(unsigned int x) { return static_cast<unsigned int>(x ^ 5); }
}  // namespace
H(u) {
  unsigned int x = vp_any<unsigned int>(), y = vp_any<unsigned int>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(u_step(x)), unsigned int>);
  VP_CHECK(u_step(x) == step_u(x) && u_c(x) == step_u(x));
  std::tuple<bool, unsigned int> t = u_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<unsigned int> o = u_opt(x);
  VP_CHECK(o.has_value() && *o == step_u(x) && !u_opt(std::nullopt).has_value());
  u_at(&x, &q);
  VP_CHECK(q == step_u(x));
  const unsigned int& r = u_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(u_call(cb_u, x) == step_u(cb_u(x)));
  unsigned int x0 = x, y0 = y;
  u_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(u_rec) {
  static unsigned int y;
  unsigned int x = vp_any<unsigned int>();
  y = vp_any<unsigned int>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Ru v = Ru::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), unsigned int> && std::is_same_v<decltype(v.p), const unsigned int*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_u(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
short step_s(short x) { return static_cast<short>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" short cb_s(short x) { return static_cast<short>(x ^ 5); }
}  // namespace
H(s) {
  short x = vp_any<short>(), y = vp_any<short>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(s_step(x)), short>);
  VP_CHECK(s_step(x) == step_s(x) && s_c(x) == step_s(x));
  std::tuple<bool, short> t = s_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<short> o = s_opt(x);
  VP_CHECK(o.has_value() && *o == step_s(x) && !s_opt(std::nullopt).has_value());
  s_at(&x, &q);
  VP_CHECK(q == step_s(x));
  const short& r = s_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(s_call(cb_s, x) == step_s(cb_s(x)));
  short x0 = x, y0 = y;
  s_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(s_rec) {
  static short y;
  short x = vp_any<short>();
  y = vp_any<short>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rs v = Rs::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), short> && std::is_same_v<decltype(v.p), const short*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_s(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
unsigned short step_us(unsigned short x) { return static_cast<unsigned short>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" unsigned short cb_us(unsigned short x) { return static_cast<unsigned short>(x ^ 5); }
}  // namespace
H(us) {
  unsigned short x = vp_any<unsigned short>(), y = vp_any<unsigned short>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(us_step(x)), unsigned short>);
  VP_CHECK(us_step(x) == step_us(x) && us_c(x) == step_us(x));
  std::tuple<bool, unsigned short> t = us_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<unsigned short> o = us_opt(x);
  VP_CHECK(o.has_value() && *o == step_us(x) && !us_opt(std::nullopt).has_value());
  us_at(&x, &q);
  VP_CHECK(q == step_us(x));
  const unsigned short& r = us_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(us_call(cb_us, x) == step_us(cb_us(x)));
  unsigned short x0 = x, y0 = y;
  us_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(us_rec) {
  static unsigned short y;
  unsigned short x = vp_any<unsigned short>();
  y = vp_any<unsigned short>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rus v = Rus::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), unsigned short> && std::is_same_v<decltype(v.p), const unsigned short*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_us(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
signed char step_sc(signed char x) { return static_cast<signed char>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" signed char cb_sc(signed char x) { return static_cast<signed char>(x ^ 5); }
}  // namespace
H(sc) {
  signed char x = vp_any<signed char>(), y = vp_any<signed char>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(sc_step(x)), signed char>);
  VP_CHECK(sc_step(x) == step_sc(x) && sc_c(x) == step_sc(x));
  std::tuple<bool, signed char> t = sc_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<signed char> o = sc_opt(x);
  VP_CHECK(o.has_value() && *o == step_sc(x) && !sc_opt(std::nullopt).has_value());
  sc_at(&x, &q);
  VP_CHECK(q == step_sc(x));
  const signed char& r = sc_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(sc_call(cb_sc, x) == step_sc(cb_sc(x)));
  signed char x0 = x, y0 = y;
  sc_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(sc_rec) {
  static signed char y;
  signed char x = vp_any<signed char>();
  y = vp_any<signed char>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Rsc v = Rsc::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), signed char> && std::is_same_v<decltype(v.p), const signed char*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_sc(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

namespace {
unsigned char step_uc(unsigned char x) { return static_cast<unsigned char>(static_cast<unsigned long long>(x) * 3 + 1); }
extern "C" unsigned char cb_uc(unsigned char x) { return static_cast<unsigned char>(x ^ 5); }
}  // namespace
H(uc) {
  unsigned char x = vp_any<unsigned char>(), y = vp_any<unsigned char>(), q = y;
  bool b = vp_any<unsigned char>() & 1;
  static_assert(std::is_same_v<decltype(uc_step(x)), unsigned char>);
  VP_CHECK(uc_step(x) == step_uc(x) && uc_c(x) == step_uc(x));
  std::tuple<bool, unsigned char> t = uc_pair(x, b, y);
  VP_CHECK(std::get<0>(t) == !b && std::get<1>(t) == (b ? x : y));
  std::optional<unsigned char> o = uc_opt(x);
  VP_CHECK(o.has_value() && *o == step_uc(x) && !uc_opt(std::nullopt).has_value());
  uc_at(&x, &q);
  VP_CHECK(q == step_uc(x));
  const unsigned char& r = uc_pick(b, &x, &y);
  VP_CHECK(&r == (b ? &x : &y));
  VP_CHECK(uc_call(cb_uc, x) == step_uc(cb_uc(x)));
  unsigned char x0 = x, y0 = y;
  uc_swap(x, y);
  VP_CHECK(x == y0 && y == x0);
}
H(uc_rec) {
  static unsigned char y;
  unsigned char x = vp_any<unsigned char>();
  y = vp_any<unsigned char>();
  bool some = vp_any<unsigned char>() & 1;
  unsigned char a = vp_any<unsigned char>();
  vp_assume(a < 254);
  Ruc v = Ruc::of(a, x, &y, some);
  static_assert(std::is_same_v<decltype(v.b), unsigned char> && std::is_same_v<decltype(v.p), const unsigned char*>);
  VP_CHECK(v.a == a && v.b == x && v.p == &y);
  VP_CHECK(v.o.has_value() == some && (!some || *v.o == x));
  VP_CHECK(v.next() == x && v.b == step_uc(x) && v.a == a + 1);
  v.b = y;
  VP_CHECK(v.sum() == (static_cast<unsigned long long>(y) ^ v.a ^ 1));
  v.p = &v.b;
  VP_CHECK(v.next() == y);
}

H(consts) {
  static_assert(std::is_same_v<decltype(K_char_0), const char>);
  VP_CHECK(K_char_0 == k_char_0());
  static_assert(std::is_same_v<decltype(K_char_1), const char>);
  VP_CHECK(K_char_1 == k_char_1());
  static_assert(std::is_same_v<decltype(K_char_2), const char>);
  VP_CHECK(K_char_2 == k_char_2());
  static_assert(std::is_same_v<decltype(K_char_3), const char>);
  VP_CHECK(K_char_3 == k_char_3());
  static_assert(std::is_same_v<decltype(K_char_4), const char>);
  VP_CHECK(K_char_4 == k_char_4());
  static_assert(std::is_same_v<decltype(K_ll_0), const long long>);
  VP_CHECK(K_ll_0 == k_ll_0());
  static_assert(std::is_same_v<decltype(K_ll_1), const long long>);
  VP_CHECK(K_ll_1 == k_ll_1());
  static_assert(std::is_same_v<decltype(K_ll_2), const long long>);
  VP_CHECK(K_ll_2 == k_ll_2());
  static_assert(std::is_same_v<decltype(K_ull_0), const unsigned long long>);
  VP_CHECK(K_ull_0 == k_ull_0());
  static_assert(std::is_same_v<decltype(K_ull_1), const unsigned long long>);
  VP_CHECK(K_ull_1 == k_ull_1());
  static_assert(std::is_same_v<decltype(K_ull_2), const unsigned long long>);
  VP_CHECK(K_ull_2 == k_ull_2());
  static_assert(std::is_same_v<decltype(K_l_0), const long>);
  VP_CHECK(K_l_0 == k_l_0());
  static_assert(std::is_same_v<decltype(K_l_1), const long>);
  VP_CHECK(K_l_1 == k_l_1());
  static_assert(std::is_same_v<decltype(K_ul_0), const unsigned long>);
  VP_CHECK(K_ul_0 == k_ul_0());
  static_assert(std::is_same_v<decltype(K_i_0), const int>);
  VP_CHECK(K_i_0 == k_i_0());
  static_assert(std::is_same_v<decltype(K_i_1), const int>);
  VP_CHECK(K_i_1 == k_i_1());
  static_assert(std::is_same_v<decltype(K_u_0), const unsigned int>);
  VP_CHECK(K_u_0 == k_u_0());
  static_assert(std::is_same_v<decltype(K_s_0), const short>);
  VP_CHECK(K_s_0 == k_s_0());
  static_assert(std::is_same_v<decltype(K_us_0), const unsigned short>);
  VP_CHECK(K_us_0 == k_us_0());
  static_assert(std::is_same_v<decltype(K_sc_0), const signed char>);
  VP_CHECK(K_sc_0 == k_sc_0());
  static_assert(std::is_same_v<decltype(K_uc_0), const unsigned char>);
  VP_CHECK(K_uc_0 == k_uc_0());
}
