// Rust structs that are C++ enums (cpp_enum): their enumerators have the values of the Rust constants, and values are passed as they are.
#include "vp.h"
#include "cpe.h"
#include <optional>
#include <type_traits>
#include <utility>
template <class T> static T A() { return vp_any<T>(); }
using namespace cpe;
template <class E, class U> constexpr bool kind(bool scoped) {
  return std::is_enum_v<E> && std::is_same_v<std::underlying_type_t<E>, U> && std::is_convertible_v<E, U> == !scoped && sizeof(E) == sizeof(U);
}
static_assert(kind<I8, int8_t>(true));
H(i8) {
  typedef int8_t U; U x = A<U>(), y = A<U>(); I8 e = static_cast<I8>(x), f = static_cast<I8>(y);
  VP_CHECK(i8_of(x) == e && U(i8_not(e)) == U(~x));
  VP_CHECK(U(cpe::I8::MIN) == U(-128));
  VP_CHECK(U(cpe::I8::MAX) == U(127));
  VP_CHECK(U(cpe::I8::Z) == U(0));
  VP_CHECK(U(cpe::I8::NEG) == U(-1));
  size_t w = i8_which(e);
  VP_CHECK(w == (x == U(-128) ? 0 : x == U(127) ? 1 : x == U(0) ? 2 : x == U(-1) ? 3 : 4));
  VP_CHECK(i8_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = i8_opt(s ? std::optional<I8>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::I8::MIN);
  else VP_CHECK(o.has_value() == (f != cpe::I8::MIN) && (!o || *o == f));
}
static_assert(kind<U8, uint8_t>(false));
H(u8) {
  typedef uint8_t U; U x = A<U>(), y = A<U>(); U8 e = static_cast<U8>(x), f = static_cast<U8>(y);
  VP_CHECK(u8_of(x) == e && U(u8_not(e)) == U(~x));
  VP_CHECK(U(cpe::U8_MAX) == U(255));
  VP_CHECK(U(cpe::U8_MID) == U(128));
  VP_CHECK(U(cpe::U8_Z) == U(0));
  size_t w = u8_which(e);
  VP_CHECK(w == (x == U(255) ? 0 : x == U(128) ? 1 : x == U(0) ? 2 : 3));
  VP_CHECK(u8_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = u8_opt(s ? std::optional<U8>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::U8_MAX);
  else VP_CHECK(o.has_value() == (f != cpe::U8_MAX) && (!o || *o == f));
}
static_assert(kind<I16, int16_t>(true));
H(i16) {
  typedef int16_t U; U x = A<U>(), y = A<U>(); I16 e = static_cast<I16>(x), f = static_cast<I16>(y);
  VP_CHECK(i16_of(x) == e && U(i16_not(e)) == U(~x));
  VP_CHECK(U(cpe::I16::MIN) == U(-32768));
  VP_CHECK(U(cpe::I16::MAX) == U(32767));
  VP_CHECK(U(cpe::I16::NEG) == U(-300));
  size_t w = i16_which(e);
  VP_CHECK(w == (x == U(-32768) ? 0 : x == U(32767) ? 1 : x == U(-300) ? 2 : 3));
  VP_CHECK(i16_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = i16_opt(s ? std::optional<I16>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::I16::MIN);
  else VP_CHECK(o.has_value() == (f != cpe::I16::MIN) && (!o || *o == f));
}
static_assert(kind<U16, uint16_t>(true));
H(u16) {
  typedef uint16_t U; U x = A<U>(), y = A<U>(); U16 e = static_cast<U16>(x), f = static_cast<U16>(y);
  VP_CHECK(u16_of(x) == e && U(u16_not(e)) == U(~x));
  VP_CHECK(U(cpe::U16::MAX) == U(65535));
  VP_CHECK(U(cpe::U16::MID) == U(32768));
  VP_CHECK(U(cpe::U16::LOW) == U(32767));
  VP_CHECK(U(cpe::U16::L2) == U(32766));
  size_t w = u16_which(e);
  VP_CHECK(w == (x == U(65535) ? 0 : x == U(32768) ? 1 : x == U(32767) ? 2 : x == U(32766) ? 3 : 4));
  VP_CHECK(u16_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = u16_opt(s ? std::optional<U16>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::U16::MAX);
  else VP_CHECK(o.has_value() == (f != cpe::U16::MAX) && (!o || *o == f));
}
static_assert(kind<I32, int32_t>(false));
H(i32) {
  typedef int32_t U; U x = A<U>(), y = A<U>(); I32 e = static_cast<I32>(x), f = static_cast<I32>(y);
  VP_CHECK(i32_of(x) == e && U(i32_not(e)) == U(~x));
  VP_CHECK(U(cpe::I32_MIN) == U(-2147483648));
  VP_CHECK(U(cpe::I32_MAX) == U(2147483647));
  VP_CHECK(U(cpe::I32_NEG) == U(-40000));
  size_t w = i32_which(e);
  VP_CHECK(w == (x == U(-2147483648) ? 0 : x == U(2147483647) ? 1 : x == U(-40000) ? 2 : 3));
  VP_CHECK(i32_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = i32_opt(s ? std::optional<I32>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::I32_MIN);
  else VP_CHECK(o.has_value() == (f != cpe::I32_MIN) && (!o || *o == f));
}
static_assert(kind<U32, uint32_t>(true));
H(u32) {
  typedef uint32_t U; U x = A<U>(), y = A<U>(); U32 e = static_cast<U32>(x), f = static_cast<U32>(y);
  VP_CHECK(u32_of(x) == e && U(u32_not(e)) == U(~x));
  VP_CHECK(U(cpe::U32::MAX) == U(4294967295));
  VP_CHECK(U(cpe::U32::MID) == U(2147483648));
  VP_CHECK(U(cpe::U32::LOW) == U(2147483647));
  size_t w = u32_which(e);
  VP_CHECK(w == (x == U(4294967295) ? 0 : x == U(2147483648) ? 1 : x == U(2147483647) ? 2 : 3));
  VP_CHECK(u32_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = u32_opt(s ? std::optional<U32>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::U32::MAX);
  else VP_CHECK(o.has_value() == (f != cpe::U32::MAX) && (!o || *o == f));
}
static_assert(kind<I64, int64_t>(true));
H(i64) {
  typedef int64_t U; U x = A<U>(), y = A<U>(); I64 e = static_cast<I64>(x), f = static_cast<I64>(y);
  VP_CHECK(i64_of(x) == e && U(i64_not(e)) == U(~x));
  VP_CHECK(U(cpe::I64::MIN) == U((-9223372036854775807 - 1)));
  VP_CHECK(U(cpe::I64::MAX) == U(9223372036854775807));
  VP_CHECK(U(cpe::I64::LOW) == U(-9223372036854775807));
  VP_CHECK(U(cpe::I64::NEG) == U(-1099511627776));
  size_t w = i64_which(e);
  VP_CHECK(w == (x == U((-9223372036854775807 - 1)) ? 0 : x == U(9223372036854775807) ? 1 : x == U(-9223372036854775807) ? 2 : x == U(-1099511627776) ? 3 : 4));
  VP_CHECK(i64_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = i64_opt(s ? std::optional<I64>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::I64::MIN);
  else VP_CHECK(o.has_value() == (f != cpe::I64::MIN) && (!o || *o == f));
}
static_assert(kind<U64, uint64_t>(true));
H(u64) {
  typedef uint64_t U; U x = A<U>(), y = A<U>(); U64 e = static_cast<U64>(x), f = static_cast<U64>(y);
  VP_CHECK(u64_of(x) == e && U(u64_not(e)) == U(~x));
  VP_CHECK(U(cpe::U64::MAX) == U(18446744073709551615u));
  VP_CHECK(U(cpe::U64::MID) == U(9223372036854775808u));
  VP_CHECK(U(cpe::U64::BIG) == U(9007199254740993));
  size_t w = u64_which(e);
  VP_CHECK(w == (x == U(18446744073709551615u) ? 0 : x == U(9223372036854775808u) ? 1 : x == U(9007199254740993) ? 2 : 3));
  VP_CHECK(u64_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = u64_opt(s ? std::optional<U64>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::U64::MAX);
  else VP_CHECK(o.has_value() == (f != cpe::U64::MAX) && (!o || *o == f));
}
static_assert(kind<Us, uintptr_t>(true));
H(us) {
  typedef uintptr_t U; U x = A<U>(), y = A<U>(); Us e = static_cast<Us>(x), f = static_cast<Us>(y);
  VP_CHECK(us_of(x) == e && U(us_not(e)) == U(~x));
  VP_CHECK(U(cpe::Us::MAX) == U(18446744073709551615u));
  VP_CHECK(U(cpe::Us::ONE) == U(1));
  size_t w = us_which(e);
  VP_CHECK(w == (x == U(18446744073709551615u) ? 0 : x == U(1) ? 1 : 2));
  VP_CHECK(us_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = us_opt(s ? std::optional<Us>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::Us::MAX);
  else VP_CHECK(o.has_value() == (f != cpe::Us::MAX) && (!o || *o == f));
}
static_assert(kind<Is, intptr_t>(true));
H(is) {
  typedef intptr_t U; U x = A<U>(), y = A<U>(); Is e = static_cast<Is>(x), f = static_cast<Is>(y);
  VP_CHECK(is_of(x) == e && U(is_not(e)) == U(~x));
  VP_CHECK(U(cpe::Is::MIN) == U((-9223372036854775807 - 1)));
  VP_CHECK(U(cpe::Is::MAX) == U(9223372036854775807));
  VP_CHECK(U(cpe::Is::NEG) == U(-2));
  size_t w = is_which(e);
  VP_CHECK(w == (x == U((-9223372036854775807 - 1)) ? 0 : x == U(9223372036854775807) ? 1 : x == U(-2) ? 2 : 3));
  VP_CHECK(is_put(e, f) == x && e == f);
  bool s = A<bool>();
  auto o = is_opt(s ? std::optional<Is>(f) : std::nullopt);
  if (!s) VP_CHECK(o.has_value() && *o == cpe::Is::MIN);
  else VP_CHECK(o.has_value() == (f != cpe::Is::MIN) && (!o || *o == f));
}
H(held) {
  uint64_t x = A<uint64_t>(); uint8_t k = A<uint8_t>();
  Held h = Held::make(x);
  VP_CHECK(int8_t(h.a) == int8_t(x) && uint32_t(h.b) == uint32_t(x >> 8) && uint8_t(h.c[0]) == uint8_t(x) && uint8_t(h.c[2]) == 7 && int64_t(h.d) == int64_t(x));
  h.a = I8::NEG; h.c[1] = static_cast<U8>(k); h.b = U32::MID;
  VP_CHECK(h.sum() == (255 ^ (uint64_t(1) << 31) << 8 ^ uint64_t(k) << 48 ^ (x << 3 | x >> 61)));
}
H(views) {
  U16 a[3] = {static_cast<U16>(A<uint16_t>()), static_cast<U16>(A<uint16_t>()), U16::MID};
  uint32_t h = 0; size_t n = vp_pick(4);
  for (size_t i = 0; i < n; ++i) h = (h << 7 | h >> 25) ^ uint32_t(uint16_t(a[i]));
  VP_CHECK(cpe::slice(rs_std::SliceRef<const U16>(a, n)) == h);
  uint8_t u = A<uint8_t>(); int64_t v = A<int64_t>();
  auto t = cpe::tuple({static_cast<U8>(u), static_cast<I64>(v)});
  VP_CHECK(int64_t(std::get<0>(t)) == ~v && uint8_t(std::get<1>(t)) == uint8_t(~u));
}
