// Conversions: From and Into as constructors, From and Into the other way as conversion operators.
#include "vp.h"
#include "conv.h"
#include <array>
#include <optional>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
template <class T> static T A() { return vp_any<T>(); }
using namespace conv;
static u64 mx(u64 h, u64 x) { return (h << 9 | h >> 55) + x; }
static u64 any(u8 k, u64 h) { return (h * 3 + (u64(k) << 56)) ^ k; }
static u64 tgt(u8 k, u64 h) { return (h * 5 + (u64(k) << 56)) ^ k; }
#define START int heap = vp_live_heap(); {
#define END } VP_CHECK(vp_live_heap() == heap);
static_assert(!std::is_convertible_v<u8, Any> && !std::is_convertible_v<Small, Any> && std::is_constructible_v<Any, Own const&>);
H(scalars) {
  START
  u64 x = A<u64>(); bool f = A<bool>();
  VP_CHECK(Any(u8(x)).code() == any(1, u8(x)));
  VP_CHECK(Any(int8_t(x)).code() == any(2, u64(int8_t(x))));
  VP_CHECK(Any(u16(x)).code() == any(3, u16(x)));
  VP_CHECK(Any(int32_t(x)).code() == any(4, u64(int32_t(x))));
  VP_CHECK(Any(x).code() == any(5, x));
  VP_CHECK(Any(f).code() == any(6, f));
  VP_CHECK(Any(__builtin_bit_cast(float, u32(x))).code() == any(8, u32(x)));
  VP_CHECK(Any(__builtin_bit_cast(double, x)).code() == any(9, x));
  auto c = rs_std::char_::from_u32(u32(x));
  if (c) VP_CHECK(Any(*c).code() == any(7, u32(x)));
  END
}
H(structs) {
  START
  u8 a = A<u8>(); u32 b = A<u32>();
  VP_CHECK(Any(Small::of(a, b)).code() == any(10, mx(a, b)));
  Own o = Own::of(b, a);
  const Own& r = o;
  VP_CHECK(Any(r).code() == any(12, mx(b, a)));
  VP_CHECK(o.code() == mx(b, a));
  END
}
H(compound) {
  START
  u8 a[3] = {A<u8>(), A<u8>(), A<u8>()}; u32 b = A<u32>(); size_t n = vp_pick(4); bool f = A<bool>();
  u64 h = n, g = 0;
  for (size_t i = 0; i < n; ++i) h = mx(h, a[i]);
  for (u8 x : a) g = mx(g, x);
  VP_CHECK(Any(rs_std::SliceRef<const u8>(a, n)).code() == any(13, h));
  char s[2] = {char(a[0] & 127), char(a[1] & 127)};
  VP_CHECK(Any(rs_std::StrRef::FromUtf8Unchecked(std::string_view(s, 2))).code() == any(14, mx(mx(2, a[0] & 127), a[1] & 127)));
  VP_CHECK(Any(f ? std::optional<u8>(a[0]) : std::nullopt).code() == any(15, f ? a[0] : u64(1) << 40));
  VP_CHECK(Any(std::tuple<u8, u32>(a[0], b)).code() == any(16, mx(a[0], b)));
  VP_CHECK(Any(std::array<u8, 3>{a[0], a[1], a[2]}).code() == any(17, g));
  VP_CHECK(Any(f ? &b : static_cast<u32 const*>(nullptr)).code() == any(18, !f));
  END
}
H(by_value) {
  u32 x = A<u32>(); u16 p = A<u16>(), q = A<u16>(); u8 a = A<u8>();
  VP_CHECK(Tr(x).get() == ~x);
  VP_CHECK(Tr(std::tuple<u16, u16>(p, q)).get() == (u32(p) << 16 | q));
  Small s = Small::of(a, x);
  VP_CHECK(Tr(s).get() == (x ^ a));
  View v(&s);
  VP_CHECK(v.sum() == (x ^ a));
  s.b = ~x; s.a = u8(p);
  VP_CHECK(v.sum() == (~x ^ u8(p)));
  VP_CHECK(New(x).__field0 == x && New(a).__field0 == (a ^ 0x100u));
}
H(into) {
  START
  u8 a = A<u8>(), c = A<u8>(); u32 b = A<u32>(); bool f = A<bool>();
  VP_CHECK(Tgt(u16(b)).code() == tgt(1, u16(b)));
  VP_CHECK(Tgt(Small::of(a, b)).code() == tgt(2, mx(a, b)));
  Own o = Own::of(b, a);
  VP_CHECK(Tgt(Own::of(b, a)).code() == tgt(4, mx(b, a)));
  VP_CHECK(Tgt(std::move(o)).code() == tgt(4, mx(b, a)));
  VP_CHECK(Tgt(f ? std::optional<u32>(b) : std::nullopt).code() == tgt(5, f ? b : u64(1) << 40));
  VP_CHECK(Tgt(std::tuple<u8, u8>(a, c)).code() == tgt(6, mx(a, c)));
  VP_CHECK(o.code() == mx(7, 1));
  END
}
H(out) {
  START
  u32 v = A<u32>();
  VP_CHECK(static_cast<u32>(Src::of(v)) == ~v);
  VP_CHECK(static_cast<bool>(Src::of(v)) == bool(v & 1));
  auto o = static_cast<std::optional<u16>>(Src::of(v));
  VP_CHECK(o.has_value() == (v > 99) && (!o || *o == u16(v)));
  auto t = static_cast<std::tuple<u8, u32>>(Src::of(v));
  VP_CHECK(std::get<0>(t) == u8(v) && std::get<1>(t) == v);
  auto s = static_cast<Small>(Src::of(v));
  VP_CHECK(s.a == u8(v) && s.b == v);
  auto w = static_cast<Own>(Src::of(v));
  VP_CHECK(w.code() == mx(v, 55));
  Own x(Src::of(v));
  VP_CHECK(x.code() == mx(v, 55) && Small(Src::of(v)).b == v);
  Src k = Src::of(v);
  VP_CHECK(static_cast<u32>(k) == ~v);
  VP_CHECK(k.val() == 8);
  END
}
