// Generic Rust types that are layout-equivalent to C++ templates, and their specializations.
#include "vp.h"
#include "gener.h"
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32;
template <class T> static T A() { return vp_any<T>(); }
using gen::Opt; using gen::Pair; using gen::Flip;
template <class T> static Opt<T> any() { bool f = A<bool>(); return {f, A<T>()}; }
H(one) {
  auto a = any<u32>(); auto r = gener::not_u32(a);
  VP_CHECK(r.has == !a.has && r.value == ~a.value);
  auto b = any<u8>(); auto s = gener::box8({b.has, b.value});
  VP_CHECK(s.has == !b.has && s.value == (b.value ^ 0x55));
  auto q = gener::not_u8({b.has, b.value});
  VP_CHECK(q.has == !b.has && q.value == u8(~b.value));
  static_assert(std::is_same_v<decltype(s), gen::Box8> && std::is_same_v<decltype(q), gen::Box8>);
  auto c = any<intptr_t>(); auto t = gener::not_isize(c);
  VP_CHECK(t.has == !c.has && t.value == ~c.value);
  auto d = any<u16>(); auto u = gener::plain(d);
  VP_CHECK(u.has == d.has && u.value == (d.value ^ 1));
}
H(referred) {
  auto a = any<u32>(); auto old = a; u32 x = A<u32>();
  VP_CHECK(gener::by_ref(a) == (a.has ? a.value : 7));
  VP_CHECK(gener::by_mut(a, x) == old.value && a.has == !old.has && a.value == x);
}
H(pointers) {
  u32 x; bool f = A<bool>();
  Opt<u32 const*> o{f, &x};
  auto r = gener::ptr_of(o);
  VP_CHECK(r.has == !f && r.value == &x);
}
H(chars) {
  auto c = rs_std::char_::from_u32(A<u32>());
  if (!c) return;
  bool f = A<bool>();
  auto r = gener::ch({f, *c});
  VP_CHECK(r.has == f && u32(r.value) == (u32(*c) == 'q' ? 0x10FFFF : u32(*c)));
}
H(nested) {
  bool f = A<bool>(); auto i = any<u8>();
  auto r = gener::nested({f, {i.has, i.value}});
  VP_CHECK(r.has == i.has && r.value.has == f && r.value.value == u8(~i.value));
}
H(pairs) {
  u8 a = A<u8>(); u32 b = A<u32>(); u64 c = A<u64>(); bool f = A<bool>();
  auto r = gener::pair({a, b});
  VP_CHECK(r.first == b && r.second == a);
  auto s = gener::pair_same({u16(b), u16(c)});
  VP_CHECK(s.first == u16(c) && s.second == u16(b));
  auto t = gener::pair_deep({{f, a}, {u8(b), c}});
  VP_CHECK(t.first.first == c && t.first.second == u8(b) && t.second.has == f && t.second.value == a);
  static_assert(sizeof(t) == 24);
  auto v = gener::flip(Flip<u64, u8>{a, c});
  static_assert(std::is_same_v<decltype(v), Flip<u8, u64>>);
  VP_CHECK(v.a == a && v.b == c);
  Pair<rs_std::Option<u8>, u16> p{f ? rs_std::Option<u8>(a) : rs_std::Option<u8>(std::nullopt), u16(b)};
  auto w = gener::pair_opt(p);
  VP_CHECK(w.first == u16(b) && w.second.has_value() == f && (!f || *w.second == u8(~a)));
}
H(specialized) {
  bool f = A<bool>(); i32 x = A<i32>();
  auto s = gener::status({f});
  static_assert(std::is_same_v<decltype(s), gen::Status>);
  VP_CHECK(s.ok == !f);
  auto p = gener::int_bool({x, f});
  static_assert(std::is_same_v<decltype(p), gen::IntBool>);
  VP_CHECK(p.first == ~x && p.second == !f);
  auto q = gener::bool_int(Pair<bool, i32>{f, x});
  static_assert(std::is_same_v<decltype(q), gen::IntBool>);
  VP_CHECK(q.first == x && q.second == f);
}
H(kept) {
  u64 x = A<u64>(); bool f = A<bool>(); u16 n = A<u16>();
  auto k = gener::Keep::make(x, f);
  static_assert(sizeof(k) == 40 && offsetof(gener::Keep, b) == 8 && offsetof(gener::Keep, c) == 24 && offsetof(gener::Keep, d) == 32);
  VP_CHECK(k.a.has == f && k.a.value == u16(x) && k.b.first == u8(x) && k.b.second == ~x);
  VP_CHECK(k.c.first == i32(x >> 8) && k.c.second == !f && k.d[0].has == f && k.d[0].value == u16(x >> 16) && k.d[1].value == u16(x >> 32) && k.d[1].has == !f);
  k.a.value = n; k.a.has = !f; k.d[1].value = u16(~n); k.c.second = f;
  u64 s = ~x;
  VP_CHECK(k.sum() == (u64(n) ^ (s << 7 | s >> 57) ^ u64(u8(x)) << 3 ^ u64(u32(x >> 8)) << 9 ^ u64(f) ^ u64(u16(~n)) << 40 ^ u64(!f) << 63));
}
H(inside) {
  u8 a = A<u8>(), b = A<u8>(); u32 c = A<u32>(); bool f = A<bool>();
  auto r = gener::opt_of(f ? std::optional<Pair<u8, u32>>(Pair<u8, u32>{a, c}) : std::nullopt);
  VP_CHECK(r.has_value() == f && (!f || (r->first == c && r->second == a)));
  Pair<u8, u16> s[3] = {{a, u16(c)}, {b, u16(c >> 16)}, {u8(c), u16(a)}};
  u32 h = 0; size_t n = vp_pick(4);
  for (size_t i = 0; i < n; ++i) h = (h << 5 | h >> 27) ^ u32(s[i].first) << 16 ^ s[i].second;
  VP_CHECK(gener::slice(rs_std::SliceRef<const Pair<u8, u16>>(s, n)) == h);
  auto t = gener::tup({{f, a}, {a, b}});
  VP_CHECK(std::get<0>(t).first == a && std::get<0>(t).second == b && std::get<1>(t).has == f && std::get<1>(t).value == a);
}
