#include <optional>
#include <string_view>
#include <tuple>
#include <type_traits>
#include "vp.h"
#include "more.h"
using more::S;
typedef unsigned long long W;
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned u32;
static W mx(W h, W x) { return ((h << 9) | (h >> 55)) + x; }
extern "C" { static u32 flip(u32 x) { return ~x; } }
H(defaults) {
  u32 v = vp_any<u32>(), x = vp_any<u32>();
  S s = S::of(v);
  VP_CHECK((rs_std::where_v<S, more::Def<int>> && rs_std::where_v<S, more::Def<u8>> && !rs_std::where_v<S, more::Def<u32>>));
  VP_CHECK((rs_std::where_v<S, more::Pair<u8, u16>> && rs_std::where_v<S, more::Pair<u8, u32>> && rs_std::where_v<S, more::Pair<u16, u8>> && !rs_std::where_v<S, more::Pair<u8, u8>>));
  VP_CHECK(more::Def<int>::impl<S>::def(s, (int)x) == (int)(x ^ v));
  VP_CHECK(more::Def<u8>::impl<S>::def(s, x) == (u8)(x + v));
  VP_CHECK(more::Tag<int>::impl<S>::tag(s) == (v ^ 101) && more::Tag<S>::impl<S>::tag(s) == (v ^ 102) && more::Tag<more::Hd>::impl<S>::tag(s) == (v ^ 103));
  {
    more::Hd h = more::Hd::of(x);
    VP_CHECK((more::Tag<S>::impl<more::Hd>::tag(h) == (x ^ 104) && !rs_std::where_v<more::Hd, more::Tag<int>>));
  }
  u8 y = vp_any<u8>();
  VP_CHECK((more::Pair<u8, u16>::impl<S>::pair(s, y, x) == mx(mx(v, y), (u16)x)));
  VP_CHECK((more::Pair<u8, u32>::impl<S>::pair(s, y, x) == mx(mx(81, x), y)));
  VP_CHECK((more::Pair<u16, u8>::impl<S>::pair(s, x, y) == mx(mx(82, (u16)x), y)));
}
H(assoc) {
  u32 v = vp_any<u32>(), x = vp_any<u32>();
  {
    S s = S::of(v);
    VP_CHECK((std::is_same_v<decltype(more::Assoc::impl<S>::out(s)), u16> && std::is_same_v<more::Assoc::impl<S>::Out, u16> && std::is_same_v<more::Assoc::impl<more::Hd>::Out, S>));
    VP_CHECK(more::Assoc::impl<S>::out(s) == (u16)v && more::Assoc::impl<S>::id(s, x) == (u16)(v >> 16) && s.__field0 == (u16)x);
    more::Hd h = more::Hd::of(v);
    VP_CHECK(more::Assoc::impl<more::Hd>::out(h).__field0 == ~v && more::Assoc::impl<more::Hd>::id(h, S::of(x)).__field0 == v && h.get() == x);
  }
  VP_CHECK(vp_live_heap() == 0);
}
H(same_name) {
  u32 v = vp_any<u32>();
  {
    S s = S::of(v);
    more::Hd h = more::Hd::of(v);
    VP_CHECK(s.a() == (v ^ 1) && more::Sup::impl<S>::a(s) == (v ^ 2) && more::Sub::impl<S>::a(s) == (v ^ 4) && more::Sup::impl<S>::z(s) == (v ^ 12));
    VP_CHECK(more::Sup::impl<more::Hd>::a(h) == (v ^ 16) && more::Sup::impl<more::Hd>::z(h) == (v ^ 32));
    VP_CHECK((rs_std::where_v<more::Hd, more::Sup> && !rs_std::where_v<more::Hd, more::Sub> && rs_std::where_v<S, more::Sup, more::Sub>));
  }
}
H(words) {
  u32 v = vp_any<u32>(), x = vp_any<u32>();
  S s = S::of(v);
  using T = more::Words::impl<S>;
  VP_CHECK(T::type(s) == (v ^ 91) && T::new_() == 92 && S::new_() == 50 && T::drop(s) == (v ^ 93) && T::operator_(s, x) == (v & x));
  VP_CHECK(T::default_() == 95 && T::clone(s) == (v ^ 96) && s.__field0 == v);
}
H(io) {
  u32 v = vp_any<u32>(), x = vp_any<u32>();
  u8 y = vp_any<u8>();
  {
    S s = S::of(v);
    using T = more::Io::impl<S>;
    std::optional<u32> o = T::o(s, y & 1);
    VP_CHECK(o.has_value() == (y & 1) && (!o || *o == v));
    VP_CHECK(T::i(s, x) == x && T::i(s, std::nullopt) == v);
    std::tuple<u32, u8> t = T::t(s, std::make_tuple(y, x));
    VP_CHECK(std::get<0>(t) == (x ^ v) && std::get<1>(t) == (u8)~y);
    more::Hd h = T::h(s, more::Hd::of(x));
    VP_CHECK(h.get() == (x ^ v));
    VP_CHECK(T::c(s, flip) == (~v ^ 3));
    char c[3] = {(char)(y & 127), 0, 'z'};
    int n = vp_pick(4);
    W w = v;
    for (int i = 0; i < n; ++i) w = mx(w, (u8)c[i]);
    VP_CHECK(T::s(s, *rs_std::StrRef::FromUtf8(std::string_view(c, n))) == w);
    u16 a[3] = {vp_any<u16>(), (u16)x, 65535};
    w = v;
    for (int i = 0; i < n; ++i) w = mx(w, a[i]);
    VP_CHECK(T::l(s, rs_std::SliceRef<const u16>(a, n)) == w);
  }
  VP_CHECK(vp_live_heap() == 0);
}
