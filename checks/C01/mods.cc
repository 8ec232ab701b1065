// Names: every path under which Rust exports an item leads to that item.
#include "vp.h"
#include "ext.h"
#include "mods.h"
#include <array>
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
template <class T> static T A() { return vp_any<T>(); }
H(one_name) {
  u32 x = A<u32>();
  VP_CHECK(mods::same(x) == (x ^ 1));
  VP_CHECK(mods::m1::same(x) == (x ^ 2));
  VP_CHECK(mods::m1::m1::same(x) == (x ^ 3));
  VP_CHECK(mods::m1::m1::up(x) == 3);
  VP_CHECK(mods::m2::same(x) == (x ^ 4));
  VP_CHECK(mods::m2::m1::same(x) == (x ^ 5));
  VP_CHECK(mods::m2::m1::S::same(x) == (x ^ 6));
  VP_CHECK(mods::m2::m1::S::of(x).a == x);
  VP_CHECK(mods::local(x) == (x ^ 81));
  VP_CHECK(ext::same(x) == (x ^ 101) && ext::er::same(x) == (x ^ 102));
}
H(swapped) {
  u32 x = A<u32>(); u8 b = A<u8>();
  VP_CHECK(mods::g(x) == x + 1 && mods::f(x) == x * 3);
  mods::U t = mods::U::make(x, b);  // hidden::T
  VP_CHECK(t.a == x && t.both() == (x ^ u32(b) << 9));
  t.put(~b);
  VP_CHECK(t.both() == (x ^ u32(u8(~b)) << 9));
  mods::T u = mods::T::make(x, b);  // hidden::U
  VP_CHECK(u.a == ~x && u.b == b && u.both() == ~x - b);
  VP_CHECK(mods::take_u(std::move(u)) == ~x - b);
  static_assert(std::is_same_v<mods::AlsoT, mods::U> && std::is_same_v<mods::Alias, mods::U> && std::is_same_v<mods::AliasOfAlias, mods::U> && std::is_same_v<mods::Alias3, mods::U>);
  static_assert(!std::is_same_v<mods::T, mods::U>);
  VP_CHECK(mods::take_t(mods::U::make(x, b)) == (x ^ u32(b) << 9));
  mods::AlsoT r = mods::give(std::move(t));
  VP_CHECK(r.a == ~x && r.both() == (~x ^ 1 << 9));
  VP_CHECK(mods::E::of(x).code() == (x < 100 ? x : u64(x) << 32));
}
H(glob) {
  u32 x = A<u32>();
  VP_CHECK(mods::one(x) == (x ^ 31) && mods::two(x) == (x ^ 42) && mods::four(x) == (x ^ 34));
  VP_CHECK(mods::outer::same(x) == (x ^ 32));
  mods::G g = mods::G::make(x);
  VP_CHECK(g.z == x && g.z2() == (x ^ 2));
  VP_CHECK(mods::outer::in2::deep(x) == (x ^ 51) && mods::outer::deeper(x) == (x ^ 51));
  VP_CHECK(mods::outer::in2::Dp::of(u16(x)).g() == u16(~x));
  VP_CHECK(mods::chain::a::step(x) == (x ^ 61) && mods::chain::b::step(x) == (x ^ 61) && mods::chain::c::step(x) == (x ^ 61) && mods::chain::last(x) == (x ^ 61));
}
H(other_crate) {
  u32 x = A<u32>(), v = A<u32>(); u8 k = A<u8>();
  mods::Q q = mods::Q::make(v, k);
  static_assert(std::is_same_v<mods::Q, ext::Q> && std::is_same_v<mods::Q2, ext::Q> && std::is_same_v<mods::R, ext::er::R>);
  u32 want = v ^ (x << (k & 31) | (k & 31 ? x >> (32 - (k & 31)) : 0));
  VP_CHECK(q.v == v && q.get(x) == want && mods::q_get(q, x) == (want ^ 1));
  VP_CHECK(mods::q_of(v).get(x) == (v ^ (x << 3 | x >> 29)));
  VP_CHECK(mods::ext_same(x) == (x ^ 101) && mods::shallow(x) == (x ^ 102));
  mods::R r = __builtin_bit_cast(mods::R, u64(v) << 32 | k);
  VP_CHECK(r.a == k && r.b == v && r.sum() == (k ^ v) && mods::r_sum(r) == (k ^ v ^ 2));
}
H(spread) {
  u32 x = A<u32>(), y = A<u32>();
  mods::Spread s = mods::Spread::of(x);
  VP_CHECK(s.top() == (x ^ 71) && s.side() == (x ^ 72) && s.bottom(y) == (x ^ 73) && s.a == y);
}
H(constants) {
  u64 w = A<u64>();
  VP_CHECK((w == mods::consts::W) == (w == (u64(1) << 40) + 3) && mods::consts::W3 == mods::consts::W * 2);
  VP_CHECK(mods::D == 11 && mods::C == 12 && mods::SHORT == -5);
  VP_CHECK(mods::WORDS.size() == 4 && u8(mods::WORDS.data()[1]) == 0xc3 && mods::WORDS.data()[3] == '\n');
  static_assert(std::is_same_v<mods::W16, u8> && std::is_same_v<mods::W8, u16> && std::is_same_v<mods::Trio, std::array<u16, 3>>);
  u16 b = u16(w);
  VP_CHECK(mods::widths(u8(w >> 16), b) == (u32(u8(w >> 16)) | u32(b) << 8));
}
