#include "vp.h"
#include "tr.h"
#include <compare>
#include <optional>
#include <tuple>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
template <class T> static T A() { return vp_any<T>(); }
static u64 mx(u64 h, u64 x) { return ((h << 9) | (h >> 55)) + x; }
template <class... T> static u64 mxc(u64 s, T... v) { ((s = mx(s, u64(v))), ...); return s; }
using namespace tr;
#define START int heap = vp_live_heap();
#define END VP_CHECK(vp_live_heap() == heap);
#define BIN(OP, TAG) { N a = N::make(va, ta), b = N::make(vb, tb); N r = a OP b; VP_CHECK(r.v == ((va * 3 + vb) ^ TAG) && r.t == (ta ^ tb ^ TAG) && a.v == va && b.v == vb && a.t == ta && b.t == tb); }
#define ASG(OP, TAG) { N a = N::make(va, ta), b = N::make(vb, tb); a OP b; VP_CHECK(a.v == ((va * 5 - vb) ^ TAG) && a.t == (tb ^ TAG) && b.v == vb && b.t == tb); }
H(binary) {
  u32 va = A<u32>(), vb = A<u32>(); u8 ta = A<u8>(), tb = A<u8>();
  BIN(+, 1)
  BIN(-, 2)
  BIN(*, 3)
  BIN(/, 4)
  BIN(%, 5)
  BIN(&, 6)
  BIN(|, 7)
  BIN(^, 8)
  BIN(<<, 9)
  BIN(>>, 10)
}
H(assign) {
  u32 va = A<u32>(), vb = A<u32>(); u8 ta = A<u8>(), tb = A<u8>();
  ASG(+=, 1)
  ASG(-=, 2)
  ASG(*=, 3)
  ASG(/=, 4)
  ASG(%=, 5)
  ASG(&=, 6)
  ASG(|=, 7)
  ASG(^=, 8)
  ASG(<<=, 9)
  ASG(>>=, 10)
}
H(self_assign) {
  u32 va = A<u32>(); u8 ta = A<u8>();
  N a = N::make(va, ta);
  a += a;
  VP_CHECK(a.v == ((va * 5 - va) ^ 1) && a.t == (ta ^ 1));
}
H(unary) {
  u32 v = A<u32>(); u8 t = A<u8>();
  const N a = N::make(v, t);
  N n = -a, m = !a;
  VP_CHECK(n.v == (v ^ 0x11) && n.t == (t ^ 11) && m.v == (v ^ 0x12) && m.t == (t ^ 12) && a.v == v && a.t == t);
}
H(mixed_types) {
  u32 v = A<u32>(); i8 s = A<i8>(); u8 x = A<u8>(); u16 y = A<u16>();
  N a = N::make(v, 0);
  VP_CHECK((a << s) == i64(v) * 256 + s);
  VP_CHECK((a / std::make_tuple(x, y)) == mxc(v, x, y));
}
H(owner_ops) {
  START
  u32 v = A<u32>(), w = A<u32>(); u8 k = A<u8>(), l = A<u8>(); u16 h = A<u16>(); bool f = A<bool>();
  {
    B a = B::make(v, k), b = B::make(w, l);
    B c = std::move(a) + std::move(b);
    VP_CHECK(c.code() == mxc(u32(v - w), u8(k ^ 1)));
    VP_CHECK(a.code() == mxc(77, 0) && b.code() == mxc(77, 0));
    VP_CHECK((B::make(v, k) - h) == mx(mxc(v, k), h));
    B d = B::make(v, k) - f;
    VP_CHECK(d.code() == (f ? mxc(1, 2) : mxc(v, k)));
    B e = B::make(w, l);
    B g = B::make(v, k) * e;
    VP_CHECK(g.code() == mxc(u32(v - w), l) && e.code() == mxc(w, l));
    e += v;
    VP_CHECK(e.code() == mxc(u32(w + v), l));
    e -= B::make(v, k);
    VP_CHECK(e.code() == mxc(w, k));
    e -= std::move(g);
    VP_CHECK(e.code() == mxc(u32(w - (v - w)), l) && g.code() == mxc(77, 0));
    VP_CHECK(!B::make(v, k) == (v == 0) && -B::make(v, k) == -i64(v));
  }
  END
}
H(index) {
  u32 a = A<u32>(), b = A<u32>(), c = A<u32>(), d = A<u32>(), w = A<u32>(); u64 i = A<u64>(); u8 j = A<u8>();
  Arr r = Arr::make(a, b, c, d); const Arr& cr = r;
  u32 e[4] = {a, b, c, d};
  VP_CHECK(cr[i] == e[i & 3] && r[i] == e[i & 3] && &cr[i] == &r[i]);
  VP_CHECK(cr[Ix(j)] == (j > 3 ? 9 : e[3 - (j & 3)]) && &cr[Ix(j)] == &r[Ix(j)]);
  r[i] = w; e[i & 3] = w;
  VP_CHECK(r.sum() == mxc(0, e[0], e[1], e[2], e[3], 9));
  r[Ix(j)] = 5; if (j <= 3) e[3 - j] = 5;
  VP_CHECK(r.sum() == mxc(0, e[0], e[1], e[2], e[3], j > 3 ? 5 : 9));
}
H(ord) {
  O x = O::make(A<u8>(), A<i16>()), y = O::make(A<u8>(), A<i16>());
  int m = o_cmp(x, y);
  int e = y.b != x.b ? (y.b < x.b ? -1 : 1) : (x.a & 127) < (y.a & 127) ? -1 : (x.a & 127) > (y.a & 127);
  auto c = x <=> y;
  VP_CHECK(m == e && (c == std::strong_ordering::less) == (e < 0) && (c == std::strong_ordering::greater) == (e > 0) && (c == std::strong_ordering::equal) == (e == 0));
  VP_CHECK((x < y) == (e < 0) && (x > y) == (e > 0) && (x <= y) == (e <= 0) && (x >= y) == (e >= 0));
  VP_CHECK((x == y) == (e == 0) && (x != y) == (e != 0) && (y == x) == (e == 0));
  auto q = y <=> x;
  VP_CHECK((q < 0) == (e > 0) && (q > 0) == (e < 0));
}
H(partial_ord) {
  P x = P::make(A<u8>(), A<u8>()), y = P::make(A<u8>(), A<u8>());
  bool un = (x.m & 1) || (y.m & 1);
  auto c = x <=> y;
  VP_CHECK((c == std::partial_ordering::unordered) == un && p_cmp(x, y) == (un ? 5 : x.x < y.x ? -1 : x.x > y.x));
  VP_CHECK((x < y) == (!un && x.x < y.x) && (x > y) == (!un && x.x > y.x) && (x <= y) == (!un && x.x <= y.x) && (x >= y) == (!un && x.x >= y.x));
  VP_CHECK((x == y) == (!un && x.x == y.x) && (x != y) == (un || x.x != y.x));
  u16 w = A<u16>();
  VP_CHECK((x == w) == (((x.x << 8) | x.m) == w) && (x != w) == (((x.x << 8) | x.m) != w));
  u32 v = A<u32>(); B b = B::make(v, 0);
  VP_CHECK((x == b) == (x.x == v) && b.code() == mxc(v, 0));
}
H(float_ord) {
  F x = F::make(A<float>()), y = F::make(A<float>());
  bool un = x.f != x.f || y.f != y.f;
  VP_CHECK(((x <=> y) == std::partial_ordering::unordered) == un);
  VP_CHECK((x < y) == (x.f < y.f) && (x > y) == (x.f > y.f) && (x <= y) == (x.f <= y.f) && (x >= y) == (x.f >= y.f));
  VP_CHECK((x == y) == (x.f == y.f) && (x != y) == (x.f != y.f));
}
H(derived_ord) {
  START
  {
    i8 v = A<i8>(), w = A<i8>();
    BO x = BO::make(v), y = BO::make(w);
    VP_CHECK((x < y) == (v < w) && (x > y) == (v > w) && (x <= y) == (v <= w) && (x >= y) == (v >= w) && (x == y) == (v == w));
    u8 k = A<u8>() % 3, l = A<u8>() % 3, p = A<u8>(), q = A<u8>();
    E3 a = E3::make(k, p), b = E3::make(l, q);
    int e = k != l ? (k < l ? -1 : 1) : k == 0 ? 0 : k == 1 ? (p < q ? -1 : p > q) : (i8(p) < i8(q) ? -1 : i8(p) > i8(q));
    VP_CHECK(a.cm(b) == e && (a < b) == (e < 0) && (a > b) == (e > 0) && (a == b) == (e == 0) && (a != b) == (e != 0) && ((a <=> b) == std::strong_ordering::equal) == (e == 0));
  }
  END
}
H(conversions) {
  START
  i32 v = A<i32>(); u16 x = A<u16>(); u32 w = A<u32>(); u8 k = A<u8>();
  {
    Cv c = Cv::make(v);
    VP_CHECK(static_cast<i64>(c) == i64(v) * 3 && static_cast<u8>(c) == u8(u8(v) ^ 0x5a) && c.v == v);
    N n = static_cast<N>(c); N n2(c);
    VP_CHECK(n.v == u32(v) && n.t == 44 && n2.v == u32(v) && n2.t == 44);
    VP_CHECK(Cv(x).v == -i32(x));
    B b = B::make(w, k);
    Own o(std::move(b));
    VP_CHECK(o.code() == mxc(w, k) && b.code() == mxc(77, 0));
    B b2 = B::make(w, k);
    Own o2 = static_cast<Own>(std::move(b2));
    VP_CHECK(o2.code() == mxc(w, k) && b2.code() == mxc(77, 0));
    VP_CHECK(Own(w).code() == mxc(w, 200));
    VP_CHECK(static_cast<u64>(std::move(o)) == mxc(w, k));
    VP_CHECK(o.code() == mxc(78, 9));
    VP_CHECK(static_cast<i16>(std::move(o2)) == i16(w));
  }
  END
}
H(iterate_value) {
  START
  u8 n = A<u8>(); u32 a = A<u32>(), b = A<u32>(), c = A<u32>();
  int stop = vp_pick(5);
  {
    Col col = Col::make(n, a, b, c); u32 e[3] = {a, b, c};
    int i = 0; bool ok = true;
    for (B& x : std::move(col).into_iter()) {
      ok = ok && i < (n & 3) && x.code() == mxc(e[i < 3 ? i : 0], i + 1);
      i++;
      if (i == stop) break;
    }
    VP_CHECK(ok && i == ((stop && stop <= (n & 3)) ? stop : (n & 3)));
    VP_CHECK(col.sum() == 0);
  }
  END
}
H(iterate_refs) {
  START
  u8 n = A<u8>(); u32 a = A<u32>(), b = A<u32>(), c = A<u32>(), d = A<u32>();
  {
    Col col = Col::make(n, a, b, c); const Col& cc = col; u32 e[3] = {a, b, c};
    int i = 0; bool ok = true;
    for (const B* x : cc) { ok = ok && i < (n & 3) && x->code() == mxc(e[i < 3 ? i : 0], i + 1); i++; }
    VP_CHECK(ok && i == (n & 3));
    i = 0;
    for (B* x : col) { *x += d; i++; }
    VP_CHECK(ok && i == (n & 3));
    u64 h = 0;
    for (int j = 0; j < (n & 3); j++) h = mx(h, mxc(u32(e[j] + d), j + 1));
    VP_CHECK(col.sum() == h);
    VP_CHECK(cc.sum() == h);
  }
  END
}
H(iterate_self) {
  u16 at = A<u16>(); u8 len = A<u8>() & 3;
  Cnt it = Cnt::make(at, u16(at + len));
  int i = 0; bool ok = true;
  for (u16 x : it) { i++; ok = ok && x == (u16(at + i) ^ 0xff); }
  VP_CHECK(ok && i == len);
  bool more = rs_std::impl<Cnt, rs::core::iter::Iterator>::next(it).has_value();
  VP_CHECK(!more);
  auto c = rs_std::impl<O, rs::core::cmp::Ord>::kIsImplemented;
  VP_CHECK(c);
}
