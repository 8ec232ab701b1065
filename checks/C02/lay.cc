#include "vp.h"
#include "lay.h"
#include <array>
#include <cstring>
#include <tuple>
#include <type_traits>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
template <class T> static T A() { return vp_any<T>(); }
template <class T> static u64 bits(T v) { u64 r = 0; memcpy(&r, &v, sizeof v); return r; }
static u64 mx(u64 h, u64 x) { return ((h << 9) | (h >> 55)) + x; }
static u64 mxs() { return 0; }
template <class... T> static u64 mxa(T... v) { u64 s = 0; ((s = mx(s, u64(v))), ...); return s; }
using namespace lay;
#define L(T) extern "C" u64 l_##T();
#define LAYS L(Reordered) L(ReprC) L(Packed) L(Packed2) L(Aligned) L(Mixed) L(Partly) L(Inner) L(Outer) L(Tup) L(TupPriv) L(WithArr) L(WithZst) \
  L(Transparent) L(Keyworded) L(SameName) L(Un) L(UnC) L(HoldsUnion) L(Big) L(OneF) L(TwoF) L(FD) L(IF) L(LongInt) L(Three) L(HasTup)
LAYS
#undef L
H(sizes) {
  bool ok = true;
#define L(T) ok &= l_##T() == sizeof(T) * 64 + alignof(T);
  LAYS
  VP_CHECK(ok);
}
#undef L
// Values made by Rust are read by C++ field by field; values C++ stores field by field are read by Rust.
H(reordered) {
  u8 a = A<u8>(), e = A<u8>(), k = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>(); u32 d = A<u32>();
  Reordered r = Reordered::make(a, b, c, d, e);
  VP_CHECK(r.a == a && r.b == b && r.c == c && r.d == d && r.e == e);
  VP_CHECK(r.sum() == mxa(a, b, c, d, e));
  Reordered& s = r.bump(k);
  VP_CHECK(&s == &r && r.a == u8(a + k) && r.d == (d ^ 1) && r.b == b && r.c == c && r.e == e);
  r.a = e; r.b = ~b; r.c = c + 1; r.d = d + 2; r.e = a;
  VP_CHECK(r.sum() == mxa(e, ~b, u16(c + 1), u32(d + 2), a));
  Reordered t = std::move(r).twist(k);
  VP_CHECK(t.a == a && t.e == k && t.b == b && t.c == u16(d + 2) && t.d == u16(c + 1));
  VP_CHECK(std::move(t).by_val(k) == mx(mxa(a, b, u16(d + 2), u16(c + 1), k), k));
  VP_CHECK(Reordered::ASSOC == 0xdeadbeefu && Reordered::NEG == -5);
}
extern "C" ReprC ref_reprc_pass(ReprC, u8, IFc);
H(reprc) {
  u8 a = A<u8>(), e = A<u8>(), k = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>(); u32 d = A<u32>();
  ReprC r = ReprC::make(a, b, c, d, e);
  VP_CHECK(r.a == a && r.b == b && r.c == c && r.d == d && r.e == e);
  r.a = e; r.b = b + 1; r.c = ~c; r.d = ~d; r.e = a;
  VP_CHECK(r.sum() == mxa(e, b + 1, u16(~c), u32(~d), a));
  VP_CHECK(std::move(r).by_val(k) == mx(mxa(e, b + 1, u16(~c), u32(~d), a), k));
}
H(repr_c_extern) {
  u8 a = A<u8>(), e = A<u8>(), k = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>(); u32 d = A<u32>(), i = A<u32>(), j = A<u32>(); float f = A<float>(), g = A<float>();
  ReprC r = vp_reprc_pass(ReprC::make(a, b, c, d, e), k, IFc(i, f));
  VP_CHECK(r.a == e && r.b == b && r.c == c && r.d == i && r.e == k);
  IFc q = vp_ifc_pass(g, IFc(i, f), j);
  VP_CHECK(q.__field0 == (i ^ j) && bits(q.__field1) == bits(j == 3 ? g : f));
}
H(packed) {
  u8 a = A<u8>(), a2 = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>(); u32 d = A<u32>();
  Packed r = Packed::make(a, b, c, d);
  VP_CHECK(r.a == a && r.b == b && r.c == c && r.d == d);
  r.a = a2; r.b = ~b; r.c = c + 3; r.d = ~d;
  VP_CHECK(r.sum() == mxa(a2, ~b, u16(c + 3), u32(~d)));
  VP_CHECK(std::move(r).by_val() == mxa(a2, ~b, u16(c + 3), u32(~d)));
  Packed2 s = Packed2::make(a, b, c, a2);
  VP_CHECK(s.a == a && s.b == b && s.c == c && s.d == a2);
  s.a = a2; s.b = ~b; s.c = c + 3; s.d = a;
  VP_CHECK(s.sum() == mxa(a2, ~b, u16(c + 3), a));
}
H(aligned) {
  u8 a = A<u8>(); u32 b = A<u32>();
  Aligned r = Aligned::make(a, b);
  VP_CHECK(r.a == a && r.b == b && (uintptr_t(&r) & 15) == 0);
  r.a = ~a; r.b = ~b;
  VP_CHECK(r.sum() == mxa(u8(~a), u32(~b)) && std::move(r).by_val() == mxa(u8(~a), u32(~b)));
}
H(mixed) {
  double f = A<double>(); float g = A<float>(); u8 a = A<u8>(); bool b = A<bool>(); int16_t n = A<int16_t>(); u32 x;
  Mixed r = Mixed::make(f, a, g, &x, b, n);
  VP_CHECK(bits(r.f) == bits(f) && r.a == a && bits(r.g) == bits(g) && r.p == &x && r.b == b && r.n == n);
  double f2 = A<double>();
  r.f = f2; r.a = ~a; r.b = !b; r.n = ~n; r.p = nullptr;
  VP_CHECK(r.sum() == mxa(bits(f2), u8(~a), bits(g), 0, !b, int64_t(int16_t(~n))));
}
H(partly_private) {
  u16 a = A<u16>(); u64 x = A<u64>(); u32 b = A<u32>(); u8 y = A<u8>(), c = A<u8>(), z = A<u8>();
  Partly r = Partly::make(a, x, b, y, c);
  VP_CHECK(r.a == a && r.b == b && r.c == c && r.x() == x);
  r.a = ~a; r.b = ~b; r.c = ~c; r.set_y(z);
  VP_CHECK(r.sum() == mxa(u16(~a), x, u32(~b), z, u8(~c)));
  VP_CHECK(std::move(r).by_val() == mxa(u16(~a), x, u32(~b), z, u8(~c)));
}
H(nested) {
  u16 a = A<u16>(); u8 ia = A<u8>(), ja = A<u8>(), z = A<u8>(); u32 ib = A<u32>(), jb = A<u32>(); bool w = A<bool>();
  Outer r = Outer::make(a, ia, ib, ja, jb, z);
  VP_CHECK(r.a == a && r.i.a == ia && r.i.b == ib && r.j.a == ja && r.j.b == jb && r.z == z);
  VP_CHECK(&r.inner(w) == (w ? &r.j : &r.i));
  r.i.a = ~ia; r.j.b = ~jb; r.z = ~z; r.a = a + 1;
  VP_CHECK(r.sum() == mxa(u16(a + 1), u8(~ia), ib, ja, u32(~jb), u8(~z)));
  Inner i = std::move(r).into_inner();
  VP_CHECK(i.a == ja && i.b == u32(~jb));
}
H(tuple_structs) {
  u8 a = A<u8>(); u32 b = A<u32>(); u16 c = A<u16>();
  Tup r = Tup::make(a, b, c);
  VP_CHECK(r.__field0 == a && r.__field1 == b && r.__field2 == c);
  Tup q(a, ~b, c);
  VP_CHECK(q.sum() == mxa(a, u32(~b), c));
  TupPriv p = TupPriv::make(a, b, c);
  VP_CHECK(p.__field0 == a && p.__field2 == c);
  p.__field0 = ~a; p.__field2 = ~c;
  VP_CHECK(p.sum() == mxa(u8(~a), b, u16(~c)));
}
H(arrays_in_structs) {
  u8 a = A<u8>(), w0 = A<u8>(), w5 = A<u8>(); u32 b = A<u32>(); std::array<u16, 3> v{A<u16>(), A<u16>(), A<u16>()};
  WithArr r = WithArr::make(a, v, b, w0, w5);
  VP_CHECK(r.a == a && r.b == b && r.v[0] == v[0] && r.v[1] == v[1] && r.v[2] == v[2]);
  VP_CHECK(r.w[0][0] == w0 && r.w[0][1] == 1 && r.w[1][0] == 2 && r.w[1][1] == 3 && r.w[2][0] == 4 && r.w[2][1] == w5);
  r.v[1] = ~v[1]; r.w[1][0] = w5; r.w[2][1] = w0;
  VP_CHECK(r.sum() == mxa(a, b, v[0], u16(~v[1]), v[2], w0, 1, w5, 3, 4, w0));
}
H(zst_fields) {
  u32 a = A<u32>(); u8 b = A<u8>();
  WithZst r = WithZst::make(a, b);
  VP_CHECK(r.a == a && r.b == b);
  r.a = ~a; r.b = ~b;
  VP_CHECK(r.sum() == mxa(u32(~a), u8(~b)));
  Transparent t = Transparent::make(a);
  VP_CHECK(t.v == a);
  t.v = ~a;
  VP_CHECK(std::move(t).by_val() == ~a);
}
H(names) {
  u8 a = A<u8>(); u32 b = A<u32>(); u16 c = A<u16>();
  Keyworded r = Keyworded::make(a, b, c);
  VP_CHECK(r.class_ == a && r.private_ == b && r.struct_ == c);
  r.class_ = ~a; r.private_ = ~b; r.struct_ = ~c;
  VP_CHECK(r.sum() == mxa(u8(~a), u32(~b), u16(~c)));
  SameName s = SameName::make(b, a);
  VP_CHECK(s.val_ == b && s.other == a && s.val() == b + 1);
}
H(unions) {
  u64 d = A<u64>(), e = A<u64>(); u8 k = A<u8>(), l = A<u8>(); u32 x = A<u32>(), y = A<u32>();
  Un u = Un::make(d);
  VP_CHECK(u.d.value == d && u.a.value == u32(d) && u.b.value[0] == u8(d) && u.b.value[7] == u8(d >> 56) && bits(u.c.value) == u32(d));
  u.d.value = e; u.b.value[3] = k;
  VP_CHECK(u.get() == ((e & ~0xff000000ull) | u64(k) << 24));
  HoldsUnion h = HoldsUnion::make(k, x, l);
  VP_CHECK(h.k == k && h.l == l && h.u.b == x && h.u.a == u16(x) && h.u.c[2] == u8(x >> 16));
  h.u.b = y;
  VP_CHECK(h.sum() == mxa(k, y, l));
}
H(by_value_abi) {
  float f = A<float>(), g = A<float>(); double d = A<double>(); u32 i = A<u32>(); u64 l = A<u64>(); u8 b = A<u8>(), c = A<u8>();
  OneF o = OneF::make(f).same();
  VP_CHECK(bits(o.__field0) == bits(f) && OneF(f).bits() == bits(f));
  TwoF t = TwoF::make(f, g).swap();
  VP_CHECK(bits(t.__field0) == bits(g) && bits(t.__field1) == bits(f) && TwoF(f, g).bits() == mxa(bits(f), bits(g)));
  FD p = FD(d, f).same();
  VP_CHECK(bits(p.__field0) == bits(d) && bits(p.__field1) == bits(f) && FD(d, f).bits() == mxa(bits(d), bits(f)));
  IF q = IF(i, f).same();
  VP_CHECK(q.__field0 == i && bits(q.__field1) == bits(f) && IF(i, f).bits() == mxa(i, bits(f)));
  LongInt r = LongInt(l, b).same();
  VP_CHECK(r.__field0 == l && r.__field1 == b && LongInt(l, b).bits() == mxa(l, b));
  Three h = Three(b, c, 7).rot();
  VP_CHECK(h.__field0 == c && h.__field1 == 7 && h.__field2 == b);
  VP_CHECK(Big::make(l, i, b).sum() == mx(mx(mx(mx(mx(b, l), i), 3), 4), l ^ i));
}
H(many_args) {
  float f = A<float>(), g = A<float>(); double d = A<double>(); u32 i = A<u32>(); u64 l = A<u64>(); u8 b = A<u8>(), c = A<u8>();
  u64 r = many(Three(b, c, 1), FD(d, f), IF(i, g), Reordered::make(c, l, 3, i, b), b, TwoF(g, f));
  VP_CHECK(r == mxa(mxa(b, c, 1), mxa(bits(d), bits(f)), mxa(i, bits(g)), mxa(c, l, 3, i, b), b, mxa(bits(g), bits(f))));
}
H(arrays) {
  std::array<u32, 3> a{A<u32>(), A<u32>(), A<u32>()}; u8 k = A<u8>();
  auto r = arr_id(a, k);
  VP_CHECK(r[0] == a[1] && r[1] == (a[2] ^ k) && r[2] == a[0]);
  std::array<std::array<u16, 2>, 2> m{{{A<u16>(), A<u16>()}, {A<u16>(), A<u16>()}}};
  auto n = arr_nested(m);
  VP_CHECK(n[0][0] == m[1][0] && n[0][1] == m[1][1] && n[1][0] == m[0][1] && n[1][1] == m[0][0]);
  auto s = arr_struct({Tup(k, a[0], 3), Tup(4, a[1], m[0][0])});
  VP_CHECK(s[0].sum() == mxa(4, a[1], m[0][0]) && s[1].sum() == mxa(k, a[0], 3));
}
H(tuples) {
  u8 a = A<u8>(); u32 b = A<u32>(); u16 c = A<u16>(); u64 l = A<u64>(); double d = A<double>(); bool w = A<bool>();
  auto r = tup2({a, b}, c);
  VP_CHECK(std::get<0>(r) == (b ^ a) && std::get<1>(r) == c);
  VP_CHECK(std::get<0>(tup1({l})) == ~l);
  auto s = tup3({a, d, w});
  VP_CHECK(std::get<0>(s) == w && bits(std::get<1>(s)) == bits(d) && std::get<2>(s) == a);
  auto t = tup_nested({{a, c}, b});
  VP_CHECK(std::get<0>(t) == b && std::get<0>(std::get<1>(t)) == c && std::get<1>(std::get<1>(t)) == a);
  VP_CHECK(tup_nested3({a, {c, {b, 9}}, l}) == mxa(a, c, b, 9, l));
  u8 x; u32 y;
  auto p = tup_ptr({&x, a, &y});
  VP_CHECK(std::get<0>(p) == &y && std::get<1>(p) == &x);
}
H(tuples_of_structs) {
  u8 a = A<u8>(), e = A<u8>(); u32 b = A<u32>(); u16 c = A<u16>(); u64 l = A<u64>();
  auto r = tup_adt({Tup(a, b, c), e}, {c, Reordered::make(a, l, c, b, e)});
  VP_CHECK(std::get<0>(r).sum() == mxa(u8(a ^ e), l, c, b, e) && std::get<1>(r) == c && std::get<2>(r).sum() == mxa(a, b, c));
  auto s = tup_arr({{a, e, 5}, b});
  VP_CHECK(std::get<0>(s) == b && std::get<1>(s)[0] == 5 && std::get<1>(s)[1] == a && std::get<1>(s)[2] == e);
}
H(tuple_fields) {
  u8 k = A<u8>(), b = A<u8>(), d = A<u8>(); u16 a = A<u16>(), f = A<u16>(); u32 c = A<u32>(), e = A<u32>();
  HasTup h = HasTup::make(k, a, b, c, d, e, f);
  std::tuple<u16, u8, u32> t = std::move(h.t);
  VP_CHECK(h.k == k && std::get<0>(t) == a && std::get<1>(t) == b && std::get<2>(t) == c);
  h.t = std::tuple<u16, u8, u32>(f, d, e);
  VP_CHECK(h.sum() == mxa(k, f, d, e, d, e, f));
  rs_std::Tuple<u8, u32> u(std::tuple<u8, u32>(b, c));
  VP_CHECK(tup_ref(u) == mxa(b, c));
}
