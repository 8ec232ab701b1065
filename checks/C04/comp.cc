// Options of every kind of payload: by value as std::optional, in fields as rs_std::Option.
#include "vp.h"
#include "comp.h"
#include <cstring>
#include <optional>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
template <class T> static T A() { return vp_any<T>(); }
static u64 mx(u64 h, u64 x) { return ((h << 9) | (h >> 55)) + x; }
using namespace comp;
using std::optional;
#define START int heap = vp_live_heap();
#define END VP_CHECK(vp_live_heap() == heap);
template <class T> static optional<T> any_opt() { T v = A<T>(); return A<bool>() ? optional<T>(v) : std::nullopt; }
template <class T> static void not_(optional<T> (*f)(optional<T>)) {
  auto o = any_opt<T>();
  auto r = f(o);
  VP_CHECK(r.has_value() == o.has_value() && (!r || *r == T(~*o)));
}
H(i8) { not_<int8_t>(o_i8); }
H(i16) { not_<int16_t>(o_i16); }
H(i32) { not_<int32_t>(o_i32); }
H(i64) { not_<int64_t>(o_i64); }
H(isize) { not_<intptr_t>(o_isize); }
H(usize) { not_<uintptr_t>(o_usize); }
H(u16) { not_<u16>(o_u16); }
H(u32) { not_<u32>(o_u32); }
H(floats) {
  u32 a = A<u32>(); u64 b = A<u64>(); bool s = A<bool>();
  auto f = o_f32(s ? optional<float>(__builtin_bit_cast(float, a)) : std::nullopt);
  VP_CHECK(f.has_value() == s && (!s || __builtin_bit_cast(u32, *f) == ~a));
  auto d = o_f64(s ? optional<double>(__builtin_bit_cast(double, b)) : std::nullopt);
  VP_CHECK(d.has_value() == s && (!s || __builtin_bit_cast(u64, *d) == ~b));
}
H(chars) {
  auto c = rs_std::char_::from_u32(A<u32>());
  auto r = o_char(c);
  if (!c) VP_CHECK(r.has_value() && u32(*r) == 0x1F600);
  else VP_CHECK(r.has_value() == (u32(*c) != 'z') && (!r || *r == *c));
}
H(bools) {
  auto o = any_opt<bool>();
  auto r = o_bool2(o);
  VP_CHECK(r.has_value() == (!o || *o) && (!r || *r == !o));
}
H(pointers) {
  u32 a[3] = {A<u32>(), A<u32>(), A<u32>()}; u32 i = vp_pick(2); bool s = A<bool>();
  auto r = o_cptr(s ? optional<u32 const*>(a + i) : std::nullopt);
  VP_CHECK(r.has_value() == s && (!s || *r == a + i + 1));
  P p; p.a = A<u8>(); p.b = A<u32>();
  auto q = o_mptr(s ? optional<P*>(&p) : std::nullopt);
  VP_CHECK(q.has_value() && *q == (s ? &p : nullptr));
  auto n = o_mptr(optional<P*>(nullptr));
  VP_CHECK(!n.has_value());
  auto m = o_ref(s ? optional<P const*>(&p) : std::nullopt);
  VP_CHECK(m.has_value() == s && (!s || *m == &p.b));
  auto w = o_mut(s ? optional<P*>(&p) : std::nullopt);
  VP_CHECK(w.has_value() == s && (!s || *w == &p.b));
}
H(slices) {
  u8 a[4] = {A<u8>(), A<u8>(), A<u8>(), A<u8>()}; size_t n = vp_pick(5); bool s = A<bool>();
  auto r = o_slice(s ? optional<rs_std::SliceRef<const u8>>(rs_std::SliceRef<const u8>(a, n)) : std::nullopt);
  VP_CHECK(r.has_value() == s);
  if (s) VP_CHECK(r->size() == (n > 1 ? n - 1 : n) && (n == 0 || r->data() == (n > 1 ? a + 1 : a)));
  u32 b[4] = {1, 2, 3, 4};
  optional<rs_std::SliceRef<const u32>> o;
  if (s) o.emplace(b, n);
  VP_CHECK(o_sptr(o) == (s ? n : 77));
  auto t = o_sptr2(o);
  VP_CHECK(t.has_value() == s && (!s || (t->size() == n && (n == 0 || t->data() == b))));
}
H(strs) {
  char a[3] = {char(A<u8>() & 127), char(A<u8>() & 127), char(A<u8>() & 127)}; size_t n = vp_pick(4); bool s = A<bool>();
  optional<rs_std::StrRef> o;
  if (s) o = rs_std::StrRef::FromUtf8Unchecked(std::string_view(a, n));
  auto r = o_str(o);
  VP_CHECK(r.has_value() == s && (!s || (r->size() == (n > 1 ? n - 1 : n) && (n == 0 || r->data() == (n > 1 ? a + 1 : a)))));
}
H(nested) {
  u8 x = A<u8>(); int k = vp_pick(3);
  optional<optional<u8>> o;
  if (k == 1) o.emplace(); else if (k == 2) o.emplace(x);
  auto r = o_oo(o);
  if (k == 0) VP_CHECK(r.has_value() && !r->has_value());
  else if (k == 1) VP_CHECK(!r.has_value());
  else VP_CHECK(r.has_value() && r->has_value() && **r == u8(~x));
}
H(nested_owner) {
  START
  u32 x = A<u32>(), v = A<u32>(); int k = vp_pick(3);
  {
    optional<optional<X>> o;
    if (k == 1) o.emplace(); else if (k == 2) o.emplace(X::make(x));
    auto r = o_ox(std::move(o), v);
    if (k == 0) VP_CHECK(r.has_value() && !r->has_value());
    else if (k == 1) VP_CHECK(r.has_value() && r->has_value() && (*r)->val() == v);
    else VP_CHECK(r.has_value() == (x != v) && (!r || (r->has_value() && (*r)->val() == x)));
  }
  END
}
H(vectors) {
  START
  u32 x = A<u32>(), y = A<u32>(); int k = vp_pick(4);
  {
    optional<rs_std::Vec<u32>> o;
    if (k == 1) o.emplace();
    if (k >= 2) o = vec_of(k - 1, x, y);
    auto r = o_vec(std::move(o));
    if (k == 0) VP_CHECK(r.has_value() && r->size() == 1 && (*r)[0] == 7);
    else if (k == 1) VP_CHECK(!r.has_value());
    else VP_CHECK(r.has_value() && r->size() == size_t(k) && (*r)[0] == x && (k == 2 || (*r)[1] == y) && (*r)[k - 1] == 1);
  }
  END
}
H(results) {
  u8 x = A<u8>(); u32 e = A<u32>(); int k = vp_pick(3);
  typedef rs_std::Result<u8, u32> R;
  optional<R> o;
  if (k == 1) o.emplace(R(x)); else if (k == 2) o.emplace(R(rs_std::unexpected<u32>(e)));
  auto r = o_res(o);
  if (k == 0) VP_CHECK(r.has_value() && !r->has_value() && r->error() == 3);
  else if (k == 1) VP_CHECK(r.has_value() == (x != 9) && (x == 9 || (!r->has_value() && r->error() == x)));
  else VP_CHECK(r.has_value() && r->has_value() && r->value() == u8(e));
}
H(structs) {
  P p; p.a = A<u8>(); p.b = A<u32>(); bool s = A<bool>();
  auto r = o_p(s ? optional<P>(p) : std::nullopt);
  VP_CHECK(r.has_value() == s && (!s || (r->a == u8(~p.a) && r->b == p.b)));
}
// Slices of pointers, references and Options; vectors of views and of vectors.
H(slices_of) {
  u32 a = A<u32>(), b = A<u32>(); bool s = A<bool>(), t = A<bool>();
  u32 const* r[2] = {&a, &b};
  VP_CHECK(sl_ref(rs_std::SliceRef<u32 const* const>(r, 2)) == (a ^ b) && sl_ref(rs_std::SliceRef<u32 const* const>(r + 1, 1)) == b);
  u32 const* q[3] = {s ? &a : nullptr, &b, t ? &b : nullptr};
  VP_CHECK(sl_ptr(rs_std::SliceRef<u32 const* const>(q, 3)) == size_t(!s + !t));
  rs_std::Option<u32> o[2] = {s ? rs_std::Option<u32>(a) : rs_std::Option<u32>(std::nullopt), t ? rs_std::Option<u32>(b) : rs_std::Option<u32>(std::nullopt)};
  u32 x = s ? a : 5, y = t ? b : 5;
  VP_CHECK(sl_opt(rs_std::SliceRef<const rs_std::Option<u32>>(o, 2)) == ((x << 3 | x >> 29) ^ y));
}
H(vectors_of) {
  START
  {
    rs_std::Vec<rs_std::StrRef> v;
    size_t n = vp_pick(3);
    for (size_t i = 0; i <= n; ++i) push_str(v, rs_std::StrRef::FromUtf8Unchecked(std::string_view(i & 1 ? "abc" : "de")));
    VP_CHECK(v_str(std::move(v)) == (n == 0 ? 2 : n == 1 ? 5 : 7));
    rs_std::Vec<rs_std::Vec<u8>> w;
    for (size_t i = 0; i <= n; ++i) {
      rs_std::Vec<u8> e;
      for (size_t j = 0; j < i; ++j) push_byte(e, u8(j));
      push_vec(w, std::move(e));
    }
    VP_CHECK(w.size() == n + 1 && w[n].size() == n && v_v(std::move(w)) == n * (n + 1) / 2);
  }
  END
}
H(fields_read) {
  START
  u8 k = A<u8>(); u64 x = A<u64>(); u32 z = 0;
  {
    Holder h = Holder::make(k, x, &z);
    VP_CHECK(h.a.has_value() == bool(k & 1) && (!(k & 1) || u64(*h.a) == x));
    VP_CHECK(h.b.has_value() == bool(k & 2) && (!(k & 2) || __builtin_bit_cast(u32, *h.b) == u32(x)));
    VP_CHECK(h.e.has_value() == bool(k & 16) && (!(k & 16) || *h.e == &z));
    VP_CHECK(h.f.has_value() == bool(k & 32) && (!(k & 32) || (h.f->size() == 2 && (*h.f)[0] == u32(x) && (*h.f)[1] == u32(x))));
    VP_CHECK(h.g.has_value() == bool(k & 64));
    if (k & 64) VP_CHECK(h.g->has_value() == !(x & 1) && (x & 1 ? h.g->error() == u32(x) : h.g->value() == u8(x)));
    VP_CHECK(h.h.has_value() == bool(k & 128) && (!(k & 128) || (h.h->size() == 2 && h.h->data()[1] == 'b')));
  }
  END
}
H(fields_write) {
  START
  u64 x = A<u64>(); u32 z = 0; u8 k = A<u8>(); int from = vp_pick(2);
  {
    Holder h = Holder::make(from ? 255 : 0, 3, &z);
    h.a = k & 1 ? rs_std::Option<int64_t>(int64_t(x)) : rs_std::Option<int64_t>(std::nullopt);
    if (k & 2) h.b = __builtin_bit_cast(float, u32(x)); else h.b = std::nullopt;
    if (k & 16) h.e = static_cast<u32 const*>(&z); else h.e = std::nullopt;
    if (k & 32) { rs_std::Vec<u32> v = vec_of(1, u32(x), 0); h.f = std::move(v); } else h.f = std::nullopt;
    if (k & 64) h.g = rs_std::Result<u8, u32>(u8(x)); else h.g = std::nullopt;
    if (k & 128) h.h = rs_std::StrRef("xyz"); else h.h = std::nullopt;
    u64 c = 1;
    c = mx(c, k & 1 ? mx(2, x) : 1);
    c = mx(c, k & 2 ? mx(2, u32(x)) : 1);
    c = mx(c, from ? mx(mx(2, 3), 0) : 1);
    c = mx(c, from ? mx(mx(mx(2, 3), 0), 0) : 1);
    c = mx(c, k & 16 ? 2 : 1);
    c = mx(c, k & 32 ? mx(3, u32(x)) : 1);
    c = mx(c, k & 64 ? mx(2, u8(x)) : 1);
    c = mx(c, k & 128 ? mx(mx(mx(5, 'x'), 'y'), 'z') : 1);
    VP_CHECK(h.code(&z) == c);
  }
  END
}
