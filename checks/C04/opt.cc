#include "vp.h"
#include "opt.h"
#include <optional>
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int64_t i64;
template <class T> static T A() { return vp_any<T>(); }
static u64 mx(u64 h, u64 x) { return ((h << 9) | (h >> 55)) + x; }
template <class... T> static u64 mxc(u64 s, T... v) { ((s = mx(s, u64(v))), ...); return s; }
using namespace opt;
#define START int heap = vp_live_heap();
#define END VP_CHECK(vp_live_heap() == heap);
using std::optional; using rs_std::Option; using rs_std::Result;
template <class T> static optional<T> any_opt() { T v = A<T>(); return A<bool>() ? optional<T>(v) : std::nullopt; }

H(read_none) {
  Opts o = Opts::make(0, A<u64>());
  VP_CHECK(!o.n.has_value() && !o.nn.has_value() && !o.d.has_value() && !o.w.has_value() && !o.b.has_value() && !o.s.has_value() && !o.u.has_value());
}
H(read_any) {
  u8 k = A<u8>(); u64 v = A<u64>();
  Opts o = Opts::make(k, v);
  VP_CHECK(o.n.has_value() == bool(k & 1) && o.nn.has_value() == bool(k & 2) && o.d.has_value() == bool(k & 8) && o.w.has_value() == bool(k & 16));
  VP_CHECK(o.b.has_value() == bool(k & 32) && o.s.has_value() == bool(k & 64) && o.u.has_value() == bool(k & 128));
  if (o.n.has_value()) VP_CHECK(o.n->val() == (v & 3) && (*o.n).val() == (v & 3));
  if (o.nn.has_value()) {
    VP_CHECK(o.nn->has_value() == bool(k & 4));
    if ((*o.nn).has_value()) VP_CHECK((*o.nn)->val() == (v & 3));
  }
  if (o.d.has_value()) VP_CHECK(*o.d == u8(v));
  if (o.w.has_value()) VP_CHECK(*o.w == v);
  if (o.b.has_value()) VP_CHECK(*o.b == (v & 1));
  if (o.s.has_value()) VP_CHECK(*o.s == v);
}
H(to_std) {
  u8 k = A<u8>(); u64 v = A<u64>();
  Opts o = Opts::make(k, v);
  optional<u64> w = std::move(o.w);
  VP_CHECK(w.has_value() == bool(k & 16) && (!w || *w == v));
  VP_CHECK(!o.w.has_value());
  optional<Lim> n = std::move(o.n);
  VP_CHECK(n.has_value() == bool(k & 1) && (!n || n->val() == (v & 3)));
  VP_CHECK(!o.n.has_value());
  optional<Option<Lim>> nn = std::move(o.nn);
  VP_CHECK(nn.has_value() == bool(k & 2) && (!nn || nn->has_value() == bool(k & 4)));
  VP_CHECK(!o.nn.has_value());
  optional<bool> b = std::move(o.b);
  VP_CHECK(b.has_value() == bool(k & 32) && (!b || *b == (v & 1)));
  VP_CHECK(!o.b.has_value());
}
static u64 olc(bool has, u64 v) { return has ? mxc(2, v) : 1; }
H(write) {
  Opts o = Opts::make(A<u8>(), A<u64>());
  auto d = any_opt<u8>(); auto w = any_opt<u64>(); auto b = any_opt<bool>(); auto s = any_opt<uintptr_t>();
  u64 h = mx(mx(d ? *d : 300, w ? mxc(8, *w) : 7), b ? u64(*b) : 2);
  (void)h;
  u8 lv = A<u8>() & 3; bool ln = A<bool>(), nn1 = A<bool>(), nn2 = A<bool>(), u = A<bool>();
  optional<Lim> l = ln ? optional<Lim>(Lim::make(lv)) : std::nullopt;
  o.d = Option<u8>(optional<u8>(d)); o.w = optional<u64>(w); if (b) o.b = *b; else o.b = std::nullopt; o.s = optional<uintptr_t>(s); o.n = std::move(l);
  if (nn1) { if (nn2) o.nn = Option<Lim>(Lim::make(lv)); else o.nn = Option<Lim>(std::nullopt); } else o.nn = std::nullopt;
  if (u) o.u = Option<rs_std::unit_t>(rs_std::unit_t()); else o.u = std::nullopt;
  u64 c = mx(olc(ln, lv), nn1 ? mxc(6, olc(nn2, lv)) : 5);
  c = mx(c, d ? *d : 300); c = mx(c, w ? mxc(8, *w) : 7); c = mx(c, b ? u64(*b) : 2); c = mx(c, s ? mxc(8, *s) : 7);
  VP_CHECK(o.code() == mx(c, u));
}
H(by_value) {
  auto d = any_opt<u8>(); auto w = any_opt<u64>(); auto b = any_opt<bool>(); u8 k = A<u8>(), lv = A<u8>() & 3; bool has = A<bool>();
  auto r = o_u8(d);
  VP_CHECK(r.has_value() == d.has_value() && (!r || *r == (*d ^ 0x55)));
  auto q = o_u64(w, k);
  VP_CHECK(q.has_value() == (w.has_value() && k != 9) && (!q || *q == *w));
  VP_CHECK(o_bool(b) == (b ? *b : 2));
  auto l = o_lim(has ? optional<Lim>(Lim::make(lv)) : std::nullopt);
  VP_CHECK(l.has_value() == (!has || lv != 0) && (!l || l->val() == (has ? lv : 3)));
  u32 x = A<u32>();
  VP_CHECK(o_ptr(has ? optional<const u32*>(&x) : std::nullopt) == (has ? x : 7));
}
H(by_reference) {
  u8 lv = A<u8>() & 3, v = A<u8>(); bool has = A<bool>();
  Option<Lim> o;
  VP_CHECK(o_lim_ref(o) == 1);
  if (has) o = Lim::make(lv);
  VP_CHECK(o_lim_ref(o) == olc(has, lv));
  Option<Lim> p(o);
  o_lim_mut(o, v);
  VP_CHECK(o.has_value() == (v != 200) && (!o.has_value() || o->val() == (v < 4 ? v : 4)));
  VP_CHECK(o_lim_ref(p) == olc(has, lv));
  p = std::nullopt;
  VP_CHECK(o_lim_ref(p) == 1 && !p.has_value());
}
H(owner_field) {
  START
  bool s = A<bool>(); u32 v = A<u32>(), w = A<u32>();
  {
    OX o = OX::make(s, v);
    VP_CHECK(o.x.has_value() == s && (!s || o.x->val() == v));
    VP_CHECK(o.code() == (s ? mxc(2, v) : 1));
    optional<X> x = std::move(o.x);
    VP_CHECK(x.has_value() == s && (!s || x->val() == v) && !o.x.has_value() && o.code() == 1 && o.k == 3);
    o.x = X::make(w);
    VP_CHECK(o.code() == mxc(2, w));
    o.x = X::make(w + 1);
    VP_CHECK(o.code() == mxc(2, u32(w + 1)));
    o.x = std::move(x);
    VP_CHECK(o.code() == (s ? mxc(2, v) : 1));
    o.x = std::nullopt;
    VP_CHECK(o.code() == 1);
  }
  END
}
// A history of operations on two options of an owning type, against a model.
static int opt_hist(int n) {
  int heap = vp_live_heap();
  bool ok = true;
  {
    Option<X> a, b;
    bool ha = false, hb = false; u32 va = 0, vb = 0;
    for (int i = 0; i < n && ok; i++) {
      u32 v = A<u32>();
      switch (vp_pick(12)) {
        case 0: a = X::make(v); ha = true; va = v; break;
        case 1: b = std::nullopt; hb = false; break;
        case 2: std::swap(a, b); std::swap(ha, hb); std::swap(va, vb); break;
        case 3: { optional<X> t = std::move(a); ok = t.has_value() == ha && (!ha || t->val() == va); ha = false; break; }
        case 4: { optional<X> t(X::make(v)); b = std::move(t); hb = true; vb = v; break; }
        case 5: { Option<X> t(std::move(b)); ok = t.has_value() == hb && (!hb || t->val() == vb) && !b.has_value(); hb = false; break; }
        case 6: o_x_put(a, v); ha = true; va = v; break;
        case 7: ok = o_x_take(b) == (hb ? vb : 5); hb = false; break;
        case 8: { optional<X> t = std::move(a); t = o_x(std::move(t), v); a = std::move(t);
          if (!ha) ha = true, va = v; else if (va == v) ha = false; break; }
        case 9: { Option<X> t(std::in_place, X::make(v)); a = std::move(t); ok = t.has_value() == ha && (!ha || t->val() == va); ha = true; va = v; break; }
        case 10: { optional<X> t; a = std::move(t); ha = false; break; }
        case 11: if (ha) { X t(std::move(*a)); ok = t.val() == va && a->val() == 77; va = 77; a->set(v); va = v; } break;
      }
      ok = ok && a.has_value() == ha && b.has_value() == hb && o_x_ref(a) == (ha ? mxc(2, va) : 1) && o_x_ref(b) == (hb ? mxc(2, vb) : 1);
    }
  }
  return (ok ? 0 : 1) | (vp_live_heap() == heap ? 0 : 2);
}
H(owner_history) { int r = opt_hist(3); VP_CHECK(r == 0); }
H(t_owner_history) { int r = opt_hist(4); VP_CHECK(r == 0); }
H(clone_only) {
  START
  bool s = A<bool>(); u32 v = A<u32>(), w = A<u32>();
  {
    OK o = OK::make(s, v);
    VP_CHECK(o.x.has_value() == s && o.code() == (s ? mxc(2, v) : 1));
    Option<K> c(o.x);
    VP_CHECK(c.has_value() == s && (!s || c->val() == v) && o.code() == (s ? mxc(2, v) : 1));
    c = K::make(w);
    VP_CHECK(c->val() == w);
    c = o.x;
    VP_CHECK(c.has_value() == s && (!s || c->val() == v));
    optional<K> k = std::move(o.x);
    VP_CHECK(k.has_value() == s && (!s || k->val() == v) && !o.x.has_value());
    VP_CHECK(o_k(k) == (s ? mxc(2, v) : 1));
    o.x = std::move(k);
    VP_CHECK(o.code() == (s ? mxc(2, v) : 1));
    Option<K> m(std::move(o.x));
    VP_CHECK(m.has_value() == s && (!s || m->val() == v));
  }
  END
}
H(unmovable) {
  START
  bool s = A<bool>(); u32 v = A<u32>();
  {
    OU o = OU::make(s, v);
    VP_CHECK(o.x.has_value() == s && (!s || o.x->val() == v));
    Option<U> p(std::move(o.x));
    VP_CHECK(p.has_value() == s && (!s || p->val() == v) && !o.x.has_value());
    optional<U> u = std::move(p);
    VP_CHECK(u.has_value() == s && (!s || u->val() == v) && !p.has_value());
    o.x = std::move(u);
    VP_CHECK(o.code() == (s ? mxc(2, v) : 1));
    OU q = OU::make(true, ~v);
    q.x = std::nullopt;
    VP_CHECK(q.code() == 1);
    Option<U> z(std::nullopt);
    VP_CHECK(!z.has_value());
  }
  END
}
H(plain) {
  bool s = A<bool>(); u8 a = A<u8>(); u32 b = A<u32>();
  OT o = OT::make(s, a, b);
  VP_CHECK(o.x.has_value() == s && (!s || (o.x->a == a && o.x->b == b)));
  optional<T> t = std::move(o.x);
  VP_CHECK(t.has_value() == s && (!s || (t->a == a && t->b == b)));
  o.x = T::make(~a, ~b);
  VP_CHECK(o.code() == mxc(2, u8(~a), u32(~b)));
}
H(result_values) {
  bool ok = A<bool>(); u32 v = A<u32>(); u8 e = A<u8>();
  Result<u32, u8> r = ok ? Result<u32, u8>(v) : Result<u32, u8>(rs_std::unexpected<u8>(u8(e)));
  VP_CHECK(r.has_value() == ok && bool(r) == ok && (ok ? *r == v : r.error() == e));
  Result<u8, u32> q = r_vals(std::move(r));
  VP_CHECK(q.has_value() == !ok && (ok ? q.error() == v : q.value() == e));
  Result<u32, u32> s = ok ? Result<u32, u32>(v) : Result<u32, u32>(rs_std::unexpect, u32(e));
  Result<u32, u32> t = r_same(std::move(s));
  VP_CHECK(t.has_value() == !ok && (ok ? t.err() == ~v : *t == e));
  t = 5u;
  VP_CHECK(t.has_value() && t.value() == 5);
  t = rs_std::unexpected<u32>(u32(v));
  VP_CHECK(!t.has_value() && t.error() == v);
  t = rs_std::unexpected<u32>(9u);
  VP_CHECK(!t.has_value() && t.error() == 9);
  auto n = r_unit(e);
  VP_CHECK(n.has_value() == !(e & 1) && (n.has_value() || n.error() == e));
  auto m = r_unit_err(e);
  VP_CHECK(m.has_value() == !(e & 1) && (!m.has_value() || *m == e));
}
static u64 rc(bool ok, u32 v) { return ok ? mxc(1, v) : mxc(2, v); }
H(result_fields) {
  START
  u8 k = A<u8>(); u32 v = A<u32>(), w = A<u32>();
  {
    ORx o = ORx::make(k, v);
    bool ok = !(k & 2), has = k & 4, inner = !(k & 8), pok = !(k & 16), qok = !(k & 32);
    VP_CHECK(o.r.has_value() == ok && (ok ? o.r->val() == v : o.r.error().val() == v) && r_ref(o.r) == rc(ok, v));
    VP_CHECK(o.o.has_value() == has && (!has || (o.o->has_value() == inner && (inner ? **o.o == v : o.o->error().val() == v))));
    VP_CHECK(o.p.has_value() == pok && (pok ? *o.p == u8(v) : o.p.error() == v));
    VP_CHECK(o.q.has_value() == qok && (qok ? o.q->val() : o.q.error().val()) == (v & 3));
    o.r = X::make(w);
    VP_CHECK(r_ref(o.r) == rc(true, w));
    o.r = rs_std::unexpected<K>(K::make(w + 1));
    VP_CHECK(r_ref(o.r) == rc(false, w + 1));
    o.r = rs_std::unexpected<K>(K::make(w + 2));
    VP_CHECK(r_ref(o.r) == rc(false, w + 2));
    o.r = X::make(w + 3);
    o.r = X::make(w + 4);
    VP_CHECK(r_ref(o.r) == rc(true, w + 4));
    o.q = Lim::make(w & 3);
    VP_CHECK(o.q.has_value() && o.q->val() == (w & 3));
    o.q = rs_std::unexpected<Lim>(Lim::make(v & 3));
    VP_CHECK(!o.q.has_value() && o.q.error().val() == (v & 3));
    o.o = std::nullopt; o.x = std::nullopt; o.p = u8(w);
    VP_CHECK(o.code() == mx(mx(mx(mx(1, rc(true, w + 4)), 1), mxc(1, u8(w))), mxc(2, v & 3)));
  }
  END
}
// Access through an absent side ends the program instead of yielding a value.
H(bad_access) {
  u8 k = A<u8>(); u32 v = A<u32>(); u64 c = 0;
  vp_assume(!(k & 2) || (k & 4));
  Option<Lim> n;
  vp_expect_abort(true);
  switch (vp_pick(4)) {
    case 0: c = n->val(); break;
    case 1: c = (*n).val(); break;
    case 2: { Result<u32, u8> r(v); c = r.error(); break; }
    default: { Result<u32, u8> r(rs_std::unexpect, k); c = *r; break; }
  }
  vp_out(c);
  VP_CHECK(false); // VP_MAYBE
}
