#include "vp.h"
#include "life.h"
#include <array>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
template <class T> static T A() { return vp_any<T>(); }
extern "C" { void r_reset(); size_t r_live(); size_t r_born(); u32 r_bad(); u32 r_clones(); u32 r_clone_froms(); }
using namespace life;

enum Kind { kDefault, kClone, kTrivial };
// One adapter per type: its kind of C++ move and its free functions.
#define TYPE(T, s, kind, copies) struct T_##s { typedef T t; static constexpr Kind k = kind; static constexpr bool copy = copies; \
  static u32 take(u8 n, T x) { return take_##s(n, std::move(x)); } static T pass(T x) { return pass_##s(std::move(x)); } \
  static T pick(T a, T b, bool f) { return pick_##s(std::move(a), std::move(b), f); } static u32 look(const T& a, T& b) { return look_##s(a, b); } \
  static T rep(T& a, T b) { return swap_##s(a, std::move(b)); } };
TYPE(D, d, kDefault, false) TYPE(C, c, kClone, true) TYPE(B, b, kDefault, true) TYPE(G, g, kDefault, false) TYPE(GC, gc, kClone, true)
TYPE(X, x, kDefault, false) TYPE(XC, xc, kClone, true) TYPE(P, p, kTrivial, false) TYPE(Cp, cp, kTrivial, true) TYPE(Tr, tr, kDefault, false) TYPE(TrC, trc, kClone, true)

// What C++ may observe of the value left behind by a move.
template <class M> static u32 after(u32 v) { return M::k == kDefault ? 77 : v; }

template <class M> static bool step(typename M::t& a, typename M::t& b, u32& ma, u32& mb) {
  typedef typename M::t T;
  switch (vp_pick(12)) {
    case 0: a = std::move(b);
      if (M::k == kDefault) std::swap(ma, mb); else ma = mb;
      return true;
    case 1: { auto* p = &a; *p = std::move(a); return true; }
    case 2: {
      T t(std::move(a));
      if (t.val() != ma) return false;
      u32 mt = ma; ma = after<M>(ma);
      b = std::move(t);
      mb = mt;
      return true;
    }
    case 3: { u8 k = A<u8>(); u32 r = M::take(k, std::move(a)); bool ok = r == ma + k; ma = after<M>(ma); return ok; }
    case 4: { b = M::pass(std::move(a)); mb = ma; ma = after<M>(ma); return true; }
    case 5: { u32 r = std::move(a).eat(); bool ok = r == ma; ma = after<M>(ma); return ok; }
    case 6: {
      T t = std::move(a).same();
      bool ok = t.val() == ma;
      ma = after<M>(ma);
      t.set(5); ok &= t.val() == 5 && a.val() == ma;
      return ok;
    }
    case 7: {
      T t = M::rep(a, std::move(b));
      bool ok = t.val() == ma;
      ma = mb; mb = after<M>(mb);
      return ok;
    }
    case 8: { bool f = A<bool>(); T t = M::pick(std::move(a), std::move(b), f); bool ok = t.val() == (f ? ma : mb); ma = after<M>(ma); mb = after<M>(mb); return ok; }
    case 9: { u32 r = M::look(a, b); mb = ma; return r == ma; }
    case 10:
      if constexpr (M::copy) { T t(a); bool ok = t.val() == ma; t.set(ma + 1); ok &= a.val() == ma && t.val() == ma + 1; return ok; }
      return true;
    default:
      if constexpr (M::copy) { b = a; mb = ma; bool ok = b.val() == mb; auto* p = &b; *p = b; b.set(mb ^ 1); mb ^= 1; return ok && a.val() == ma; }
      return true;
  }
}
template <class M> static int hist(int steps) {
  typedef typename M::t T;
  r_reset();
  int heap = vp_live_heap();
  bool ok = true, val = true;
  {
    u32 ma = A<u32>(), mb = A<u32>();
    T a = T::make(ma), b = T::make(mb);
    for (int i = 0; i < steps && ok && val; i++) {
      ok = step<M>(a, b, ma, mb);
      val = a.val() == ma && b.val() == mb;
    }
  }
  return (ok ? 0 : 1) | (val ? 0 : 2) | (r_live() == 0 ? 0 : 4) | (r_bad() == 0 ? 0 : 8) | (vp_live_heap() == heap ? 0 : 16);
}
#define HIST(s) H(hist_##s) { int r = hist<T_##s>(2); VP_CHECK(r == 0); } H(t_hist_##s) { int r = hist<T_##s>(3); VP_CHECK(r == 0); }
HIST(d) HIST(c)
HIST(b) HIST(g)
HIST(gc) HIST(x)
HIST(xc) HIST(p)
HIST(cp) HIST(tr)
HIST(trc)

#define END VP_CHECK(r_live() == 0); VP_CHECK(r_bad() == 0); VP_CHECK(vp_live_heap() == heap);
#define START r_reset(); int heap = vp_live_heap();
// Which C++ operation runs which Rust operation, and how often.
H(counts) {
  START
  u32 v = A<u32>(), w = A<u32>();
  {
    D d;
    VP_CHECK(r_born() == 1 && r_live() == 1 && d.val() == 77);
    D e(std::move(d));
    VP_CHECK(r_born() == 2 && r_live() == 2);
    e = std::move(d);
    VP_CHECK(r_born() == 2 && r_live() == 2);
  }
  VP_CHECK(r_live() == 0);
  {
    C c = C::make(v), k = C::make(w);
    VP_CHECK(r_clones() == 0 && r_live() == 2);
    C f(c);
    VP_CHECK(r_clones() == 1 && r_clone_froms() == 0 && r_live() == 3);
    f = k;
    VP_CHECK(r_clones() == 1 && r_clone_froms() == 1 && r_live() == 3 && f.val() == w && c.val() == v);
    auto& g = f;
    f = g;
    VP_CHECK(r_clone_froms() == 1 && r_live() == 3);
  }
  END
}
H(statics) {
  VP_CHECK(!std::is_copy_constructible_v<D> && !std::is_copy_assignable_v<D> && !std::is_move_constructible_v<U> && !std::is_move_assignable_v<U> && !std::is_default_constructible_v<C>);
  VP_CHECK(!std::is_copy_constructible_v<P> && !std::is_default_constructible_v<P> && std::is_trivially_destructible_v<P> && std::is_trivially_copy_constructible_v<Cp>);
  VP_CHECK(!std::is_trivially_destructible_v<D> && !std::is_trivially_destructible_v<G> && !std::is_trivially_destructible_v<X> && !std::is_trivially_destructible_v<Tr> && !std::is_trivially_destructible_v<U>);
}
H(unmovable) {
  START
  u32 v = A<u32>(), w = A<u32>();
  {
    U u = U::make(v);
    VP_CHECK(u.val() == v && r_live() == 1);
    std::optional<int> pad = 3;
    U t = U::make(w);
    VP_CHECK(t.val() == w && u.val() == v && r_live() == 2);
  }
  END
}
H(glue) {
  START
  u32 v = A<u32>();
  {
    G g = G::make(v);
    VP_CHECK(r_live() == 2 && g.ok() && g.a.val() == v);
    g.a = D::make(v + 1);
    VP_CHECK(r_live() == 2 && g.a.val() == v + 1);
    G h(std::move(g));
    VP_CHECK(r_live() == 4 && h.a.val() == v + 1 && h.k == 1 && g.ok() && g.k == 5);
    D d(std::move(h.a));
    VP_CHECK(d.val() == v + 1 && h.a.val() == 77 && r_live() == 5);
    GC x = GC::make(v);
    GC y(x);
    y.c = C::make(7);
    VP_CHECK(x.c.val() == v && y.val() == 7 && y.x == u16(v));
  }
  END
}
H(conditional) {
  START
  u32 v = A<u32>(), w = A<u32>(), x = A<u32>(); bool stop = A<bool>();
  {
    C c = C::make(x);
    VP_CHECK(take_two(D::make(v), B::make(w), c, stop) == (stop ? v : w + x));
    VP_CHECK(r_live() == 1 && c.val() == x);
  }
  END
}
H(arrays) {
  START
  u32 v = A<u32>(), w = A<u32>(); u8 k = A<u8>();
  {
    std::array<D, 2> a = arr_give(v);
    VP_CHECK(r_live() == 2 && a[0].val() == v && a[1].val() == ~v);
    a[1] = D::make(w);
    VP_CHECK(arr_take(std::move(a), k) == ((k & 1) ? w : v));
    std::array<X, 2> x{X::make(v), X::make(w)};
    std::array<X, 2> y = arr_rev(std::move(x));
    VP_CHECK(y[0].val() == w && y[1].val() == v);
  }
  END
}
H(tuples) {
  START
  u32 v = A<u32>(), w = A<u32>(); u8 k = A<u8>(); u16 j = A<u16>();
  {
    VP_CHECK(tup_take({D::make(v), k}, {j, B::make(w)}) == v + w + k + j);
    VP_CHECK(r_live() == 0);
    auto t = tup_give(v);
    VP_CHECK(std::get<0>(t).val() == v && std::get<1>(t) == u8(v) && std::get<2>(t).val() == ~v && r_live() == 2);
    auto u = tup_swap({X::make(v), D::make(w)});
    VP_CHECK(std::get<0>(u).val() == w && std::get<1>(u).val() == v && r_live() == 3);
    auto n = tup_nest(std::make_tuple(std::make_tuple(X::make(v), k), D::make(w)), true);
    VP_CHECK(std::get<0>(n) == k && std::get<0>(std::get<1>(n)).val() == w && std::get<0>(std::get<1>(std::get<1>(n))).val() == v);
  }
  END
}
H(tuple_fields) {
  START
  u32 v = A<u32>(), w = A<u32>();
  {
    HasTup h = HasTup::make(v);
    VP_CHECK(h.val() == v && h.n == v && r_live() == 1);
    std::tuple<B, u8> t = std::move(h.t);
    VP_CHECK(std::get<0>(t).val() == v && std::get<1>(t) == u8(v));
    h.t = std::tuple<B, u8>(B::make(w), 3);
    VP_CHECK(h.val() == w);
  }
  END
}
H(forgotten) {
  START
  u32 v = A<u32>();
  { D d = D::make(v); forget_d(std::move(d)); VP_CHECK(d.val() == 77); }
  VP_CHECK(r_live() == 1 && r_bad() == 0);
}
H(array_unmovable_result) {
  START
  u32 v = A<u32>();
  {
    std::array<U, 2> a = arr_u_give(v);
    VP_CHECK(r_live() == 2 && a[0].val() == v && a[1].val() == ~v);
  }
  END
}
H(array_unmovable_param) {
  START
  u32 v = A<u32>(), w = A<u32>(); u8 k = A<u8>();
  VP_CHECK(arr_u({U::make(v), U::make(w)}, k) == ((k & 1) ? w : v));
  VP_CHECK(r_live() == 0);
  VP_CHECK(vp_live_heap() == heap);
  VP_CHECK(r_bad() == 0);  // known finding: the elements are dropped twice
}
H(array_kinds) {
  START
  u32 v = A<u32>(), w = A<u32>(); u8 k = A<u8>(); bool f = A<bool>();
  {
    std::array<std::array<D, 2>, 1> a{std::array<D, 2>{D::make(v), D::make(w)}};
    auto b = arr_g(std::move(a));
    VP_CHECK(b[0][0].val() == w && b[0][1].val() == v);
    C c = arr_c({C::make(v), C::make(w)}, f);
    VP_CHECK(c.val() == (f ? v : w));
    VP_CHECK(arr_tr({Tr::make(v), Tr::make(w)}, k) == ((k & 1) ? w : v));
    VP_CHECK(arr_tup({std::array<D, 2>{D::make(v), D::make(w)}, k}) == ((k & 1) ? w : v));
  }
  END
}
