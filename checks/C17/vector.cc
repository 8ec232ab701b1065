#include <algorithm>
#include <cstring>
#include <vector>
#include "vp.h"
#include "thunks.inc"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static u64 mx(u64 h, u64 x) { return ((h << 13) | (h >> 51)) + x; }
extern "C" {
[[gnu::noinline]] u32* c17_own_new(u32 v) { return new u32(v); }
[[gnu::noinline]] void c17_own_del(u32* p) { delete p; }
}
// The element types of rust/src/harness.rs.
typedef u32 E0;
struct E1 {
  u32* p;
  explicit E1(u32 v) : p(c17_own_new(v)) {}
  E1(const E1& o) : p(c17_own_new(*o.p)) {}
  E1(E1&& o) noexcept : p(o.p) { o.p = nullptr; }
  E1& operator=(E1 o) noexcept { std::swap(p, o.p); return *this; }
  ~E1() { if (p) c17_own_del(p); }
};
struct alignas(32) E2 { u64 v; explicit E2(u32 x) : v(x) {} };
static u32 val(const E0& x) { return x; }
static u32 val(const E1& x) { return *x.p; }
static u32 val(const E2& x) { return u32(x.v); }
template <class E> using V = std::vector<E>;
template <class E> static u64 dg(const V<E>& s) { u64 h = s.size(); for (auto& x : s) h = mx(h, val(x)); return h; }
template <class E> static u64 dg0(const V<E>& s) { u64 h = 0; for (auto& x : s) h = mx(h, val(x)); return h; }
#define MAXN 3
template <class E> static void make(V<E>& v, V<E>& m, int maxn, int slack) {
  int n = vp_pick(maxn + 1), extra = vp_pick(slack + 1);
  if (n + extra) v.reserve(n + extra);
  m.reserve(16);
  for (int i = 0; i < n; i++) { u32 x = vp_any<u32>(); v.push_back(E(x)); m.push_back(E(x)); }
}
template <class E> static void same(const V<E>& v, const V<E>& m) {
  vp_assert(v.size() == m.size(), 1);
  vp_assert(v.capacity() >= v.size() && (v.data() != nullptr || v.capacity() == 0), 2);
  for (size_t i = 0; i < m.size(); i++) vp_assert(val(v[i]) == val(m[i]), 3);
}
template <class E> static void use(V<E>& v, V<E>& m) {
  same(v, m);
  u32 x = vp_any<u32>();
  v.push_back(E(x)); m.push_back(E(x));
  if (v.size() > 1) { v.erase(v.begin()); m.erase(m.begin()); }
  same(v, m);
}
// `na` is the number of index/count values tried; `other` says whether a second vector takes part.
template <class E, class R, class M> static void op(R rust, M model, int other, size_t (*na)(size_t)) {
  int heap = vp_live_heap();
  {
    V<E> v, m, o, p;
    make(v, m, MAXN, 2);
    if (other) make(o, p, other, 1);
    size_t lim = na(v.size());
    if (lim) {
      size_t a = vp_pick(int(lim)); u32 b = vp_any<u32>();
      u64 r = rust(v, a, b, o);
      vp_assert(r == model(m, a, b, p), 4);
      use(v, m); use(o, p);
    }
  }
  vp_assert(vp_live_heap() == heap, 5);
}
static size_t one(size_t) { return 1; }
static size_t below(size_t n) { return n; }
static size_t upto(size_t n) { return n + 1; }
static size_t any5(size_t) { return 5; }
#define OP(name, other, na, ...) \
  extern "C" { u64 name##_0(V<E0>&, size_t, u32, V<E0>&); u64 name##_1(V<E1>&, size_t, u32, V<E1>&); u64 name##_2(V<E2>&, size_t, u32, V<E2>&); } \
  struct M_##name { template <class E> u64 operator()(V<E>& v, size_t a, u32 b, V<E>& o) __VA_ARGS__ }; \
  H(name##_val) { op<E0>(name##_0, M_##name(), other, na); } \
  H(name##_own) { op<E1>(name##_1, M_##name(), other, na); } \
  H(name##_align) { op<E2>(name##_2, M_##name(), other, na); }
#define W template <class E> static
OP(len, 0, one, { return v.size() * 100 + v.empty() * 10; })
OP(read, 0, one, { u64 h = 0; for (auto& x : v) h = mx(h, val(x)); for (auto& x : v) h = mx(h, val(x)); return mx(mx(h, dg(v)), dg(v)); })
OP(index, 0, below, { return val(v[a]); })
OP(write, 0, below, { for (auto& x : v) x = E(val(x) ^ b ^ 1); std::swap(v[0], v[a]); v[a] = E(b); return 0; })
OP(push, 0, one, { v.push_back(E(b)); return 0; })
OP(insert, 0, upto, { v.insert(v.begin() + a, E(b)); return 0; })
OP(remove, 0, below, { u64 r = val(v[a]); v.erase(v.begin() + a); return r; })
OP(swap_remove, 0, below, { u64 r = val(v[a]); std::swap(v[a], v.back()); v.pop_back(); return r; })
OP(pop, 0, one, { if (v.empty()) return u64(1) << 40; u64 r = val(v.back()); v.pop_back(); return r; })
OP(clear, 0, one, { v.clear(); return 0; })
OP(truncate, 0, any5, { while (v.size() > a) v.pop_back(); return 0; })
OP(reserve, 0, any5, { return 1; })
OP(reserve_exact, 0, any5, { return 1; })
OP(try_reserve, 0, any5, { return 1; })
OP(shrink_to_fit, 0, one, { return 1; })
OP(shrink_to, 0, any5, { return 1; })
OP(efs, 2, one, { for (auto& x : o) v.push_back(x); return 0; })
OP(efw, 0, upto, { for (size_t i = a, n = v.size(); i < n; i++) { E x(val(v[i])); v.push_back(x); } return 0; })
OP(extend, 0, any5, { for (u32 i = 0; i < a; i++) v.push_back(E(b + i)); return 0; })
OP(resize, 0, any5, { while (v.size() > a) v.pop_back(); while (v.size() < a) v.push_back(E(b)); return 0; })
OP(resize_with, 0, any5, { while (v.size() > a) v.pop_back(); while (v.size() < a) v.push_back(E(++b)); return 0; })
OP(dedup, 0, one, { V<E> r; r.reserve(8); for (auto& x : v) if (r.empty() || val(r.back()) != val(x)) r.push_back(x); v.swap(r); return 0; })
OP(dedup_by_key, 0, one, { V<E> r; r.reserve(8); for (auto& x : v) if (r.empty() || (val(r.back()) & 1) != (val(x) & 1)) r.push_back(x); v.swap(r); return 0; })
OP(retain, 0, one, { V<E> r; r.reserve(8); for (auto& x : v) if (val(x) > b) r.push_back(x); v.swap(r); return 0; })
OP(retain_mut, 0, one, { V<E> r; r.reserve(8); for (auto& x : v) if (val(x) > b) r.push_back(E(val(x) ^ b)); v.swap(r); return 0; })
OP(split_off, 1, upto, { V<E> r; r.reserve(8); for (size_t i = a; i < v.size(); i++) r.push_back(v[i]); while (v.size() > a) v.pop_back(); o.swap(r); return 0; })
OP(append, 2, one, { for (auto& x : o) v.push_back(x); o.clear(); return 0; })
OP(clone, 1, one, { o.clear(); for (auto& x : v) o.push_back(x); return 0; })
OP(from_alloc, 1, any5, { o.clear(); for (size_t i = v.size(); i--;) o.push_back(v[i]); v.clear(); return 0; })
OP(collect_some, 1, one, { o.clear(); for (auto& x : v) if (val(x) > b) o.push_back(x); for (auto& x : o) if ((val(x) & 1) == 0) v.push_back(x); return 0; })
OP(dedup_by, 0, one, { V<E> r; r.reserve(8); for (auto& x : v) { if (!r.empty() && val(x) > val(r.back())) r.back() = E(val(r.back()) ^ b); else r.push_back(x); } v.swap(r); return 0; })
OP(views, 0, upto, {
  size_t n = v.size();
  u64 h = mx(mx(dg(v), dg(v)), dg(v));
  if (a < n) {
    v[a] = E(b); v[n - 1] = E(b ^ 1); std::swap(v[0], v[a]);
    for (size_t i = a, j = n - 1; i < j; i++, j--) std::swap(v[i], v[j]);
    u64 g = a; for (size_t i = 0; i < a; i++) g = mx(g, val(v[i]));
    h = mx(mx(h, g), val(v[a]));
    v[a] = E(b + 5);
  }
  return h;
})
OP(from_refs, 1, [](size_t) -> size_t { return 3; }, {
  o.clear();
  if (a == 0) { for (int i = 0; i < 2; i++) { o.push_back(E(b)); o.push_back(E(7)); } }
  if (a == 1) for (auto& x : v) o.push_back(x);
  bool e = o.size() == v.size(); for (size_t i = 0; e && i < o.size(); i++) e = val(o[i]) == val(v[i]);
  return e;
})
OP(take_vec, 1, one, { u64 h = dg(v); o.swap(v); v.clear(); return h; })
OP(from_into, 1, one, { v.push_back(E(b)); o.swap(v); v.clear(); return 0; })
OP(to_vec, 1, one, { o.clear(); for (auto& x : v) o.push_back(x); return dg(v); })
OP(new_from, 1, any5, { v.clear(); o.clear(); o.push_back(E(b)); o.push_back(E(7)); o.push_back(E(9)); return 1; })
OP(into_iter, 0, any5, {
  size_t i = 0, j = v.size();
  u64 h = j;
  for (size_t k = 0; k < a; k++) {
    u64 x = u64(1) << 40;
    bool front = ((b >> k) & 1) == 0;
    if (i < j) x = front ? val(v[i++]) : val(v[--j]);
    h = mx(h, x);
  }
  u64 d = j - i;
  for (size_t k = i; k < j; k++) d = mx(d, val(v[k]));
  h = mx(h, d);
  v.clear();
  return mx(mx(h, 1), j - i);
})
OP(compare, 3, one, {
  int c = 0;
  for (size_t i = 0; !c && i < v.size() && i < o.size(); i++) c = val(v[i]) < val(o[i]) ? -1 : val(v[i]) > val(o[i]) ? 1 : 0;
  if (!c) c = v.size() < o.size() ? -1 : v.size() > o.size() ? 1 : 0;
  return u64(c == 0) | 2 | u64(c != 0) << 2 | u64(c == 0) << 3 | u64(c + 1) << 8 | u64(c + 1) << 16 | u64(c < 0) << 24;
})
OP(hash, 0, one, { return 1; })
OP(drop_it, 0, one, { v.clear(); return 0; })
OP(swap, 2, one, { v.swap(o); return 0; })
OP(set_len, 0, any5, { for (size_t i = 0; i < a; i++) v.push_back(E(b)); return 0; })
