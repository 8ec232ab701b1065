#include "call.h"

#include "vp.h"

using Fn = rs_std::DynCallable<std::uint32_t(std::uint32_t) const>;
using Mut = rs_std::DynCallable<std::uint32_t(std::uint32_t)>;
using Once = rs_std::DynCallable<std::uint32_t(std::uint32_t) &&>;

std::uint32_t fn_call(Fn f, std::uint32_t x) { return f(x); }
std::uint64_t fn_twice(Fn f, std::uint32_t x, std::uint32_t y) {
  std::uint64_t a = f(x);
  std::uint64_t b = f(y);
  return (a << 32) | b;
}
std::uint64_t mut_twice(Mut f, std::uint32_t x, std::uint32_t y) {
  std::uint64_t a = f(x);
  std::uint64_t b = f(y);
  return (a << 32) | b;
}
std::uint32_t once_call(Once f, std::uint32_t x) { return std::move(f)(x); }
void once_void(rs_std::DynCallable<void() &&> f) { std::move(f)(); }
bool fn_never(Fn f) { return f != nullptr && nullptr != f && !(f == nullptr) && !(nullptr == f) && static_cast<bool>(f); }
bool once_never(Once f) { return f != nullptr && nullptr != f && !(f == nullptr) && !(nullptr == f) && static_cast<bool>(f); }
std::uint32_t two(Mut f, std::uint8_t k, Once g) { return f(std::move(g)(k)); }

// The ways a callable can be moved; the last value holds it.
template <typename F>
static F moved(F f, std::uint8_t how) {
  switch (how) {
    case 0: {
      F g = std::move(f);
      VP_CHECK(!f);
      return g;
    }
    case 1: {
      F g;
      VP_CHECK(!g);
      g = std::move(f);
      VP_CHECK(!f);
      return g;
    }
    case 2: {
      F g(nullptr);
      g.swap(f);
      VP_CHECK(!f);
      return g;
    }
    case 3: {
      F g;
      swap(f, g);
      VP_CHECK(!f);
      return g;
    }
    case 4: {
      F g;
      std::swap(f, g);
      F h = std::move(g);
      F i;
      i = std::move(h);
      return i;
    }
    case 5: {
      // a moved-from callable can be assigned again
      F g = std::move(f);
      f = std::move(g);
      VP_CHECK(g == nullptr);
      return f;
    }
    case 6: {
      // swapped with itself
      f.swap(f);
      return f;
    }
    default:
      return f;
  }
}

std::uint32_t fn_moved(Fn f, std::uint8_t how, std::uint32_t x) {
  Fn g = moved(std::move(f), how);
  return g(x);
}
std::uint32_t mut_moved(Mut f, std::uint8_t how, std::uint32_t x) {
  Mut g = moved(std::move(f), how);
  return g(x);
}
std::uint32_t once_moved(Once f, std::uint8_t how, std::uint32_t x) {
  Once g = moved(std::move(f), how);
  return std::move(g)(x);
}
std::uint64_t fn_swap(Fn f, Fn g, std::uint8_t how, std::uint32_t x) {
  if (how == 0) f.swap(g);
  if (how == 1) swap(f, g);
  if (how == 2) std::swap(f, g);
  std::uint64_t a = f(x);
  std::uint64_t b = g(x);
  return (a << 32) | b;
}
std::uint32_t fn_assign(Fn f, Fn g, std::uint32_t x) {
  f = std::move(g);
  return f(x);
}
std::uint32_t fn_any(Fn f, std::uint32_t x, bool call) {
  absl::AnyInvocable<std::uint32_t(std::uint32_t) const> a = std::move(f);
  VP_CHECK(!f);
  VP_CHECK(static_cast<bool>(a));
  return call ? a(x) : 3;
}
std::uint32_t once_any(Once f, std::uint32_t x, bool call) {
  absl::AnyInvocable<std::uint32_t(std::uint32_t) &&> a = std::move(f);
  VP_CHECK(!f);
  VP_CHECK(static_cast<bool>(a));
  return call ? std::move(a)(x) : 3;
}

Plain map_plain(rs_std::DynCallable<Plain(Plain) const> f, Plain x) { return f(x); }
Own map_own(rs_std::DynCallable<Own(Own) const> f, std::uint32_t v) { return f(Own(v)); }
std::optional<std::uint16_t> map_opt(rs_std::DynCallable<std::optional<std::uint16_t>(std::optional<std::uint16_t>) const> f,
                                     std::optional<std::uint16_t> x) {
  return f(x);
}
std::pair<std::uint8_t, std::uint64_t> map_pair(
    rs_std::DynCallable<std::pair<std::uint8_t, std::uint64_t>(std::pair<std::uint64_t, std::uint8_t>) const> f,
    std::pair<std::uint64_t, std::uint8_t> x) {
  return f(x);
}
Color map_color(rs_std::DynCallable<Color(Color) const> f, Color x) { return f(x); }
std::uint64_t map_many(rs_std::DynCallable<std::uint64_t(std::uint8_t, Plain, std::uint16_t, std::optional<std::uint8_t>, bool, std::uint64_t) const> f,
                       std::uint8_t a, Plain b, std::uint16_t c, std::optional<std::uint8_t> d, bool e, std::uint64_t g) {
  return f(a, b, c, d, e, g);
}
double map_float(rs_std::DynCallable<double(float, double) const> f, float x, double y) { return f(x, y); }

Fn fn_back(Fn f) { return f; }
Mut mut_back(Mut f, bool call, std::uint32_t x) {
  if (call) f(x);
  return f;
}
Once once_back(Once f) { return f; }
Fn fn_pick(Fn f, Fn g, bool first) { return first ? std::move(f) : std::move(g); }
Fn fn_empty(bool moved_from, Fn f) {
  if (!moved_from) return nullptr;
  Fn g = std::move(f);
  return f;
}
Once once_used(Once f, std::uint32_t x) {
  std::move(f)(x);
  return f;
}
static Mut* g_kept = nullptr;
void keep(Mut f) {
  if (!g_kept) {
    g_kept = new Mut();
  }
  *g_kept = std::move(f);
}
std::uint32_t fire(std::uint32_t x) { return (*g_kept)(x); }
bool kept() { return g_kept && *g_kept != nullptr; }
Mut give() {
  Mut f = std::move(*g_kept);
  delete g_kept;
  g_kept = nullptr;
  return f;
}
std::uint64_t map_ref(rs_std::DynCallable<std::uint64_t(const Plain&, std::uint32_t&) const> f, Plain x, std::uint32_t y) {
  std::uint64_t r = f(x, y);
  return r ^ (static_cast<std::uint64_t>(y) << 16) ^ x.a;
}
std::uint64_t map_rref(rs_std::DynCallable<std::uint32_t(Own&&) const> f, std::uint32_t v) {
  Own o(v);
  std::uint64_t r = f(std::move(o));
  return r ^ (static_cast<std::uint64_t>(o.get()) << 32);
}
std::uint64_t map_ptr(rs_std::DynCallable<std::uint32_t(Plain*, const std::uint32_t*)> f, Plain x, std::uint32_t v, bool null) {
  std::uint64_t r = f(&x, null ? nullptr : &v);
  return r ^ (static_cast<std::uint64_t>(static_cast<std::uint32_t>(x.b)) << 32);
}
const Plain* map_pick(rs_std::DynCallable<const Plain&(const Plain&, const Plain&) &&> f, const Plain& p, const Plain& q) {
  return &std::move(f)(p, q);
}
