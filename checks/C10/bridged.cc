#include <optional>
#include <tuple>
#include "vp.h"
#include "bridged.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
using namespace bridged;
using lay::Own; using lay::Str; using lay::Thing; using lay::Val; using lay::Two;
struct RVal { u32 x; u16 y; };
struct RView { const Thing* p; u32 tag; };
extern "C" {
[[gnu::noinline]] u32* lay_own_new(u32 v) { return new u32(v); }
[[gnu::noinline]] void lay_own_del(u32* p) { delete p; }
void lay_val_to_rust(const void* in, void* out) { u64 z = static_cast<const Val*>(in)->z; new (out) RVal{u32(z >> 16), u16(z)}; }
void lay_val_to_cpp(const void* in, void* out) { auto r = static_cast<const RVal*>(in); new (out) Val{u64(r->x) << 16 | r->y}; }
void lay_str_to_rust(void* in, void* out) { new (out) Str*(new Str(std::move(*static_cast<Str*>(in)))); }
void lay_str_to_cpp(const void* in, void* out) { new (out) Str(std::move(**static_cast<Str* const*>(in))); }
void lay_str_del(void* p) { delete static_cast<Str*>(p); }
void lay_thing_to_rust(const void* in, void* out) { new (out) RView{static_cast<const Thing*>(in), 7}; }
void lay_thing_to_cpp(const void* in, void* out) { new (out) const Thing*(static_cast<const RView*>(in)->p); }
}
static u64 anyz() { return (u64(vp_any<u32>()) << 16) | vp_any<u16>(); }
H(val) {
  u64 a = anyz(), b = anyz(); u8 k = vp_any<u8>();
  VP_CHECK(val_id(Val{a}).z == a);
  VP_CHECK(val_make(u32(a >> 16), u16(a)).z == a);
  VP_CHECK(val_sum(Val{a}, k, Val{b}) == (a >> 16) * 3 + (b >> 16) * 5 + u16(a) * u64(7) + u16(b) * u64(11) + k);
  auto t = val_pair(Val{a}, Val{b});
  VP_CHECK(std::get<0>(t).z == b && std::get<1>(t) == 9 && std::get<2>(t).z == a);
}
H(val_method) {
  u64 a = anyz(), b = anyz(); u32 s = vp_any<u32>();
  int heap = vp_live_heap();
  {
    Acc c = Acc::make(Val{a});
    VP_CHECK(c.n == (a >> 16) + u16(a));
    Val r = c.add(Val{b});
    VP_CHECK(r.z == (u64(u32((a >> 16) + u16(a))) << 16 | u16(b)) && c.n == (a >> 16) + u16(a) + (b >> 16));
    Str t = std::move(c).eat(Str(s));
    VP_CHECK(*t.p == s);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(str) {
  u32 a = vp_any<u32>(), b = vp_any<u32>(); bool f = vp_any<bool>(); int heap = vp_live_heap();
  {
    Str s = str_id(Str(a));
    VP_CHECK(*s.p == a && vp_live_heap() == heap + 1);
    Str t(b);
    Str r = str_pick(std::move(s), std::move(t), f);
    VP_CHECK(s.p == nullptr && t.p == nullptr && *r.p == (f ? a : b) && vp_live_heap() == heap + 1);
    str_drop(std::move(r));
    VP_CHECK(r.p == nullptr && vp_live_heap() == heap);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(thing) {
  Thing a{vp_any<u32>()}, b{vp_any<u32>()}; u32 x = vp_any<u32>(), o = a.v;
  VP_CHECK(thing_id(&a) == &a);
  VP_CHECK(thing_read(&a, &b) == u64(a.v) * 3 + b.v + 7);
  VP_CHECK(ptr_id(&b) == &b && ptr_id(nullptr) == nullptr);
  VP_CHECK(ptr_write(&a, x) == o && a.v == x);
}
H(own) {
  u32 x = vp_any<u32>(), y = vp_any<u32>(); bool f = vp_any<bool>(); int heap = vp_live_heap();
  {
    Own a = own_id(Own(x)), b = own_make(y);
    VP_CHECK(*a.p == x && *b.p == y && vp_live_heap() == heap + 2);
    VP_CHECK(own_read(a, b) == u64(x) * 3 + y && own_read(b, b) == u64(y) * 3 + y);
    own_swap(a, b);
    VP_CHECK(*a.p == y && *b.p == x);
    own_set(a, x ^ 5);
    VP_CHECK(*a.p == (x ^ 5) && vp_live_heap() == heap + 2);
    Own r = own_pick(std::move(a), std::move(b), f);
    VP_CHECK(a.p == nullptr && b.p == nullptr && *r.p == (f ? x ^ 5 : x) && vp_live_heap() == heap + 1);
    VP_CHECK(own_drop(std::move(r)) == (f ? x ^ 5 : x) && vp_live_heap() == heap);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(own_tuple) {
  u32 x = vp_any<u32>(), y = vp_any<u32>(); u8 k = vp_any<u8>(); int heap = vp_live_heap();
  {
    auto t = own_tuple(Own(x), Own(y));
    VP_CHECK(*std::get<0>(t).p == y && std::get<1>(t) == x + y && *std::get<2>(t).p == x && vp_live_heap() == heap + 2);
    Own r = own_take(std::tuple<Own, u8>(std::move(std::get<0>(t)), k));
    VP_CHECK(*r.p == y && vp_live_heap() == heap + 2);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(own_option) {
  u32 x = vp_any<u32>(), d = vp_any<u32>(); bool some = vp_any<bool>(); int heap = vp_live_heap();
  {
    auto o = own_option(Own(x), some);
    VP_CHECK(o.has_value() == some && (!some || *o->p == x) && vp_live_heap() == heap + some);
    Own r = own_unopt(std::move(o), d);
    VP_CHECK(*r.p == (some ? x : d));
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(own_field) {
  u32 x = vp_any<u32>(), y = vp_any<u32>(), z = vp_any<u32>(); u8 k = vp_any<u8>(); bool take = vp_any<bool>(); int heap = vp_live_heap();
  {
    Holder h = Holder::make(Own(x), Own(y), k);
    VP_CHECK(*h.a.p == x && *h.b.p == y && h.k == k && *h.first().p == x && &h.first() == &h.a);
    Own o = h.swap_out(Own(z));
    VP_CHECK(*o.p == x && *h.a.p == z && vp_live_heap() == heap + 3);
    if (take) {
      auto t = h.both(Own(x ^ 1), Own(y ^ 2));
      VP_CHECK(*std::get<0>(t).p == y && *std::get<1>(t).p == z && *h.b.p == (x ^ 1) && *h.a.p == (y ^ 2) && vp_live_heap() == heap + 5);
    }
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(composable) {
  u32 a = vp_any<u32>(), b = vp_any<u32>(); u8 k = vp_any<u8>();
  auto t = two_swap(Two<u32>{a, b, k});
  VP_CHECK(t.a == b && t.b == a && t.k == (k ^ 1));
  VP_CHECK(two_sum(Two<u32>{a, b, k}) == u64(a) * 3 + u64(b) * 5 + k);
  bool some = vp_any<bool>(), s1 = vp_any<bool>(), s2 = vp_any<bool>(); u16 c = vp_any<u16>(), d = vp_any<u16>(); u8 e = vp_any<u8>(), f = vp_any<u8>();
  auto o = two_opt(some ? std::optional<Two<u16>>(Two<u16>{c, d, k}) : std::nullopt);
  VP_CHECK(o.has_value() == some && (!some || (o->a == d && o->b == c && o->k == k)));
  typedef std::optional<u8> O;
  auto n = two_nested(Two<O>{s1 ? O(e) : O(), s2 ? O(f) : O(), k});
  VP_CHECK(n.a.has_value() == s2 && n.b.has_value() == s1 && (!s2 || *n.a == f) && (!s1 || *n.b == e) && n.k == k);
}
