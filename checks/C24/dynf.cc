// DynFuture through the generated header.
#include <cstdint>
#include <utility>
#include "vp.h"
#include "dynf.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
using dyn_future::DynFuture;
#define A vp_any
static u64 mix(u64 h, u64 x) { return (h << 7 | h >> 57) + x; }
struct Sim {
  u32 plan; bool kept = false; u32 wakes = 0;
  bool poll() {
    u32 d = plan % 10;
    plan /= 10;
    if (d == 2 || d == 4) ++wakes;
    if (d == 3) kept = true;
    if (d == 5 && kept) { kept = false; ++wakes; }
    return d == 0 || d > 5;
  }
};
static u32 any_plan() {
  static const u32 plans[] = {0, 1, 2, 3, 4, 5, 6, 33, 53, 35, 43, 7321, 2221, 25353};
  return plans[vp_pick(14)];
}
struct Counted final : rs_std::CppWaker {
  u32 refs = 1, wakes = 0;
  void WakeByRef() override { ++wakes; }
  void WakeAndDestroy() override { ++wakes; --refs; }
  rs_std::CppWaker* Clone() override { ++refs; return this; }
  void Destroy() override { --refs; }
};
struct Split final : rs_std::CppWaker {
  Split* top; bool owned; u32 wakes = 0, clones = 0;
  explicit Split(Split* t) : top(t ? t : this), owned(t) {}
  void WakeByRef() override { ++top->wakes; }
  void WakeAndDestroy() override { ++top->wakes; Destroy(); }
  rs_std::CppWaker* Clone() override { ++top->clones; return make(top); }
  void Destroy() override { --top->clones; del(this); }
  [[gnu::noinline]] static Split* make(Split* t) { return new Split(t); }
  [[gnu::noinline]] static void del(Split* s) { if (s->owned) delete s; else s->top->clones = 1000; }
};
// Polled to the end, discarded or dropped part way: the future runs as planned and is gone at once.
template <class W> static void run(u32 polls, bool discard) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>();
  W w = [] { if constexpr (__is_same(W, Split)) return Split(nullptr); else return Counted(); }();
  if constexpr (__is_same(W, Split)) w.top = &w;
  auto held = [&] { if constexpr (__is_same(W, Split)) return w.clones; else return w.refs - 1; };
  Sim m{p};
  dynf::clear_seen();
  bool fin = false;
  {
    DynFuture f = dynf::make(x, p);
    VP_CHECK(vp_live_heap() == heap + 2 && !f.is_completed_or_discarded());
    bool same = true;
    for (u32 i = 0; i < polls && !fin; ++i) {
      fin = m.poll();
      same &= f.poll(&w) == fin;
      same &= f.is_completed_or_discarded() == fin && w.wakes == m.wakes && held() == (m.kept && !fin);
    }
    VP_CHECK(same);
    if (fin) {
      VP_CHECK(dynf::seen() == mix(m.plan, x) && vp_live_heap() == heap && held() == 0);
    } else {
      VP_CHECK(dynf::seen() == 0);
      if (discard) {
        f.discard();
        VP_CHECK(f.is_completed_or_discarded() && dynf::seen() == x && vp_live_heap() == heap && held() == 0);
      }
    }
  }
  VP_CHECK(dynf::seen() == (fin ? mix(m.plan, x) : x) && vp_live_heap() == heap && held() == 0 && w.wakes == m.wakes);
}
H(counted) { run<Counted>(vp_pick(7), A<bool>()); }
H(split) { run<Split>(vp_pick(7), A<bool>()); }
H(borrow) {
  u32 p = any_plan(), x = A<u32>(), y = A<u32>(), v = y;
  int heap = vp_live_heap();
  {
    DynFuture f = dynf::store(&v, x, p);
    Counted w;
    Sim m{p};
    bool same = true, fin = false;
    while (!fin) { same &= v == y; fin = m.poll(); same &= f.poll(&w) == fin; }
    VP_CHECK(same && v == x && w.refs == 1);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(moves) {
  u32 p = any_plan(), x = A<u32>(), y = A<u32>();
  int heap = vp_live_heap();
  dynf::clear_seen();
  Counted w;
  Sim m{p};
  {
    DynFuture e;
    VP_CHECK(e.is_completed_or_discarded());
    DynFuture f = dynf::make(x, p);
    DynFuture g = std::move(f);
    VP_CHECK(f.is_completed_or_discarded() && !g.is_completed_or_discarded());
    e = std::move(g);
    VP_CHECK(g.is_completed_or_discarded());
    bool same = true, fin = m.poll();
    same &= e.poll(&w) == fin;
    DynFuture h = dynf::after(std::move(e), y);
    if (fin) {
      same &= h.poll(&w) && dynf::seen() == mix(m.plan, x);
    } else {
      while (!fin) { fin = m.poll(); same &= h.poll(&w) == fin; }
      same &= dynf::seen() == mix(mix(m.plan, x), y);
    }
    VP_CHECK(same && h.is_completed_or_discarded());
  }
  VP_CHECK(w.refs == 1 && w.wakes == m.wakes && vp_live_heap() == heap);
}
// Polling what is finished or discarded is refused.
H(again) {
  Counted w;
  bool d = A<bool>();
  DynFuture f = dynf::make(1, 1);
  if (d) {
    f.discard();
    vp_expect_abort(true);
    f.poll(&w);
    VP_CHECK(false);  // VP_MAYBE
  } else {
    bool a = f.poll(&w), b = f.poll(&w);
    VP_CHECK(!a && b);
    vp_expect_abort(true);
    f.poll(&w);
    VP_CHECK(false);  // VP_MAYBE
  }
}
