// Async Rust functions through the generated header, polled from C++ with C++ wakers.
#include <array>
#include <cstdint>
#include <new>
#include <utility>
#include "vp.h"
#include "fut.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
using crubit::DynErasedFuture;
using fut::Own;
#define A vp_any
static u64 mix(u64 h, u64 x) { return (h << 7 | h >> 57) + x; }

// What a plan does: see Steps in fut.rs.
struct Sim {
  u32 plan; bool kept = false; u32 wakes = 0;
  bool poll() {    // true: finished
    u32 d = plan % 10;
    plan /= 10;
    if (d == 2 || d == 4) ++wakes;
    if (d == 3) kept = true;
    if (d == 5 && kept) { kept = false; ++wakes; }
    return d == 0 || d > 5;
  }
};
static u32 any_plan() {
  static const u32 plans[] = {0, 1, 2, 3, 4, 5, 6, 33, 53, 35, 43, 7321, 2221, 25353};
  return plans[vp_pick(14)];
}
static u32 short_plan() {
  static const u32 plans[] = {0, 3, 21, 953};
  return plans[vp_pick(4)];
}

// A counted waker: the same object stands for all clones.
struct Counted final : rs_std::Waker {
  u32 refs = 1, wakes = 0;
  void WakeByRef() override { ++wakes; }
  void WakeAndDestroy() override { ++wakes; --refs; }
  rs_std::Waker* Clone() override { ++refs; return this; }
  void Destroy() override { --refs; }
};
// A waker whose clones are objects of their own, which know whether they were used.
struct Split final : rs_std::Waker {
  Split* top; bool owned; u32 wakes = 0, clones = 0, byref = 0;
  explicit Split(Split* t) : top(t ? t : this), owned(t) {}
  void WakeByRef() override { ++top->wakes; ++top->byref; }
  void WakeAndDestroy() override { ++top->wakes; Destroy(); }
  rs_std::Waker* Clone() override { ++top->clones; return make(top); }
  void Destroy() override { --top->clones; del(this); }
  [[gnu::noinline]] static Split* make(Split* t) { return new Split(t); }
  [[gnu::noinline]] static void del(Split* s) { if (s->owned) delete s; else s->top->clones = 1000; }
};
template <class T> struct Out {
  alignas(T) unsigned char b[sizeof(T) + 8];
  Out() { for (auto& c : b) c = 0x5a; }
  T* p() { return reinterpret_cast<T*>(b); }
  bool untouched() const { for (auto c : b) if (c != 0x5a) return false; return true; }
  bool tail() const { for (size_t i = sizeof(T); i < sizeof b; ++i) if (b[i] != 0x5a) return false; return true; }
};
// Polls to the end: pending exactly as planned, nothing written before, and nothing beyond the value.
template <class T> static void finish(DynErasedFuture<T>& f, u32 plan, Out<T>& out) {
  Counted w;
  Sim m{plan};
  bool same = true, done = false;
  while (!done) {
    same &= out.untouched();
    done = m.poll();
    same &= f.Poll(&w, out.p()) == done;
    same &= w.wakes == m.wakes && w.refs == 1 + m.kept * !done;
  }
  VP_CHECK(same);
  VP_CHECK(out.tail());
  VP_CHECK(w.refs == 1 && w.wakes == m.wakes);
}
template <class T> static T value(DynErasedFuture<T> f, u32 plan) {
  Out<T> o;
  finish(f, plan, o);
  T t = *o.p();
  return t;
}
// For outputs with a destructor: hands the value to k, then destroys it.
template <class T, class K> static void taken(DynErasedFuture<T> f, u32 plan, K k) {
  Out<T> o;
  finish(f, plan, o);
  k(*o.p());
  o.p()->~T();
}
static void done(DynErasedFuture<void> f, u32 plan) {
  Counted w;
  Sim m{plan};
  bool same = true, fin = false;
  while (!fin) { fin = m.poll(); same &= f.Poll(&w, nullptr) == fin; }
  VP_CHECK(same && w.refs == 1 && w.wakes == m.wakes);
}

H(scalars) {
  u32 p = any_plan(), x = A<u32>(); u64 y = A<u64>(); u8 b = A<u8>(); int16_t s = A<int16_t>();
  VP_CHECK(value(fut::value(x, y, p), p) == mix(mix(1, x), y));
  VP_CHECK(value(fut::byte(b, p), p) == (b ^ 0x5a));
  VP_CHECK(value(fut::yes(s, p), p) == (s > 3));
  VP_CHECK(__builtin_bit_cast(u64, value(fut::float_(x, p), p)) == u64(x) << 20);
  VP_CHECK(value(fut::size(y, s, p), p) == y - u64(int64_t(s)));
  VP_CHECK(value(fut::letter(*rs_std::char_::from_u32(b), p), p) == *rs_std::char_::from_u32(b));
}
static u8 byte(fut::Kind k) { return __builtin_bit_cast(u8, k); }
H(structs) {
  u32 p = any_plan(); u8 a = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>();
  auto v = value(fut::plain(a, b, c, p), p);
  VP_CHECK(v.a == a && v.b == b && v.c == c);
  typedef fut::Kind K;
  VP_CHECK(byte(value(fut::kind(K::MakeZero(), p), p)) == byte(K::MakeOne()));
  VP_CHECK(byte(value(fut::kind(K::MakeOne(), p), p)) == byte(K::MakeLast()));
  VP_CHECK(byte(value(fut::kind(K::MakeLast(), p), p)) == byte(K::MakeZero()));
}
// The tuple arrives with every element in its place.
H(tuples) {
  u32 p = any_plan(); u8 a = A<u8>(); u64 b = A<u64>(); u16 c = A<u16>(); u32 d = A<u32>();
  taken(fut::pair(a, b, c, p), p, [&](auto& t) {
    std::tuple<u8, u64, u16> s = std::move(t);
    VP_CHECK(std::get<0>(s) == a && std::get<1>(s) == b && std::get<2>(s) == c);
  });
  taken(fut::nested(a, d, p), p, [&](auto& t) {
    std::tuple<u8, u32> s = std::move(t[0]), r = std::move(t[1]);
    VP_CHECK(std::get<0>(s) == a && std::get<1>(s) == d && std::get<0>(r) == u8(~a) && std::get<1>(r) == ~d);
  });
  auto e = value(fut::array(a, u8(d), p), p);
  VP_CHECK(e[0] == a && e[1] == u8(d) && e[2] == (a ^ u8(d)) && e.size() == 3);
}
H(owner_tuple) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>(); u8 b = A<u8>();
  taken(fut::own_pair(Own::make(x), b, p), p, [&](auto& t) {
    std::tuple<u8, Own> s = std::move(t);
    VP_CHECK(std::get<0>(s) == b && std::get<1>(s).get() == x);
  });
  VP_CHECK(vp_live_heap() == heap);
}
// References come out as pointers to what Rust refers to.
H(refs) {
  int heap = vp_live_heap();
  {
    u32 p = any_plan(), x = A<u32>(), y = A<u32>(); bool first = A<bool>();
    u32 const* r = value(fut::pick(&x, &y, first, p), p);
    VP_CHECK(r == (first ? &x : &y));
    Own o = Own::make(x);
    u32* q = value(fut::slot(&o, p), p);
    VP_CHECK(*q == x);
    *q = y;
    VP_CHECK(o.get() == y);
    u32 arr[3] = {x, y, 3};
    auto t = value(fut::tail(rs_std::SliceRef<const u32>(arr, 3), p), p);
    VP_CHECK(t.data() == arr + 1 && t.size() == 2);
    auto s = value(fut::text(rs_std::StrRef("abc"), p), p);
    VP_CHECK(s.size() == 3 && s.data()[0] == 'a' && s.data()[2] == 'c');
    auto fn = value(fut::callback(x, p), p);
    VP_CHECK(y == 0xffffffff || y > 0x7fffffff || fn(y) == (x > 3 ? y + 1 : y * 2));
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(results) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>(); u8 e = A<u8>();
  taken(fut::checked(x, e, p), p, [&](auto& r) { VP_CHECK(r.has_value() == (x > 9) && (x > 9 ? r.value() == x : r.error() == e)); });
  taken(fut::own_or(x, e, p), p, [&](auto& r) { VP_CHECK(r.has_value() == (x > 9) && (x > 9 ? r.value().get() == x : r.error() == e)); });
  VP_CHECK(vp_live_heap() == heap);
}
H(vectors) {
  int heap = vp_live_heap();
  u32 p = short_plan(), x = A<u32>(); u8 n = vp_pick(4);
  taken(fut::many(n, x, p), p, [&](auto& v) {
    bool ok = v.size() == n;
    for (u8 i = 0; ok && i < n; ++i) ok = v.data()[i] == x + i;
    VP_CHECK(ok);
  });
  VP_CHECK(vp_live_heap() == heap);
}
// The body runs while polled, once, and not before.
H(effects) {
  u32 p = any_plan(), x = A<u32>();
  fut::clear_seen();
  {
    auto f = fut::nothing(x, p);
    VP_CHECK(fut::seen() == 0);
    Counted w;
    Sim m{p};
    bool same = true, fin = false;
    while (!fin) {
      same &= fut::seen() == 0;
      fin = m.poll();
      same &= f.Poll(&w, nullptr) == fin;
    }
    VP_CHECK(same && fut::seen() == mix(9, x));
  }
  VP_CHECK(fut::seen() == mix(9, x));
}
H(owners) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>(), y = A<u32>();
  taken(fut::owned(Own::make(x), p), p, [&](Own& o) { VP_CHECK(o.get() == x + (x ^ 1)); });
  taken(fut::pass(Own::make(x), p), p, [&](Own& o) { VP_CHECK(o.get() == x); });
  taken(Own::fresh(x, p), p, [&](Own& o) { VP_CHECK(o.get() == x); });
  VP_CHECK(value(Own::make(x).eat(p), p) == x);
  {
    Own o = Own::make(x);
    VP_CHECK(value(o.read(y, p), p) == (x ^ y));
    done(o.write(y, p), p);
    VP_CHECK(o.get() == y);
    VP_CHECK(value(fut::change(&o, x, p), p) == y);
    VP_CHECK(o.get() == (x ^ 7));
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(twice) {
  int heap = vp_live_heap();
  u32 p = short_plan(), q = short_plan(), x = A<u32>(), y = A<u32>();
  {
    auto f = fut::twice(Own::make(x), Own::make(y), p, q);
    VP_CHECK(vp_live_heap() == heap + 3);
    Counted w;
    u64 out = 0;
    Sim m{p}, k{q};
    bool same = true;
    while (!m.poll()) same &= !f.Poll(&w, &out);
    VP_CHECK(same && out == 0 && w.refs == 1 + m.kept);
    // the first wait ends and the second begins in the same poll
    bool fin = k.poll();
    VP_CHECK(f.Poll(&w, &out) == fin);
    if (!fin) {
      VP_CHECK(vp_live_heap() == heap + 2 && w.refs == 1 + k.kept);
      while (!k.poll()) same &= !f.Poll(&w, &out);
      same &= f.Poll(&w, &out);
    }
    VP_CHECK(same && out == mix(mix(mix(m.plan, x), k.plan), y));
    VP_CHECK(w.refs == 1 && w.wakes == m.wakes + k.wakes);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(slices) {
  u32 p = short_plan(); u32 a[3] = {A<u32>(), A<u32>(), A<u32>()}; size_t n = vp_pick(4);
  u64 h = n;
  for (size_t i = 0; i < n; ++i) h = mix(h, a[i]);
  VP_CHECK(value(fut::sum(rs_std::SliceRef<const u32>(a, n), p), p) == h);
}
// A future that is dropped early gives back what it holds, its wakers too.
H(dropped) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>(), y = A<u32>(); u32 polls = vp_pick(6);
  Counted w;
  Sim m{p};
  {
    auto f = fut::owned(Own::make(x), p);
    u32 before = vp_live_heap() - heap;
    VP_CHECK(before == 2);
    Out<Own> out;
    bool same = true;
    for (u32 i = 0; i < polls; ++i) {
      if (m.poll()) {
        same &= f.Poll(&w, out.p());
        same &= out.p()->get() == x + (x ^ 1);
        out.p()->~Own();
        break;
      }
      same &= !f.Poll(&w, out.p()) && out.untouched();
    }
    VP_CHECK(same);
  }
  VP_CHECK(vp_live_heap() == heap);
  VP_CHECK(w.refs == 1 && w.wakes == m.wakes);
}
// A future may be moved before and between polls; the moved-from one holds nothing and never finishes.
H(moved) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>();
  {
    DynErasedFuture<Own> f = fut::pass(Own::make(x), p);
    DynErasedFuture<Own> g = std::move(f);
    Counted w;
    Sim m{p};
    Out<Own> out;
    if (!m.poll()) {
      bool pend = !g.Poll(&w, out.p());
      VP_CHECK(pend && out.untouched());
      DynErasedFuture<Own> h(std::move(g));
      VP_CHECK(!g.Poll(&w, out.p()));
      bool same = true, fin = false;
      while (!fin) { fin = m.poll(); same &= h.Poll(&w, out.p()) == fin; }
      VP_CHECK(same && out.p()->get() == x);
    } else {
      bool ok = g.Poll(&w, out.p());
      VP_CHECK(ok && out.p()->get() == x);
    }
    out.p()->~Own();
    Out<Own> none;
    VP_CHECK(!f.Poll(&w, none.p()) && none.untouched());
    VP_CHECK(w.refs == 1 && w.wakes == m.wakes);
  }
  VP_CHECK(vp_live_heap() == heap);
}
// Wakers whose clones are separate objects: each clone is used or destroyed exactly once.
H(clones) {
  int heap = vp_live_heap();
  u32 p = any_plan(), x = A<u32>(); u64 y = A<u64>(); u32 polls = vp_pick(6);
  Split w(nullptr);
  Sim m{p};
  {
    auto f = fut::value(x, y, p);
    u64 out = 77;
    bool same = true;
    for (u32 i = 0; i < polls; ++i) {
      bool fin = m.poll();
      same &= f.Poll(&w, &out) == fin;
      same &= w.wakes == m.wakes;
      if (fin) { same &= out == mix(mix(1, x), y); break; }
      same &= out == 77 && w.clones == m.kept;
    }
    VP_CHECK(same);
  }
  VP_CHECK(w.clones == 0 && w.wakes == m.wakes);
  VP_CHECK(vp_live_heap() == heap);
}
// Each poll uses the waker it was given.
H(wakers) {
  u32 x = A<u32>(); u64 y = A<u64>();
  Counted a, b;
  {
    auto f = fut::value(x, y, 52342);
    u64 out = 0;
    VP_CHECK(!f.Poll(&a, &out) && a.wakes == 1 && a.refs == 1);
    VP_CHECK(!f.Poll(&b, &out) && b.wakes == 1 && b.refs == 1);
    VP_CHECK(!f.Poll(&a, &out) && a.wakes == 1 && a.refs == 2);
    VP_CHECK(!f.Poll(&b, &out) && b.wakes == 2 && b.refs == 1 && a.wakes == 1);
    VP_CHECK(!f.Poll(&b, &out) && a.wakes == 2 && a.refs == 1 && b.wakes == 2);
    VP_CHECK(f.Poll(&b, &out) && out == mix(mix(1, x), y));
  }
  VP_CHECK(a.refs == 1 && b.refs == 1);
}
