// rs::Movable and crubit::Slot over classes that own memory: copyable, move-only, only relocatable, relocatable and copyable,
// and copyable but not assignable.
#include "vp.h"
#include <array>
#include <cstring>
#include <type_traits>
#include <utility>
#include "support/internal/slot.h"
#include "support/movable.h"
typedef uint8_t u8; typedef uint32_t u32;
template <class T> static T A() { return vp_any<T>(); }
using crubit::Slot; using crubit::UnsafeRelocateTag; using rs::Movable;
[[gnu::noinline]] static u32* cell(u32 v) { return new u32(v); }
[[gnu::noinline]] static void drop(u32* p) { delete p; }
static int copies, relocs;
// What a C++ move leaves behind: an empty value, which reads as 0.
struct Cp {
  u32* p; u8 pad = 0;
  Cp() : p(cell(77)) {}
  explicit Cp(u32 v) : p(cell(v)) {}
  Cp(u32 a, u32 b) : p(cell(a ^ b)) {}
  Cp(const Cp& o) : p(o.p ? cell(*o.p) : nullptr) { ++copies; }
  Cp(Cp&& o) noexcept : p(o.p) { o.p = nullptr; }
  Cp& operator=(const Cp& o) { u32* n = o.p ? cell(*o.p) : nullptr; drop(p); p = n; ++copies; return *this; }
  Cp& operator=(Cp&& o) noexcept { std::swap(p, o.p); return *this; }
  ~Cp() { drop(p); }
  u32 val() const { return p ? *p : 0; }
  void set(u32 v) { drop(p); p = cell(v); }
};
struct Mo {
  u32* p;
  explicit Mo(u32 v) : p(cell(v)) {}
  Mo(u32 a, u32 b) : p(cell(a ^ b)) {}
  Mo(Mo&& o) noexcept : p(o.p) { o.p = nullptr; }
  Mo& operator=(Mo&& o) noexcept { drop(p); p = o.p; o.p = nullptr; return *this; }
  ~Mo() { drop(p); }
  u32 val() const { return p ? *p : 0; }
  void set(u32 v) { drop(p); p = cell(v); }
};
// A Rust type without Default or Clone.
struct Re {
  u32* p; u8 tail;
  explicit Re(u32 v) : p(cell(v)), tail(u8(v)) {}
  Re(u32 a, u32 b) : Re(a ^ b) {}
  Re(Re&&) = delete;
  Re& operator=(Re&&) = delete;
  Re(UnsafeRelocateTag, Re&& o) { std::memcpy(static_cast<void*>(this), &o, sizeof o); ++relocs; }
  ~Re() { drop(p); }
  u32 val() const { return u8(*p) == tail ? *p : ~*p; }
  void set(u32 v) { *p = v; tail = u8(v); }
};
// A Rust type with Clone.
struct Rc {
  u32* p;
  explicit Rc(u32 v) : p(cell(v)) {}
  Rc(u32 a, u32 b) : Rc(a ^ b) {}
  Rc(const Rc& o) : p(cell(*o.p)) { ++copies; }
  Rc& operator=(const Rc& o) { if (this != &o) *p = *o.p; ++copies; return *this; }
  Rc(UnsafeRelocateTag, Rc&& o) { std::memcpy(static_cast<void*>(this), &o, sizeof o); ++relocs; }
  ~Rc() { drop(p); }
  u32 val() const { return *p; }
  void set(u32 v) { *p = v; }
};
struct Na {
  u32* const p;
  explicit Na(u32 v) : p(cell(v)) {}
  Na(u32 a, u32 b) : Na(a ^ b) {}
  Na(const Na& o) : p(cell(*o.p)) { ++copies; }
  ~Na() { drop(p); }
  u32 val() const { return *p; }
  void set(u32 v) { *p = v; }
};
template <class T> constexpr bool reloc = std::is_same_v<T, Re> || std::is_same_v<T, Rc>;
template <class T> constexpr bool same_after = std::is_same_v<T, Rc> || std::is_same_v<T, Na>;  // a move is a copy
template <class T, bool copy, bool assign, bool from_value> static constexpr bool shape() {
  typedef Movable<T> M;
  return std::is_nothrow_move_constructible_v<M> && std::is_nothrow_move_assignable_v<M> && std::is_copy_constructible_v<M> == copy &&
    std::is_copy_assignable_v<M> == assign && std::is_constructible_v<M, T> == from_value && std::is_constructible_v<M, std::in_place_t, u32, u32> &&
    !std::is_convertible_v<T, M> && std::is_default_constructible_v<M> == std::is_default_constructible_v<T>;
}
static_assert(shape<Cp, true, true, true>() && shape<Mo, false, false, true>() && shape<Re, false, false, false>() && shape<Rc, true, true, true>() && shape<Na, true, false, true>());

// What a Movable should hold.
struct Model { bool full; u32 v; };
template <class T> static bool agrees(const Movable<T>& m, const Model& x) {
  return m.valueless_after_move() == !x.full && bool(m) == x.full && (!x.full || ((*m).val() == x.v && m->val() == x.v));
}
template <class T> static Slot<T>&& fill(Slot<T>& s, u32 v) { new (s.Get()) T(v); return std::move(s); }
template <class T> static bool step(Movable<T>* m, Model* x) {
  typedef Movable<T> M;
  int i = vp_pick(2), j = !i;
  int c = copies, r = relocs;
  bool ok = true;
  switch (vp_pick(10)) {
    case 0:  // move assignment
      m[i] = std::move(m[j]);
      ok = copies == c + (std::is_same_v<T, Na> && x[j].full) && relocs == r + (reloc<T> && x[j].full);
      x[i] = x[j]; x[j].full = false;
      return ok;
    case 1: { M* p = &m[i]; *p = std::move(m[i]); return copies == c && relocs == r; }
    case 2: {  // move construction
      M t(std::move(m[i]));
      ok = agrees(t, x[i]) && !m[i] && copies == c + (std::is_same_v<T, Na> && x[i].full);
      if (vp_pick(2)) m[j] = std::move(t), x[j] = x[i];
      x[i].full = false;
      return ok;
    }
    case 3:
      if constexpr (std::is_copy_constructible_v<M>) {
        M t(m[i]);
        ok = agrees(t, x[i]) && copies == c + x[i].full;
        if (t) { t->set(5); ok &= (*t).val() == 5; }
      }
      return ok;
    case 4:
      if constexpr (std::is_copy_assignable_v<M>) {
        m[i] = m[j];
        ok = copies == c + x[j].full;
        x[i] = x[j];
      }
      return ok;
    case 5:
      if constexpr (std::is_copy_assignable_v<M>) { const M& s = m[i]; m[i] = s; }
      return ok;
    case 6: { u32 a = A<u32>(), b = A<u32>(); m[i] = M(std::in_place, a, b); x[i] = {true, a ^ b}; return true; }
    case 7: {  // out of a Slot that Rust filled
      u32 v = A<u32>();
      Slot<T> s;
      m[i] = M::TakeFromSlot(fill(s, v));
      x[i] = {true, v};
      return true;
    }
    case 8:  // write through the wrapper, or move the value out of it
      if (!x[i].full) return true;
      if constexpr (std::is_move_constructible_v<T>) {
        if (vp_pick(2)) {
          T t(*std::move(m[i]));
          ok = t.val() == x[i].v;
          if (!same_after<T>) x[i].v = 0;
          return ok;
        }
      }
      x[i].v = A<u32>();
      if (vp_pick(2)) (*m[i]).set(x[i].v); else m[i]->set(x[i].v);
      return true;
    default:
      if constexpr (std::is_move_constructible_v<T>) {
        u32 v = A<u32>();
        T t(v);
        if (vp_pick(2)) { m[i] = M(std::move(t)); ok = t.val() == (same_after<T> ? v : 0); }
        else if constexpr (std::is_copy_constructible_v<T>) { m[i] = M(static_cast<const T&>(t)); ok = t.val() == v; }
        else m[i] = M(T(v));
        x[i] = {true, v};
      }
      return ok;
  }
}
template <class T> static bool history(int n) {
  int heap = vp_live_heap();
  bool ok = true;
  {
    u32 a = A<u32>(), b = A<u32>();
    Movable<T> m[2] = {Movable<T>(std::in_place, a), Movable<T>(std::in_place, b, 3u)};
    Model x[2] = {{true, a}, {true, b ^ 3}};
    for (int k = 0; k < n; ++k) {
      ok &= step(m, x) && agrees(m[0], x[0]) && agrees(m[1], x[1]);
      if constexpr (reloc<T> || std::is_same_v<T, Na>) ok &= vp_live_heap() == heap + x[0].full + x[1].full;
    }
  }
  return ok && vp_live_heap() == heap;
}
#define KIND(T) H(T) { VP_CHECK(history<T>(3)); } \
  H(t_##T) { VP_CHECK(history<T>(4)); }
KIND(Cp)
KIND(Mo)
KIND(Re)
KIND(Rc)
KIND(Na)
H(default_made) {
  int heap = vp_live_heap();
  u32 v = A<u32>();
  {
    Movable<Cp> m, n(std::move(m));
    VP_CHECK(!m && n && n->val() == 77);
    m = std::move(n);
    VP_CHECK(m && m->val() == 77 && !n && n.valueless_after_move());
    *m = Cp(v);
    const Movable<Cp>& c = m;
    VP_CHECK((*c).val() == v && &*c == &*m && c.operator->() == &*m);
    static_assert(std::is_same_v<decltype(*std::declval<Movable<Cp>>()), Cp&&> && std::is_same_v<decltype(*std::declval<const Movable<Cp>>()), const Cp&&> &&
                  std::is_same_v<decltype(*std::declval<Movable<Cp>&>()), Cp&> && std::is_same_v<decltype(*std::declval<const Movable<Cp>&>()), const Cp&>);
  }
  VP_CHECK(vp_live_heap() == heap);
}
// A Slot: unset, it does nothing; set, it gives its value once, by relocation if there is one.
template <class T> static bool slots() {
  int heap = vp_live_heap();
  u32 v = A<u32>();
  bool ok = true;
  switch (vp_pick(4)) {
    case 0: { Slot<T> s; ok &= (void*)s.Get() >= (void*)&s && (char*)(s.Get() + 1) <= (char*)(&s + 1); break; }
    case 1: {
      Slot<T> s;
      int c = copies, r = relocs;
      T t = fill(s, v).AssumeInitAndTakeValue();
      ok = t.val() == v && relocs == r + reloc<T> && copies == c + std::is_same_v<T, Na> && vp_live_heap() == heap + 1;
      break;
    }
    case 2: {
      Slot<T> s;
      for (int i = 0; i < 2; ++i) {
        T t = fill(s, v + i).AssumeInitAndTakeValue();
        ok &= t.val() == v + i;
      }
      break;
    }
    default:
      if constexpr (std::is_move_constructible_v<T>) {
        T x(v);
        Slot<T> s(std::move(x));
        T t = std::move(s).AssumeInitAndTakeValue();
        ok = t.val() == v && x.val() == (same_after<T> ? v : 0);
      }
  }
  return ok && vp_live_heap() == heap;
}
H(slots) { bool ok = false; switch (vp_pick(5)) { case 0: ok = slots<Cp>(); break; case 1: ok = slots<Mo>(); break; case 2: ok = slots<Re>(); break; case 3: ok = slots<Rc>(); break; default: ok = slots<Na>(); } VP_CHECK(ok); }
template <class T> static bool moved() {
  int heap = vp_live_heap();
  u32 v = A<u32>();
  bool ok;
  {
    Slot<T> s;
    Slot<T> d(fill(s, v));
    ok = s.Get()->val() == (same_after<T> ? v : 0);
    T t = std::move(d).AssumeInitAndTakeValue();
    ok &= t.val() == v;
    std::destroy_at(s.Get());
  }
  return ok && vp_live_heap() == heap;
}
H(slot_moved) { bool ok = false; switch (vp_pick(3)) { case 0: ok = moved<Cp>(); break; case 1: ok = moved<Mo>(); break; default: ok = moved<Rc>(); } VP_CHECK(ok); }
template <class T> static bool arrays() {
  int heap = vp_live_heap();
  u32 v = A<u32>();
  typedef std::array<T, 3> Arr;
  bool ok = [&] {
    bool ok;
    Slot<Arr> s;
    for (u32 i = 0; i < 3; ++i) new ((void*)((T*)s.Get() + i)) T(v + i);
    int r = relocs;
    Arr t = std::move(s).AssumeInitAndTakeValue();
    ok = t[0].val() == v && t[1].val() == v + 1 && t[2].val() == v + 2 && relocs == r + 3 * reloc<T>;
    if constexpr (std::is_move_constructible_v<T>) {
      Slot<Arr> d(std::move(t));
      Arr u = std::move(d).AssumeInitAndTakeValue();
      u32 z = same_after<T> ? 1 : 0;
      if constexpr (!std::is_same_v<T, Na>) if (vp_pick(2)) {
        Slot<Arr> e(std::move(u)), f(std::move(e));
        ok &= (*e.Get())[2].val() == (same_after<T> ? v + 2 : 0);
        std::destroy_at(e.Get());
        Arr w = std::move(f).AssumeInitAndTakeValue();
        return ok && w[0].val() == v && w[1].val() == v + 1 && w[2].val() == v + 2;
      }
      ok &= u[0].val() == v && u[1].val() == v + 1 && u[2].val() == v + 2 && t[0].val() == z * v && t[1].val() == z * (v + 1) && t[2].val() == z * (v + 2);
    }
    return ok;
  }();
  return ok && vp_live_heap() == heap;
}
H(slot_arrays) { bool ok = false; switch (vp_pick(5)) { case 0: ok = arrays<Cp>(); break; case 1: ok = arrays<Mo>(); break; case 2: ok = arrays<Re>(); break; case 3: ok = arrays<Rc>(); break; default: ok = arrays<Na>(); } VP_CHECK(ok); }
