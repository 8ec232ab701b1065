#include <memory>
#include <optional>
#include <string>
#include <utility>
#include "vp.h"
#include "support/cc_std_impl/std_allocator.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
namespace sa = crubit_cc_std_internal::std_allocator;
static int died; static u32 last_died;
struct Base;
extern "C" {
[[gnu::noinline]] void* c27_new(size_t n, size_t a) { return sa::cpp_new(n, a); }
[[gnu::noinline]] void c27_delete(void* p, size_t n, size_t a) { sa::cpp_delete(p, n, a); }
sa::shared_weak_count* c27_emplace(sa::DynControlBlock* p, sa::DynControlBlock::DeleterFn d) { return sa::DynControlBlock::Emplace(p, d); }
void c27_dcb_dtor(sa::DynControlBlock* p) { p->~DynControlBlock(); }
void c27_ref(sa::shared_weak_count* p) { sa::shared_ptr_ref(p); }
void c27_unref(sa::shared_weak_count* p) { sa::shared_ptr_unref(p); }
size_t c27_use_count(const sa::shared_weak_count* p) { return sa::shared_ptr_use_count(p); }
[[gnu::noinline]] u32* c27_own_new(u32 v) { return new u32(v); }
[[gnu::noinline]] void c27_own_del(u32* p) { delete p; }
[[gnu::noinline]] void c27_died(u32 v) { died++; last_died = v; }
void c27_base_delete(Base* p);
u32 c27_base_id(const Base* p);
}
struct Own {
  u32* p; u8 k;
  Own(u32 v, u8 k) : p(c27_own_new(v)), k(k) {}
  Own(const Own&) = delete;
  ~Own() { c27_died(*p); c27_own_del(p); }
};
struct alignas(64) Big { Own o; u64 pad[3]; Big(u32 v) : o(v, 3), pad{5, 6, 7} {} };
struct Base { u32 id; Base(u32 i) : id(i) {} virtual ~Base() { died++; } virtual u32 get() const { return id; } };
struct Derived : Base { Own o; Derived(u32 i, u32 v) : Base(i), o(v, 1) {} u32 get() const override { return id + *o.p; } };
extern "C" {
void c27_base_delete(Base* p) { delete p; }
u32 c27_base_id(const Base* p) { return p->get(); }
}
static u64 kNone = u64(1) << 40;
template <class T> using U = std::unique_ptr<T>;
static u32 rd(const Own& o) { return *o.p; }
static u32 rd(const Big& o) { return *o.o.p; }
#define UNIQ(T, pre, MAKE) \
extern "C" { T* pre##_get(U<T>&); T* pre##_rel(U<T>&); void pre##_drop(U<T>*); void pre##_id(U<T>*, U<T>*); u64 pre##_read(U<T>&); void pre##_write(U<T>&, u32, bool); void pre##_mk(void*, u32); } \
static U<T> pre##_any(u32 v, int how) { \
  if (how == 0) return nullptr; \
  if (how == 1) return U<T>(new T MAKE); \
  U<T> u; pre##_mk(&u, v); return u; \
} \
H(pre##_unique) { \
  int heap = vp_live_heap(); died = 0; \
  u32 v = vp_any<u32>(), w = vp_any<u32>(); int how = vp_pick(3), what = vp_pick(6); \
  { \
    U<T> u = pre##_any(v, how); \
    T* raw = u.get(); \
    VP_CHECK(pre##_get(u) == raw && (raw == nullptr) == (how == 0)); \
    VP_CHECK(pre##_read(u) == (how ? v : kNone)); \
    VP_CHECK(died == 0); \
    if (what == 0) { pre##_drop(&u); VP_CHECK(u == nullptr && died == (how != 0)); } \
    else if (what == 1) { T* r = pre##_rel(u); VP_CHECK(r == raw && u == nullptr && died == 0); delete r; } \
    else if (what == 2) { alignas(U<T>) unsigned char b[sizeof(U<T>)]; pre##_id(&u, reinterpret_cast<U<T>*>(b)); U<T>& q = *reinterpret_cast<U<T>*>(b); VP_CHECK(u == nullptr && q.get() == raw && died == 0); if (vp_any<bool>()) pre##_drop(&q); else q.~U<T>(); } \
    else if (what == 3) { bool pin = vp_any<bool>(); pre##_write(u, w, pin); VP_CHECK(u.get() == raw && died == (how != 0) && (!how || rd(*u) == w)); } \
    else if (what == 4) { U<T> q = std::move(u); VP_CHECK(pre##_get(u) == nullptr && pre##_get(q) == raw); pre##_drop(&u); VP_CHECK(died == 0); } \
  } \
  VP_CHECK(died == (how ? 1 + (what == 3) : 0) && (!how || last_died == (what == 3 ? w : v))); \
  VP_CHECK(vp_live_heap() == heap); \
}
UNIQ(Own, own, (v, 3))
UNIQ(Big, big, (v))
extern "C" { void virt_drop(U<Base>*); u64 virt_use(U<Base>&); Base* virt_rel(U<Base>&); }
H(virtual_unique) {
  int heap = vp_live_heap(); died = 0;
  u32 v = vp_any<u32>(), i = vp_any<u32>(); int how = vp_pick(3), what = vp_pick(3);
  {
    U<Base> u(how == 0 ? nullptr : how == 1 ? new Base(i) : new Derived(i, v));
    VP_CHECK(virt_use(u) == (how == 0 ? kNone : how == 1 ? u32(i ^ 1) : u32((i ^ 1) + v)));
    VP_CHECK(died == 0);
    if (what == 0) { virt_drop(&u); VP_CHECK(u == nullptr && died == how); }
    if (what == 1) { Base* raw = u.get(); Base* r = virt_rel(u); VP_CHECK(r == raw && u == nullptr && died == 0); delete r; }
  }
  VP_CHECK(died == how);
  VP_CHECK(vp_live_heap() == heap);
}

// libc++'s shared_ptr and weak_ptr over libc++'s control block.
template <class T> struct SP {
  const T* ptr = nullptr; std::__shared_weak_count* c = nullptr;
  SP() {}
  SP(const SP& o) : ptr(o.ptr), c(o.c) { if (c) c->__add_shared(); }
  SP(SP&& o) : ptr(o.ptr), c(o.c) { o.ptr = nullptr; o.c = nullptr; }
  SP& operator=(SP o) { std::swap(ptr, o.ptr); std::swap(c, o.c); return *this; }
  ~SP() { if (c) c->__release_shared(); }
};
template <class T> struct WP {
  const T* ptr = nullptr; std::__shared_weak_count* c = nullptr;
  WP(const SP<T>& o) : ptr(o.ptr), c(o.c) { if (c) c->__add_weak(); }
  WP(const WP&) = delete;
  ~WP() { if (c) c->__release_weak(); }
  SP<T> lock() const { SP<T> r; r.c = c ? c->lock() : nullptr; if (r.c) r.ptr = ptr; return r; }
};
// What make_shared allocates in C++.
struct Emplaced final : std::__shared_weak_count {
  union { Own o; };
  Emplaced(u32 v, u8 k) : o(v, k) {}
  ~Emplaced() {}
  void __on_zero_shared() noexcept override { o.~Own(); }
  void __on_zero_shared_weak() noexcept override { delete this; }
};
extern "C" {
void sp_new(SP<Own>*, u32, u8); void sp_box(SP<Own>*, u32, u8); void sp_pin(SP<Own>*, u32, u8); void sp_arc(SP<Own>*, u32, u8); void sp_del(SP<Own>*, u32, u8);
void sp_del_null(SP<Own>*, u32);
void sp_clone(SP<Own>&, SP<Own>*); void sp_drop(SP<Own>*); void sp_move(SP<Own>&, SP<Own>*); void sp_into(SP<Own>*, SP<Own>*);
void sp_project(SP<Own>*, SP<u8>*); u64 sp_part(SP<u8>&); void sp_part_drop(SP<u8>*);
u64 sp_read(SP<Own>&); size_t sp_count(SP<Own>&); bool sp_same(SP<Own>&, SP<Own>&); bool sp_same_part(SP<Own>&, SP<u8>&);
}
static void make(SP<Own>* q, int how, u32 v, u8 k) {
  switch (how) {
    case 0: { Emplaced* e = new Emplaced(v, k); q->ptr = &e->o; q->c = e; break; }
    case 1: sp_new(q, v, k); break;
    case 2: sp_box(q, v, k); break;
    case 3: sp_pin(q, v, k); break;
    case 4: sp_arc(q, v, k); break;
    case 5: sp_del(q, v, k); break;
  }
}
// A history of `steps` operations of both languages on three handles, with or without a weak reference.
template <int how> static void history(int steps) {
  int heap = vp_live_heap(); died = 0;
  u32 v = vp_any<u32>(); u8 k = vp_any<u8>();
  bool weak = vp_any<bool>();
  {
    SP<Own> h[3];
    bool live[3] = {true, false, false};
    make(&h[0], how, v, k);
    std::unique_ptr<WP<Own>> w(weak ? new WP<Own>(h[0]) : nullptr);
    const Own* at = h[0].ptr;
    vp_assert(at && sp_read(h[0]) == v && at->k == k && sp_count(h[0]) == 1, 1);
    for (int s = 0; s < steps; s++) {
      int op = vp_pick(6), i = s ? vp_pick(2) : 0;
      if (s == 2 && i == 1) i = 2;
      int j = (i + 1) % 3;
      if (op == 0) { sp_drop(&h[j]); new (&h[j]) SP<Own>(); sp_clone(h[i], &h[j]); live[j] = live[i]; }
      else if (op == 1) { h[j] = h[i]; live[j] = live[i]; }
      else if (op == 2) { sp_drop(&h[i]); live[i] = false; }
      else if (op == 3) { h[i] = SP<Own>(); live[i] = false; }
      else if (op == 4) { SP<Own> t; if (k & 1) sp_move(h[i], &t); else sp_into(&h[i], &t); live[j] = live[i]; live[i] = false; h[j] = std::move(t); }
      else { bool had = live[0] || live[1] || live[2]; if (w) { h[j] = w->lock(); live[j] = had; } }
      int n = live[0] + live[1] + live[2];
      vp_assert(died == (n == 0), 2);
      for (int t = 0; t < 3; t++) {
        vp_assert(h[t].ptr == (live[t] ? at : nullptr), 3);
        vp_assert(sp_read(h[t]) == (live[t] ? v : kNone), 4);
        vp_assert(sp_count(h[t]) == (live[t] ? n : 0), 5);
      }
      vp_assert(sp_same(h[0], h[1]) == (live[0] == live[1]), 6);
    }
  }
  vp_assert(died == 1 && last_died == v, 7);
  vp_assert(vp_live_heap() == heap, 8);
}
#define HIST(N, name) H(shared_##name) { history<N>(2); } H(t_shared_##name) { history<N>(3); }
HIST(0, from_cpp) HIST(1, new) HIST(2, box) HIST(3, pinned_box) HIST(4, arc) HIST(5, deleter)
// A handle on a part keeps the whole alive.
H(shared_part) {
  int heap = vp_live_heap(); died = 0;
  u32 v = vp_any<u32>(); u8 k = vp_any<u8>(); int how = vp_pick(6); bool second = vp_any<bool>(), rust = vp_any<bool>();
  {
    SP<Own> a, b; SP<u8> p;
    make(&a, how, v, k);
    if (second) sp_clone(a, &b);
    const u8* at = &a.ptr->k;
    sp_project(&a, &p);
    VP_CHECK(a.ptr == nullptr && a.c == nullptr && p.ptr == at && *p.ptr == k && sp_part(p) == k);
    VP_CHECK(sp_same_part(b, p) == second);
    b = SP<Own>();
    VP_CHECK(died == 0 && *p.ptr == k);
    if (rust) { sp_part_drop(&p); new (&p) SP<u8>(); VP_CHECK(died == 1); }
  }
  VP_CHECK(died == 1 && last_died == v);
  VP_CHECK(vp_live_heap() == heap);
}
H(shared_null) {
  int heap = vp_live_heap(); died = 0;
  {
    SP<Own> a, b; SP<u8> p;
    VP_CHECK(sp_read(a) == kNone && sp_count(a) == 0);
    sp_clone(a, &b); sp_drop(&a); sp_project(&b, &p);
    VP_CHECK(p.ptr == nullptr && p.c == nullptr && sp_part(p) == kNone);
  }
  VP_CHECK(died == 0 && vp_live_heap() == heap);
}
// A null pointer with a deleter: the deleter still runs once, when the last owner goes.
H(shared_null_deleter) {
  int heap = vp_live_heap(); died = 0;
  u32 v = vp_any<u32>(); bool rust = vp_any<bool>();
  {
    SP<Own> a, b;
    sp_del_null(&a, v);
    VP_CHECK(a.ptr == nullptr && sp_read(a) == kNone && sp_count(a) == 1);
    sp_clone(a, &b);
    VP_CHECK(sp_count(a) == 2);
    if (rust) sp_drop(&a); else a = SP<Own>();
    VP_CHECK(died == 0);
  }
  VP_CHECK(died == 1 && last_died == v);
  VP_CHECK(vp_live_heap() == heap);
}
extern "C" { void opt_drop(void*); void opt_move(const void*, void*); size_t opt_size(); size_t opt_size8(); }
H(optional) {
  int heap = vp_live_heap(); died = 0;
  u32 v = vp_any<u32>(); bool some = vp_any<bool>(); int what = vp_pick(3);
  typedef std::optional<Own> O;
  VP_CHECK(opt_size() == sizeof(O) * 64 + alignof(O) && opt_size8() == sizeof(std::optional<u8>) * 64 + 1);
  alignas(O) unsigned char a[sizeof(O)], b[sizeof(O)];
  O* o = new (a) O();
  if (some) o->emplace(v, 9);
  if (what == 0) opt_drop(a);
  else if (what == 1) o->~O();
  else { opt_move(a, b); VP_CHECK(reinterpret_cast<O*>(b)->has_value() == some && (!some || *reinterpret_cast<O*>(b)->value().p == v)); VP_CHECK(died == 0); if (vp_any<bool>()) opt_drop(b); else reinterpret_cast<O*>(b)->~O(); }
  VP_CHECK(died == some && vp_live_heap() == heap);
}
