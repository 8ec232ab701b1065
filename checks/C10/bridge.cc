#include <cstring>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include "vp.h"
#include "support/bridge.h"
using namespace crubit;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
template <class X> using T = TransmuteAbi<X>;
static u64 mx(u64 h, u64 x) { return ((h << 13) | (h >> 51)) + x; }
struct P { u8 a; u32 b; u16 c; };
// A move-only owner whose bytes may be relocated.
struct Own { u32* p; [[gnu::noinline]] Own(u32 v) : p(new u32(v)) {} Own(Own&& o) : p(o.p) { o.p = nullptr; } Own& operator=(Own&&) = delete; [[gnu::noinline]] ~Own() { delete p; } };
static u64 dg(u64 h, u8 x) { return mx(h, x); }
static u64 dg(u64 h, u16 x) { return mx(h, x); }
static u64 dg(u64 h, u32 x) { return mx(h, x); }
static u64 dg(u64 h, u64 x) { return mx(h, x); }
static u64 dg(u64 h, i64 x) { return mx(h, u64(x)); }
static u64 dg(u64 h, bool x) { return mx(h, x); }
static u64 dg(u64 h, double x) { return mx(h, __builtin_bit_cast(u64, x)); }
static u64 dg(u64 h, float x) { return mx(h, __builtin_bit_cast(u32, x)); }
static u64 dg(u64 h, const P& x) { return mx(mx(mx(h, x.a), x.b), x.c); }
static u64 dg(u64 h, const Own& x) { return mx(h, *x.p); }
static u64 dg(u64 h, std::tuple<>) { return mx(h, 0x55); }
template <class A> static u64 dg(u64 h, const std::optional<A>& x);
template <class A, class... B> static u64 dg(u64 h, const std::tuple<A, B...>& x);
template <class A, class B> static u64 dg(u64 h, const std::pair<A, B>& x) { return dg(dg(h, x.first), x.second); }
template <class A> static u64 dg(u64 h, const std::optional<A>& x) { return x ? dg(mx(h, 0x78), *x) : mx(h, 0x77); }
template <class A, class... B> static u64 dg(u64 h, const std::tuple<A, B...>& x) { std::apply([&](auto&... v) { ((h = dg(h, v)), ...); }, x); return h; }
// Arbitrary values.
template <class V> struct Gen { static V any() { if constexpr (std::is_same_v<V, double>) return __builtin_bit_cast(double, vp_any<u64>()); else if constexpr (std::is_same_v<V, float>) return __builtin_bit_cast(float, vp_any<u32>()); else return vp_any<V>(); } };
template <> struct Gen<P> { static P any() { return P{vp_any<u8>(), vp_any<u32>(), vp_any<u16>()}; } };
template <class A> struct Gen<std::optional<A>> { static std::optional<A> any() { if (vp_any<bool>()) return std::optional<A>(Gen<A>::any()); return std::nullopt; } };
template <class... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> any() { return std::tuple<A...>{Gen<A>::any()...}; } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> any() { return std::pair<A, B>{Gen<A>::any(), Gen<B>::any()}; } };
// The buffer is exactly as large as the ABI says, so that a byte too far is a memory error.
template <class Abi, size_t (*SZ)(), u64 (*DG)(const void*), void (*RT)(const void*, void*)> static void shape() {
  vp_assert(Abi::kSize == SZ(), 1);
  unsigned char* buf = static_cast<unsigned char*>(malloc(Abi::kSize + 1)); unsigned char* out = static_cast<unsigned char*>(malloc(Abi::kSize + 1));
  unsigned char guard = vp_any<u8>();
  buf[Abi::kSize] = out[Abi::kSize] = guard;
  auto v = Gen<typename Abi::Value>::any();
  u64 want = dg(0, v);
  internal::Encode(Abi(), buf, v);
  vp_assert(dg(0, internal::Decode(Abi(), buf)) == want, 2);
  vp_assert(DG(buf) == want, 3);
  RT(buf, out);
  vp_assert(dg(0, internal::Decode(Abi(), out)) == want, 4);
  vp_assert(buf[Abi::kSize] == guard && out[Abi::kSize] == guard, 5);
  free(buf); free(out);
}
#define S(N, ...) extern "C" { size_t sz##N(); u64 dg##N(const void*); void rt##N(const void*, void*); } \
  H(shape##N) { shape<__VA_ARGS__, sz##N, dg##N, rt##N>(); }
typedef TupleAbi<T<u8>, T<u32>, T<u16>> A1;
typedef TupleAbi<OptionAbi<TupleAbi<T<i64>, T<bool>>>, TupleAbi<T<u8>, T<float>>> A2;
typedef OptionAbi<OptionAbi<T<u8>>> A3;
typedef TupleAbi<T<u8>, OptionAbi<T<u64>>, OptionAbi<T<u16>>, T<P>, T<double>> A4;
typedef TupleAbi<T<u8>, T<u16>, T<u32>, T<u64>, T<bool>, T<i64>, T<double>, T<u8>, T<u8>, T<u16>, T<u32>, T<P>> A5;
typedef TupleAbi<OptionAbi<TupleAbi<T<u8>, OptionAbi<T<u16>>>>, T<u8>> A6;
typedef TupleAbi<> A7;
typedef OptionAbi<TupleAbi<>> A8;
typedef TupleAbi<T<u8>, TupleAbi<T<u16>, TupleAbi<T<u32>, TupleAbi<T<u8>>>>> A9;
typedef OptionAbi<TupleAbi<OptionAbi<T<u8>>, OptionAbi<OptionAbi<T<u32>>>, T<u8>>> A10;
S(0, T<u32>)
S(1, A1)
S(2, A2)
S(3, A3)
S(4, A4)
S(5, A5)
S(6, A6)
S(7, A7)
S(8, A8)
S(9, A9)
S(10, A10)
S(11, T<P>)
// std::pair is carried the same way as a Rust pair.
struct Pair1 : PairAbi<OptionAbi<TupleAbi<T<u8>, OptionAbi<T<u16>>>>, T<u8>> { Pair1() : PairAbi({}, {}) {} };
H(pair) { shape<Pair1, sz6, dg6, rt6>(); }
// Move-only owners: every value is owned by exactly one side at any time.
extern "C" { u64 own_dg(const void*); void own_rt(const void*, void*, bool); size_t own_sz(); size_t ptr_sz(); void ptr_swap(const void*, void*); }
typedef TupleAbi<T<Own>, T<u8>, OptionAbi<T<Own>>> AO;
H(owners) {
  int heap = vp_live_heap();
  u32 x = vp_any<u32>(), y = vp_any<u32>(); u8 k = vp_any<u8>(); bool some = vp_any<bool>(), swap = vp_any<bool>();
  unsigned char buf[AO::kSize], out[AO::kSize];
  VP_CHECK(AO::kSize == own_sz());
  {
    internal::Encode(AO(), buf, AO::Value(Own(x), k, some ? std::optional<Own>(Own(y)) : std::nullopt));
    VP_CHECK(vp_live_heap() == heap + 1 + some);
    VP_CHECK(own_dg(buf) == (some ? mx(mx(mx(mx(0, x), k), 0x78), y) : mx(mx(mx(0, x), k), 0x77)));
    own_rt(buf, out, swap);
    VP_CHECK(vp_live_heap() == heap + 1 + some);
    auto v = internal::Decode(AO(), out);
    VP_CHECK(vp_live_heap() == heap + 1 + some);
    bool s = some && swap;
    VP_CHECK(*std::get<0>(v).p == (s ? y : x) && std::get<1>(v) == k && std::get<2>(v).has_value() == some && (!some || *std::get<2>(v)->p == (s ? x : y)));
  }
  VP_CHECK(vp_live_heap() == heap);
}
typedef PairAbi<T<Own>, OptionAbi<T<Own>>> AOP;
H(owner_pair) {
  int heap = vp_live_heap();
  u32 x = vp_any<u32>(), y = vp_any<u32>(); bool some = vp_any<bool>();
  unsigned char buf[AOP::kSize];
  {
    internal::Encode(AOP({}, {}), buf, AOP::Value(Own(x), some ? std::optional<Own>(Own(y)) : std::nullopt));
    auto v = internal::Decode(AOP({}, {}), buf);
    VP_CHECK(vp_live_heap() == heap + 1 + some);
    VP_CHECK(*v.first.p == x && v.second.has_value() == some && (!some || *v.second->p == y));
  }
  VP_CHECK(vp_live_heap() == heap);
}
// Boxed values travel as one pointer and come back as the same value, freed once.
struct Big { u64 a; Own o; u8 t; };
typedef TupleAbi<BoxedAbi<Big>, OptionAbi<BoxedAbi<Big>>> AB;
H(boxed) {
  int heap = vp_live_heap();
  u64 a = vp_any<u64>(), b = vp_any<u64>(); u32 x = vp_any<u32>(), y = vp_any<u32>(); u8 t = vp_any<u8>(); bool some = vp_any<bool>();
  unsigned char buf[AB::kSize], out[AB::kSize];
  VP_CHECK(AB::kSize == ptr_sz());
  {
    std::optional<Big> o;
    if (some) o.emplace(Big{b, Own(y), 3});
    internal::Encode(AB(), buf, AB::Value(Big{a, Own(x), t}, std::move(o)));
    VP_CHECK(vp_live_heap() == heap + 2 + 2 * some);
    ptr_swap(buf, out);
    auto v = internal::Decode(AB(), out);
    VP_CHECK(vp_live_heap() == heap + 1 + some);
    Big& f = some ? *std::get<1>(v) : std::get<0>(v);
    VP_CHECK(f.a == a && *f.o.p == x && f.t == t && std::get<1>(v).has_value() == some);
    if (some) VP_CHECK(std::get<0>(v).a == b && *std::get<0>(v).o.p == y && std::get<0>(v).t == 3);
  }
  VP_CHECK(vp_live_heap() == heap);
}
// Every value made while encoding and decoding is destroyed once, the moved-from ones too.
static int alive, moves;
struct Tally {
  explicit Tally(u32 v) : v(v) { ++alive; }
  Tally(Tally&& o) noexcept : v(o.v) { o.v = 0; ++alive; ++moves; }
  Tally& operator=(Tally&& o) { v = o.v; return *this; }
  ~Tally() { --alive; }
  u32 v;
};
typedef TupleAbi<BoxedAbi<Tally>, OptionAbi<BoxedAbi<Tally>>, T<u8>> AT;
H(tally) {
  alive = 0;
  int heap = vp_live_heap();
  u32 x = vp_any<u32>(), y = vp_any<u32>(); u8 k = vp_any<u8>(); bool some = vp_any<bool>();
  unsigned char buf[AT::kSize];
  {
    std::optional<Tally> o;
    if (some) o.emplace(y);
    internal::Encode(AT(), buf, AT::Value(Tally(x), std::move(o), k));
  }
  VP_CHECK(alive == 1 + some && vp_live_heap() == heap + 1 + some);
  {
    auto v = internal::Decode(AT(), buf);
    VP_CHECK(alive == 1 + some && vp_live_heap() == heap);
    VP_CHECK(std::get<0>(v).v == x && std::get<1>(v).has_value() == some && (!some || std::get<1>(v)->v == y) && std::get<2>(v) == k);
  }
  VP_CHECK(alive == 0);
}
