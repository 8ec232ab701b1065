#include <array>
#include <cstdint>
#include <tuple>
#include <utility>
#include "vp.h"
#include "support/internal/check_no_mutable_aliasing.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"

using crubit::internal::AsMutPtrDatas;
using crubit::internal::AsPtrDatas;
using crubit::internal::CheckNoMutableAliasing;
using crubit::internal::HasMutableAliasing;
using rs_std::SliceRef;

namespace {
struct R { uint64_t s, e; };            // the bytes a reference covers: [s, e)
// Branch-free, so that the reference model adds no paths.
unsigned meets(R a, R b) {
  return unsigned(a.s < a.e) & unsigned(b.s < b.e) & unsigned(a.s < b.e) & unsigned(b.s < a.e);
}

// A mutable (or shared) slice of bytes anywhere in the lower half of the address space; may be empty.
template <typename T, int Bits = 62>
SliceRef<T> any_slice(R& r) {
  uint64_t p = vp_any<uint64_t>(), n = vp_any<uint64_t>();
  vp_assume(unsigned(p >= 1) & unsigned(p < (1ull << Bits)) & unsigned(n < (1ull << Bits) / sizeof(T)) &
            unsigned(p % alignof(T) == 0));
  r = {p, p + n * sizeof(T)};
  return SliceRef<T>(reinterpret_cast<T*>(p), n);
}

template <typename T, size_t M, size_t N, int Bits, size_t... I, size_t... J>
void grid(std::index_sequence<I...>, std::index_sequence<J...>) {
  R m[M + 1], c[N + 1];
  std::array<SliceRef<T>, M> ms;
  std::array<SliceRef<const T>, N> cs;
  for (size_t i = 0; i < M; ++i) ms[i] = any_slice<T, Bits>(m[i]);
  for (size_t i = 0; i < N; ++i) cs[i] = any_slice<const T, Bits>(c[i]);
  unsigned want = 0;
  for (size_t i = 0; i < M; ++i) {
    for (size_t j = i + 1; j < M; ++j) want |= meets(m[i], m[j]);
    for (size_t j = 0; j < N; ++j) want |= meets(m[i], c[j]);
  }
  auto mk = [&] { return AsMutPtrDatas<std::enable_if_t<(I, true), SliceRef<T>>...>(ms[I]...); };
  auto ck = [&] { return AsPtrDatas<std::enable_if_t<(J, true), SliceRef<const T>>...>(cs[J]...); };
  bool got = HasMutableAliasing(mk(), ck());
  vp_out(got);
  vp_assert(got == (want != 0), 800);
  vp_expect_abort(got);
  CheckNoMutableAliasing(mk(), ck());
  vp_assert(!got, 801);
}
template <typename T, size_t M, size_t N, int Bits = 62>
void grid() { grid<T, M, N, Bits>(std::make_index_sequence<M>{}, std::make_index_sequence<N>{}); }

struct Big { uint64_t a, b, c; };
}  // namespace

#define G(m, n) H(bytes_##m##_##n) { grid<uint8_t, m, n>(); }
#define S(m, n) H(small_##m##_##n) { grid<uint8_t, m, n, 7>(); }
#define T(m, n) H(t_bytes_##m##_##n) { grid<uint8_t, m, n>(); }
G(1, 0) G(1, 1) G(1, 2) S(1, 3) T(1, 3)
G(2, 0) G(2, 1) G(2, 2) G(2, 3)
G(3, 0) G(3, 1) G(3, 2) G(3, 3)
G(0, 2) G(0, 4) G(4, 0)
S(1, 4) S(2, 4) S(4, 1) S(5, 0)
T(1, 4) T(2, 4) T(4, 1) T(4, 2) T(5, 0) T(3, 4) T(4, 3) T(1, 5)
H(wide_2_1) { grid<uint32_t, 2, 1>(); }

// Scalar references, pointers, strings and slices of different element sizes in one call.
H(mixed_kinds) {
  uint64_t p = vp_any<uint64_t>(), q = vp_any<uint64_t>(), s = vp_any<uint64_t>(), n = vp_any<uint64_t>();
  vp_assume(p >= 8 && p < (1ull << 62) && p % 8 == 0 && q >= 4 && q < (1ull << 62) && q % 4 == 0);
  vp_assume(s >= 1 && s < (1ull << 62) && n < (1ull << 62));
  Big* pb = reinterpret_cast<Big*>(p);
  int& qi = *reinterpret_cast<int*>(q);
  rs_std::StrRef str = rs_std::StrRef::FromUtf8Unchecked(std::string_view(reinterpret_cast<const char*>(s), n));
  R a{p, p + sizeof(Big)}, b{q, q + sizeof(int)}, c{s, s + n};
  unsigned want = meets(a, b) | meets(a, c) | meets(b, c);
  bool got = HasMutableAliasing(AsMutPtrDatas<Big*, int&>(pb, qi), AsPtrDatas<rs_std::StrRef>(str));
  vp_out(got);
  VP_CHECK(got == (want != 0));
}
H(pointer_and_const_reference) {
  uint64_t p = vp_any<uint64_t>(), q = vp_any<uint64_t>(), r = vp_any<uint64_t>();
  vp_assume(p >= 8 && p < (1ull << 62) && p % 8 == 0 && q >= 8 && q < (1ull << 62) && q % 8 == 0);
  vp_assume(r >= 2 && r < (1ull << 62) && r % 2 == 0);
  Big& pb = *reinterpret_cast<Big*>(p);
  const Big& qb = *reinterpret_cast<const Big*>(q);
  const short* rs = reinterpret_cast<const short*>(r);
  R a{p, p + sizeof(Big)}, b{q, q + sizeof(Big)}, c{r, r + 2};
  unsigned want = meets(a, b) | meets(a, c);
  bool got = HasMutableAliasing(AsMutPtrDatas<Big&>(pb), AsPtrDatas<const Big&, const short*>(qb, rs));
  vp_out(got);
  VP_CHECK(got == (want != 0));
  vp_expect_abort(got);
  CheckNoMutableAliasing(AsMutPtrDatas<Big&>(pb), AsPtrDatas<const Big&, const short*>(qb, rs));
  VP_CHECK(!got);
}
H(shared_only_never_aborts) {
  R a, b, c;
  auto x = any_slice<const uint16_t>(a), y = any_slice<const uint16_t>(b), z = any_slice<const uint16_t>(c);
  CheckNoMutableAliasing(AsMutPtrDatas<>(), AsPtrDatas<SliceRef<const uint16_t>, SliceRef<const uint16_t>,
                                                       SliceRef<const uint16_t>>(x, y, z));
  VP_CHECK(!HasMutableAliasing(AsMutPtrDatas<>(), AsPtrDatas<SliceRef<const uint16_t>>(x)));
}
// Real objects: element-level addresses taken from one allocation.
H(real_buffer) {
  static uint8_t buf[8];
  unsigned s0 = vp_pick(8), n0 = vp_pick(9), s1 = vp_pick(8), n1 = vp_pick(9);
  vp_assume(s0 + n0 <= 8 && s1 + n1 <= 8);
  SliceRef<uint8_t> a(buf + s0, n0);
  SliceRef<const uint8_t> b(buf + s1, n1);
  bool want = n0 && n1 && s0 < s1 + n1 && s1 < s0 + n0;
  vp_expect_abort(want);
  CheckNoMutableAliasing(AsMutPtrDatas<SliceRef<uint8_t>>(a), AsPtrDatas<SliceRef<const uint8_t>>(b));
  VP_CHECK(!want);
}
