#include <array>
#include <cstring>
#include <span>
#include <string>
#include <string_view>
#include <ranges>
#include <vector>
#include "vp.h"
#include "support/internal/check_no_mutable_aliasing.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"
using rs_std::SliceRef;
using rs_std::StrRef;
typedef uint8_t u8; typedef int16_t i16; typedef uint32_t u32; typedef uint64_t u64;
struct P { u8 a; u32 b; uint16_t c; bool operator==(const P&) const = default; };
static u64 w(u8 x) { return x; }
static u64 w(i16 x) { return uint16_t(x); }
static u64 w(u32 x) { return x; }
static u64 w(u64 x) { return x; }
static u64 w(const P& p) { return u64(p.a) << 48 ^ u64(p.b) << 16 ^ p.c; }
static u64 mx(u64 h, u64 x) { return ((h << 13) | (h >> 51)) + x; }
#define DECL(T, S) extern "C" { size_t len_##S(SliceRef<const T>); u64 fold_##S(SliceRef<const T>); u64 get_##S(SliceRef<const T>, size_t); \
  bool eq_##S(SliceRef<const T>, SliceRef<const T>); void rev_##S(SliceRef<T>); SliceRef<const T> tail_##S(SliceRef<const T>, size_t); \
  const T* raw_##S(SliceRef<const T>); SliceRef<T> head_##S(SliceRef<T>, size_t); } \
  struct R_##S { typedef T type; static constexpr auto len = len_##S; static constexpr auto fold = fold_##S; static constexpr auto get = get_##S; static constexpr auto eq = eq_##S; \
  static constexpr auto rev = rev_##S; static constexpr auto tail = tail_##S; static constexpr auto raw = raw_##S; static constexpr auto head = head_##S; };
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
DECL(u8, u8) DECL(i16, i16) DECL(u32, u32) DECL(u64, u64) DECL(P, p)
extern "C" { size_t str_len(StrRef); u64 str_fold(StrRef); const u8* str_raw(StrRef); int str_cmp(StrRef, StrRef); bool str_eq(StrRef, StrRef); StrRef str_tail(StrRef, size_t);
  int bytes_cmp(const char*, size_t, const char*, size_t); }
template <class T> static void fill(T* p, int n) { for (int i = 0; i < n; i++) p[i] = vp_any<T>(); }
template <class T> static u64 fold(const T* p, size_t n) { u64 h = 0; for (size_t i = 0; i < n; i++) h = mx(h, w(p[i])); return mx(h, n); }

// C++ memory seen by Rust: same address, length and elements, whichever way the slice was made.
template <class R, int N> static void to_rust() {
  typedef typename R::type T;
  T a[N + 1]; fill(a, N + 1);
  int n = vp_pick(N + 1);
  size_t i = vp_any<size_t>();
  vp_assume(i < 8);
  SliceRef<const T> s(a, n), t(std::span<const T>(a, n)), u{SliceRef<T>(a, n)}, v = std::span<T>(a, n);
  u64 f = fold(a, n);
  vp_assert(R::len(s) == size_t(n) && R::len(t) == size_t(n) && R::len(u) == size_t(n) && R::len(v) == size_t(n), 1);
  vp_assert(R::fold(s) == f && R::fold(t) == f && R::fold(u) == f && R::fold(v) == f, 2);
  vp_assert(R::get(s, i) == (i < size_t(n) ? w(a[i]) : ~0ull), 3);
  // A Rust slice is never null and always aligned, also when it is empty.
  vp_assert(R::raw(s) != nullptr && R::raw(t) != nullptr && R::raw(v) != nullptr && reinterpret_cast<uintptr_t>(R::raw(s)) % alignof(T) == 0, 4);
  if (n > 0) vp_assert(R::raw(s) == a && R::raw(t) == a && R::raw(u) == a && R::raw(v) == a, 5);
  vp_assert(s.size() == size_t(n) && (n == 0 || s.data() == a) && s.to_span().size() == size_t(n) && (n == 0 || s.to_span().data() == a), 6);
}
// Null and default slices.
template <class R> static void nulls() {
  typedef typename R::type T;
  size_t n = vp_any<size_t>();
  SliceRef<const T> s(nullptr, n), t, u(std::span<const T>{});
  SliceRef<T> m;
  vp_assert(R::len(s) == 0 && R::len(t) == 0 && R::len(u) == 0 && R::len(m) == 0, 10);
  vp_assert(R::raw(s) != nullptr && R::raw(t) != nullptr && R::raw(u) != nullptr && R::raw(m) != nullptr, 11);
  vp_assert(reinterpret_cast<uintptr_t>(R::raw(s)) % alignof(T) == 0 && reinterpret_cast<uintptr_t>(R::raw(m)) % alignof(T) == 0, 12);
  vp_assert(s.size() == 0 && t.size() == 0 && u.to_span().empty() && s.to_span().size() == 0, 13);
  R::rev(m);
  SliceRef<const T> r = R::tail(s, 1);
  vp_assert(r.size() == 0 && r == t && r == m, 14);
}
// Rust memory seen by C++, through shared and mutable slices.
template <class R, int N> static void from_rust() {
  typedef typename R::type T;
  T a[N], b[N]; fill(a, N); memcpy(b, a, sizeof a);
  int n = vp_pick(N + 1), k = vp_pick(N + 2);
  SliceRef<const T> t = R::tail(SliceRef<const T>(a, n), k);
  int m = k > n ? 0 : n - k;
  vp_assert(t.size() == size_t(m) && (m == 0 || t.data() == a + (n - m)), 20);
  SliceRef<T> h = R::head(SliceRef<T>(a, n), k);
  vp_assert(h.size() == size_t(m) && (m == 0 || h.data() == a), 21);
  R::rev(h);
  for (int i = 0; i < N; i++) vp_assert(w(a[i]) == w(b[i < m ? m - 1 - i : i]), 22);
  for (T& x : h.to_span()) x = b[0];
  vp_assert(R::fold(h) == [&] { u64 f = 0; for (int i = 0; i < m; i++) f = mx(f, w(b[0])); return mx(f, m); }(), 23);
}
// Equality is elementwise and agrees with Rust's, for every mix of const, mutable and converted operands.
template <class R, int N> static void equal() {
  typedef typename R::type T;
  T a[N], b[N]; fill(a, N); fill(b, N);
  int n = vp_pick(N + 1), m = vp_pick(N + 1);
  SliceRef<const T> ca(a, n), cb(b, m); SliceRef<T> ma(a, n), mb(b, m); std::span<T> sb(b, m);
  bool want = R::eq(ca, cb);
  bool e[] = {ca == cb, ca == mb, ma == cb, ma == mb, ca == sb, sb == ca, ma == sb, cb == ca, !(ca != cb), !(ca != mb), !(ma != cb), !(ma != mb), !(ca != sb), !(sb != ca)};
  vp_out(want);
  for (bool x : e) vp_assert(x == want, 30);
  vp_assert(ca == ca && ca == ma && ma == ca && (n == 0 || m != n || &a[0] != &b[0]), 31);
}
template <class R, int N> static void containers() {
  typedef typename R::type T;
  std::array<T, N> a; fill(a.data(), N);
  std::vector<T> v(a.begin(), a.end());
  const std::vector<T>& cv = v;
  SliceRef<const T> s1(a), s2 = v, s3 = cv; SliceRef<T> s4(v), s5(a);
  u64 f = fold(a.data(), N);
  vp_assert(R::fold(s1) == f && R::fold(s2) == f && R::fold(s3) == f && R::fold(s4) == f && R::fold(s5) == f, 40);
  vp_assert(s1.data() == a.data() && s2.data() == v.data() && s3.data() == v.data() && s4.data() == v.data() && s5.data() == a.data(), 41);
  vp_assert(s2 == v && v == s2 && s4 == a && a == s1 && !(s1 != v), 42);
  T x = vp_any<T>();
  v[N - 1] = x;
  vp_assert((s2 == a) == (w(x) == w(a[N - 1])), 43);
  std::span<const T> sp = s2; std::span<T> sm = s4;
  vp_assert(sp.data() == v.data() && sp.size() == N && sm.data() == v.data() && sm.size() == N, 44);
}
// Views: spans of every constness and extent, and ranges adaptors over an array, convert to the slice they view.
template <class R, int N> static void views() {
  typedef typename R::type T;
  T a[N]; fill(a, N);
  int n = vp_pick(N + 1);
  std::span<T> sm(a, n); std::span<T, N> sf(a); std::span<const T, N> sfc(a); std::span<const T> sc(a, n);
  std::ranges::subrange<T*> sub(a, a + n); std::ranges::ref_view<T[N]> ref(a);
  SliceRef<const T> s1 = sm, s2 = sf, s3 = sfc, s4 = sc, s5(sub), s6(ref);
  SliceRef<T> m1 = sm, m2 = sf, m3(sub), m4(ref);
  const std::span<T>& lv = sm; SliceRef<const T> s7 = lv, s8 = std::span<T>(a + (n > 0), n - (n > 0));
  u64 f = fold(a, n), g = fold(a, N);
  vp_assert(R::fold(s1) == f && R::fold(s4) == f && R::fold(s5) == f && R::fold(m1) == f && R::fold(m3) == f && R::fold(s7) == f, 60);
  vp_assert(R::fold(s2) == g && R::fold(s3) == g && R::fold(s6) == g && R::fold(m2) == g && R::fold(m4) == g, 61);
  vp_assert(R::fold(s8) == fold(a + (n > 0), n - (n > 0)), 62);
  vp_assert(s2.data() == a && s3.data() == a && s6.data() == a && m2.data() == a && m4.data() == a && (n == 0 || (s1.data() == a && s5.data() == a && m1.data() == a && m3.data() == a && s7.data() == a)), 63);
  T x = vp_any<T>();
  for (T& y : m2.to_span()) y = x;
  vp_assert(w(a[0]) == w(x) && w(a[N - 1]) == w(x), 64);
}
// The address range a slice contributes to the mutable-aliasing check.
template <class R> static void ptrdata() {
  typedef typename R::type T;
  using namespace crubit::internal;
  T a[4]; fill(a, 4);
  int n = vp_pick(5);
  PtrData c = AsPtrData(SliceRef<const T>(a, n)), m = AsMutPtrData(SliceRef<T>(a, n));
  uintptr_t p = reinterpret_cast<uintptr_t>(a);
  vp_assert(c.end - c.start == n * sizeof(T) && m.end - m.start == n * sizeof(T), 50);
  if (n) vp_assert(c.start == p && m.start == p, 51);
}
#define ALL(S) H(to_rust_##S) { to_rust<R_##S, 3>(); } \
  H(nulls_##S) { nulls<R_##S>(); } \
  H(from_rust_##S) { from_rust<R_##S, 4>(); } \
  H(equal_##S) { equal<R_##S, 3>(); } \
  H(containers_##S) { containers<R_##S, 3>(); } \
  H(views_##S) { views<R_##S, 3>(); } \
  H(ptrdata_##S) { ptrdata<R_##S>(); } \
  H(t_from_rust_##S) { from_rust<R_##S, 7>(); } \
  H(t_equal_##S) { equal<R_##S, 5>(); }
ALL(u8)
ALL(i16)
ALL(u32)
ALL(u64)
ALL(p)
static int sgn(int x) { return (x > 0) - (x < 0); }
template <class O> static int ord(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// &str over arbitrary ASCII content (well-formedness itself is C05's subject).
template <int N> static void str() {
  char a[N + 1], b[N + 1];
  vp_sym_bytes(a, N); vp_sym_bytes(b, N);
  for (int i = 0; i < N; i++) vp_assume((a[i] & 0x80) == 0 && (b[i] & 0x80) == 0 && b[i] != 0);
  int n = vp_pick(N + 1), m = vp_pick(N + 1), k = vp_pick(N + 2);
  b[m] = 0;
  StrRef s = StrRef::FromUtf8Unchecked(std::string_view(a, n)), t = *StrRef::FromUtf8(std::string_view(b, m));
  u64 f = 0;
  for (int i = 0; i < n; i++) f = mx(f, u8(a[i]));
  vp_assert(str_len(s) == size_t(n) && str_fold(s) == mx(f, n) && str_raw(s) != nullptr && (n == 0 || str_raw(s) == reinterpret_cast<u8*>(a)), 60);
  vp_assert(s.len() == size_t(n) && s.size() == size_t(n) && s.empty() == (n == 0) && (n == 0 || s.data() == a), 61);
  StrRef r = str_tail(s, k);
  int q = k > n ? 0 : n - k;
  vp_assert(r.size() == size_t(q) && (q == 0 || r.data() == a + (n - q)), 62);
  int c = str_cmp(s, t);
  std::string_view tv(b, m), sv = s;
  vp_assert(sv.size() == size_t(n) && (n == 0 || sv.data() == a) && s.to_string_view() == sv, 63);
  vp_assert(ord(s <=> t) == c && ord(s <=> tv) == c && ord(tv <=> s) == -c && ord(s <=> (const char*)b) == c && ord((const char*)b <=> s) == -c, 64);
  bool e = str_eq(s, t);
  vp_assert(e == (c == 0) && (s == t) == e && (s == tv) == e && (tv == s) == e && (s == (const char*)b) == e && ((const char*)b == s) == e, 65);
  vp_assert((s < t) == (c < 0) && (s <= t) == (c <= 0) && (s > t) == (c > 0) && (s >= t) == (c >= 0) && (s != t) == !e, 66);
}
H(str2) { str<2>(); }
H(str3) { str<3>(); }
H(t_str4) { str<4>(); }
// Comparison with arbitrary, not necessarily UTF-8, bytes orders them as unsigned bytes, as Rust does.
H(str_bytes) {
  char a[2], b[2]; vp_sym_bytes(a, 2); vp_sym_bytes(b, 2);
  vp_assume((a[0] & 0x80) == 0 && (a[1] & 0x80) == 0);
  int n = vp_pick(3), m = vp_pick(3);
  StrRef s = StrRef::FromUtf8Unchecked(std::string_view(a, n));
  int c = bytes_cmp(a, n, b, m);
  vp_assert(ord(s <=> std::string_view(b, m)) == c && (s == std::string_view(b, m)) == (c == 0), 70);
}
H(str_empty) {
  StrRef d, e(""), f = StrRef::FromUtf8Unchecked({});
  vp_assert(str_len(d) == 0 && str_len(e) == 0 && str_len(f) == 0 && str_raw(d) != nullptr && str_raw(e) != nullptr && str_raw(f) != nullptr, 80);
  vp_assert(d == e && d == "" && d.empty() && e.to_string_view().empty(), 81);
  StrRef lit = "h\xC3\xA9llo";
  vp_assert(str_len(lit) == 6 && lit == "h\xC3\xA9llo", 82);
}
// std::string, string_view and literals to byte slices.
H(str_like) {
  char a[4]; vp_sym_bytes(a, 4);
  int n = vp_pick(5);
  std::string_view sv(a, n);
  std::string st(a, n);
  SliceRef<const u8> s1 = sv, s2 = st, s3 = "xyz";
  vp_assert(len_u8(s1) == size_t(n) && len_u8(s2) == size_t(n) && len_u8(s3) == 3, 90);
  vp_assert(eq_u8(s1, s2) && s1 == s2 && (n == 0 || raw_u8(s1) == reinterpret_cast<u8*>(a)) && (n == 0 || raw_u8(s2) == reinterpret_cast<const u8*>(st.data())), 91);
  vp_assert(fold_u8(s1) == fold(reinterpret_cast<u8*>(a), n) && get_u8(s3, 1) == 'y', 92);
}
H(str_ptrdata) {
  using namespace crubit::internal;
  char a[4] = {1, 2, 3, 4};
  int n = vp_pick(5);
  PtrData p = AsPtrData(StrRef::FromUtf8Unchecked(std::string_view(a, n)));
  vp_assert(p.end - p.start == size_t(n) && (n == 0 || p.start == reinterpret_cast<uintptr_t>(a)), 95);
}
