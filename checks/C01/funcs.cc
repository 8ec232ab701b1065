#include "vp.h"
#include "funcs.h"
#include <cstring>
#include <span>
#include <type_traits>
// Oracle: the same Rust functions called directly (funcs_ref.rs).
#define R(ret, name, ...) extern "C" ret name(__VA_ARGS__);
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
R(u64, ref_mix_ints, u8, i64, u16, i32, u64, i8, u32, i16)
R(u64, ref_mix_float, float, i32, double, u8, float, double)
R(double, ref_sel_f64, bool, double, double) R(float, ref_sel_f32, float, bool, float) R(bool, ref_logic, bool, bool, bool)
R(u8, ref_u8, u8) R(i8, ref_i8, i8) R(u16, ref_u16, u16) R(i16, ref_i16, i16) R(u32, ref_u32, u32) R(i32, ref_i32, i32)
R(u64, ref_u64, u64) R(i64, ref_i64, i64) R(u64, ref_usize, u64, u64) R(i64, ref_isize, i64, i64)
R(i32, ref_dup, i32, i32, i32, i32) R(u8, ref_unused, u64, u8, u64) R(u32, ref_opt_char, u32) R(u32, ref_early, u32)
R(i64, ref_c_add, i16, i64, u8) R(u64, ref_exported, u64, u32) R(u64, ref_nomangle, u32, u8, u64) R(u32, ref_rust_exported, u8, u32)
R(u32, ref_c_mangled, u32, u32) R(u32, ref_unsafe, u32, u32) R(u32, ref_must_use, u32, u16) R(u32, ref_deprecated, u32)
R(u32, ref_for, u32) R(u32, ref_template, u32, u32) R(u8, ref_and_eq, u8, u8) R(u32, ref_deep, u32) R(u32, ref_inner, u32)
R(u32, ref_outer, u32) R(u32, ref_hidden, u32, u8) R(u32, ref_renamed, u32, u32) R(u16, ref_alias, u16, u16) R(u32, ref_original, u32, u32)
R(i64, ref_c_types, i8, i64, u64, i16, u8, u32) R(u32, ref_chars, u32, u32) R(u32, ref_char_code, u8, u32, u8) R(u32, ref_arr, const u16*)
R(u32, ref_sum_bytes, const u8*, size_t) R(u64, ref_two, const u32*, size_t, u8, const u16*, size_t) R(bool, ref_valid, const u8*, size_t)
R(u8, ref_str_byte, const u8*, size_t, size_t) R(const u8*, ref_str_tail, const u8*, size_t, size_t*) R(const u8*, ref_const_str, bool, size_t*)

template <class T> static u64 bits(T v) { u64 r = 0; memcpy(&r, &v, sizeof v); return r; }
template <class T> static T A() { return vp_any<T>(); }
static rs_std::char_ any_char() {
  u32 c = A<u32>();
  vp_assume(c < 0xD800 || (c > 0xDFFF && c < 0x110000));
  return *rs_std::char_::from_u32(c);
}

H(ints) {
  auto a = A<u8>(); auto b = A<i64>(); auto c = A<u16>(); auto d = A<i32>(); auto e = A<u64>(); auto f = A<i8>(); auto g = A<u32>(); auto h = A<i16>();
  VP_CHECK(funcs::prim::mix_ints(a, b, c, d, e, f, g, h) == ref_mix_ints(a, b, c, d, e, f, g, h));
}
H(floats) {
  auto a = A<float>(); auto b = A<i32>(); auto c = A<double>(); auto d = A<u8>(); auto e = A<float>(); auto f = A<double>();
  VP_CHECK(funcs::prim::mix_float(a, b, c, d, e, f) == ref_mix_float(a, b, c, d, e, f));
  bool w = A<bool>();
  VP_CHECK(bits(funcs::prim::sel_f64(w, c, f)) == bits(ref_sel_f64(w, c, f)));
  VP_CHECK(bits(funcs::prim::sel_f32(a, w, e)) == bits(ref_sel_f32(a, w, e)));
}
H(scalars) {
  auto q = A<bool>(), r = A<bool>(), s = A<bool>();
  VP_CHECK(funcs::prim::logic(q, r, s) == ref_logic(q, r, s));
  u64 x = A<u64>(), y = A<u64>();
  VP_CHECK(funcs::prim::ret_u8(x) == ref_u8(x));
  VP_CHECK(funcs::prim::ret_i8(x) == ref_i8(x));
  VP_CHECK(funcs::prim::ret_u16(x) == ref_u16(x));
  VP_CHECK(funcs::prim::ret_i16(x) == ref_i16(x));
  VP_CHECK(funcs::prim::ret_u32(x) == ref_u32(x));
  VP_CHECK(funcs::prim::ret_i32(x) == ref_i32(x));
  VP_CHECK(funcs::prim::ret_u64(x) == ref_u64(x));
  VP_CHECK(funcs::prim::ret_i64(x) == ref_i64(x));
  VP_CHECK(funcs::prim::ret_usize(x, y) == ref_usize(x, y));
  VP_CHECK(funcs::prim::ret_isize(x, y) == ref_isize(x, y));
  static_assert(std::is_same_v<decltype(funcs::prim::ret_i8(1)), i8> && std::is_same_v<decltype(funcs::prim::ret_u32(1)), u32> &&
                std::is_same_v<decltype(funcs::prim::ret_isize(1, 1)), intptr_t> && std::is_same_v<decltype(funcs::prim::logic(1, 1, 1)), bool>);
}
H(chars) {
  auto a = any_char(), b = any_char();
  VP_CHECK(uint32_t(funcs::prim::chars(a, b)) == ref_chars(uint32_t(a), uint32_t(b)));
  u8 p = A<u8>(), q = A<u8>();
  VP_CHECK(funcs::prim::char_code(p, a, q) == ref_char_code(p, uint32_t(a), q));
  u32 x = A<u32>();
  VP_CHECK(funcs::prim::opt_char(x) == ref_opt_char(x));
}
H(args) {
  i32 a = A<i32>(), b = A<i32>(), c = A<i32>(), d = A<i32>();
  VP_CHECK(funcs::prim::dup_names(a, b, c, d) == ref_dup(a, b, c, d));
  u64 x = A<u64>(), y = A<u64>(); u8 k = A<u8>();
  VP_CHECK(funcs::prim::unused_args(x, k, y) == ref_unused(x, k, y));
  VP_CHECK(funcs::prim::early(a) == ref_early(a));
  funcs::prim::unit(k);
  static_assert(std::is_void_v<decltype(funcs::prim::unit(k))>);
}
H(abi) {
  u64 x = A<u64>(), y = A<u64>();
  VP_CHECK(funcs::abi::vp_c_add(x, y, x >> 16) == ref_c_add(x, y, x >> 16));
  VP_CHECK(funcs::abi::exported(x, y) == ref_exported(x, y));
  VP_CHECK(funcs::abi::vp_rust_abi_nomangle(x, y, x ^ y) == ref_nomangle(x, y, x ^ y));
  VP_CHECK(funcs::abi::rust_exported(x, y) == ref_rust_exported(x, y));
  VP_CHECK(funcs::abi::c_mangled(x, y) == ref_c_mangled(x, y));
  VP_CHECK(funcs::abi::unsafe_fn(x, y) == ref_unsafe(x, y));
  VP_CHECK(funcs::abi::must_use_fn(x, y) == ref_must_use(x, y));
  VP_CHECK(funcs::abi::deprecated_fn(x) == ref_deprecated(x));
}
H(names) {
  u32 x = A<u32>(), y = A<u32>();
  VP_CHECK(funcs::while_::for_(x) == ref_for(x));
  VP_CHECK(funcs::while_::template_(x, y) == ref_template(x, y));
  VP_CHECK(funcs::while_::and_eq_(x, y) == ref_and_eq(x, y));
  VP_CHECK(funcs::deep_alias::f(x) == ref_deep(x));
  VP_CHECK(funcs::outer::inner::f(x) == ref_inner(x));
  VP_CHECK(funcs::outer::f(x) == ref_outer(x));
  VP_CHECK(funcs::from_hidden(x, y) == ref_hidden(x, y));
  VP_CHECK(funcs::renamed_dst(x, y) == ref_renamed(x, y));
  VP_CHECK(funcs::alias_fn(x, y) == ref_alias(x, y));
  VP_CHECK(funcs::renamed_in_cpp(x, y) == ref_original(x, y));
}
H(refs) {
  i32 a = A<i32>(), b = A<i32>();
  const i32* r = &funcs::refs::pick_ref(&a, &b);
  VP_CHECK(r == (a < b ? &a : &b));
  u64 m = A<u64>(), m0 = m; u16 c = A<u16>(), c0 = c; u32 k = A<u32>();
  VP_CHECK(funcs::refs::mut_set(m, k, c) == m0);
  VP_CHECK(m == u64(k) + 1 || k == 0xffffffffu);
  VP_CHECK(c == u16(c0 + k));
  u32 v = A<u32>(), v0 = v;
  u32* rr = &funcs::refs::mut_ref_ret(&v, k);
  VP_CHECK(rr == &v && v == v0 + k);
}
H(ptrs) {
  u32 p = A<u32>(), p0 = p, q = A<u32>(); u8 n = A<u8>();
  VP_CHECK(funcs::refs::ptr_sum(&p, &q, n) == &q && q == p0 + n && p == p0);
  const u8* u = (const u8*)A<u64>();
  VP_CHECK(funcs::refs::ptr_pass(u, nullptr, nullptr) == u);
  i32 i, *ip = &i;
  VP_CHECK(funcs::refs::ptr_ptr(&ip) == &ip);
  bool w = A<bool>();
  VP_CHECK(funcs::refs::void_ptr(&p, &q, w) == (w ? (void*)&p : (void*)&q));
  u16 ar[3] = {A<u16>(), A<u16>(), A<u16>()};
  std::array<u16, 3> aa{ar[0], ar[1], ar[2]};
  VP_CHECK(funcs::refs::arr_ref(aa) == ref_arr(ar));
  std::array<u8, 4> am{1, 2, 3, 4};
  u8 ix = A<u8>(), val = A<u8>();
  funcs::refs::arr_mut(am, ix, val);
  for (int j = 0; j < 4; j++) VP_CHECK(am[j] == (j == (ix & 3) ? val : j + 1));
  u64 x = A<u64>(), y = A<u64>();
  VP_CHECK(funcs::refs::c_types(x, y, x ^ y, x >> 9, y >> 5, x >> 20) == ref_c_types(x, y, x ^ y, x >> 9, y >> 5, x >> 20));
}
static u64 seen;
extern "C" {
static u64 cb1(u32 a, u8 b) { return u64(a) * 3 + b; }
static void cb2(u8 a) { seen = seen * 2 + a + 1; }
static i16 cb3(i16 a, u64 b) { return i16(a - b); }
}
H(fnptr) {
  u32 a = A<u32>(); u8 b = A<u8>(); i16 c = A<i16>();
  VP_CHECK(funcs::refs::call_fp(cb1, a, b) == u64(a ^ 1) * 3 + b + 5);
  seen = 1;
  VP_CHECK(funcs::refs::call_fp2(b, cb2, cb3, c) == i16(c - 9));
  VP_CHECK(seen == 2u + b + 1);
  bool w = A<bool>();
  VP_CHECK(funcs::refs::ret_fp(w)(a) == (w ? a ^ 0xff : a * 2));
}
H(slices) {
  static u8 d[5]; vp_sym_bytes(d, 5);
  size_t n = vp_pick(6);
  VP_CHECK(funcs::slices::sum_bytes(rs_std::SliceRef<const u8>(std::span<const u8>(d, n))) == ref_sum_bytes(d, n));
  u32 x[3] = {A<u32>(), A<u32>(), A<u32>()}; u16 y[3] = {A<u16>(), A<u16>(), A<u16>()}; u8 k = A<u8>();
  size_t p = vp_pick(4), q = vp_pick(4);
  VP_CHECK(funcs::slices::two_slices(std::span<const u32>(x, p), k, std::span<const u16>(y, q)) == ref_two(x, p, k, y, q));
}
H(slices_mut) {
  u16 y[3] = {A<u16>(), A<u16>(), A<u16>()}, y0[3] = {y[0], y[1], y[2]}; u16 v = A<u16>();
  size_t n = vp_pick(4);
  funcs::slices::write_slice(std::span<u16>(y, n), v);
  for (size_t i = 0; i < 3; i++) VP_CHECK(y[i] == (i < n ? u16(y0[i] + v + i) : y0[i]));
  u8 d[4]; vp_sym_bytes(d, 4);
  u64 i = A<u64>(), j = A<u64>();
  auto s = funcs::slices::sub_slice(std::span<const u8>(d, 4), i, j).to_span();
  if (i <= j && j <= 4) VP_CHECK(s.size() == j - i && (i == j || s.data() == d + i));
  else VP_CHECK(s.size() == 0);
  u32 w[3];
  auto t = funcs::slices::tail_mut(std::span<u32>(w, n)).to_span();
  VP_CHECK(n > 1 ? (t.data() == w + 1 && t.size() == n - 1) : t.size() == n);
  VP_CHECK(funcs::slices::raw_slice_len(std::span<const u32>(w, n)) == n);
}
H(strs) {
  static u8 d[4]; vp_sym_bytes(d, 4);
  size_t n = vp_pick(5);
  vp_assume(ref_valid(d, n));
  rs_std::StrRef s = *rs_std::StrRef::FromUtf8(std::string_view((const char*)d, n));
  VP_CHECK(funcs::slices::str_len(s) == n);
  u64 i = A<u64>();
  VP_CHECK(funcs::slices::str_byte(s, i) == ref_str_byte(d, n, i));
  auto t = funcs::slices::str_tail(s).to_string_view();
  size_t m; const u8* q = ref_str_tail(d, n, &m);
  VP_CHECK(t.size() == m);
  VP_CHECK(m == 0 || (const u8*)t.data() == q);
  bool w = A<bool>();
  auto c = funcs::slices::const_str(w).to_string_view();
  q = ref_const_str(w, &m);
  VP_CHECK(c.size() == m && memcmp(c.data(), q, m) == 0);
  rs_std::StrRef lit("ab");
  VP_CHECK(funcs::slices::strs(s, lit) == (n == 2 && d[0] == 'a' && d[1] == 'b'));
}
#define K(T, n) extern "C" T k_##n(); static bool ck_##n() { return std::is_same_v<const T, decltype(funcs::consts::n)> && bits(k_##n()) == bits(funcs::consts::n); }
K(i32, I) K(u64, U) K(i64, I64MIN) K(i8, I8MIN) K(bool, B) K(u8, U8) K(i16, I16) K(u32, U32) K(i32, I32MIN) K(double, F) K(float, F32)
K(double, FNEGZ) K(double, FMIN) K(float, FMAX) K(double, FTENTH) K(float, FTENTH32) K(double, FBIG) K(uintptr_t, SZ) K(intptr_t, ISZ)
K(float, FONE) K(float, FNEGZ32) K(float, FSUB) K(double, FTWO53) K(u16, U16) K(u16, U15) K(u64, U64S) K(i64, I64MAX) K(bool, FALSE)
H(consts) {
  VP_CHECK(ck_I() && ck_U() && ck_I64MIN() && ck_I8MIN() && ck_B() && ck_U8() && ck_I16() && ck_U32() && ck_I32MIN());
  VP_CHECK(ck_F()); VP_CHECK(ck_F32()); VP_CHECK(ck_FNEGZ()); VP_CHECK(ck_FMIN()); VP_CHECK(ck_FMAX()); VP_CHECK(ck_FTENTH());
  VP_CHECK(ck_FTENTH32()); VP_CHECK(ck_FBIG()); VP_CHECK(ck_SZ() && ck_ISZ()); VP_CHECK(ck_FONE() && ck_FNEGZ32() && ck_FSUB());
  VP_CHECK(ck_FTWO53() && ck_U16() && ck_U15() && ck_U64S() && ck_I64MAX() && ck_FALSE());
}
extern "C" uint64_t ref_lit(size_t);
static const uint64_t kLits[] = {uint64_t(funcs::lits::K_U8_0), uint64_t(funcs::lits::K_U8_1), uint64_t(funcs::lits::K_U8_2), uint64_t(funcs::lits::K_U8_3), uint64_t(funcs::lits::K_U8_4), uint64_t(funcs::lits::K_U8_5), uint64_t(funcs::lits::K_U8_6), uint64_t(funcs::lits::K_U16_0), uint64_t(funcs::lits::K_U16_1), uint64_t(funcs::lits::K_U16_2), uint64_t(funcs::lits::K_U16_3), uint64_t(funcs::lits::K_U16_4), uint64_t(funcs::lits::K_U16_5), uint64_t(funcs::lits::K_U16_6), uint64_t(funcs::lits::K_U16_7), uint64_t(funcs::lits::K_U16_8), uint64_t(funcs::lits::K_U16_9), uint64_t(funcs::lits::K_U16_10), uint64_t(funcs::lits::K_U16_11), uint64_t(funcs::lits::K_U16_12), uint64_t(funcs::lits::K_U16_13), uint64_t(funcs::lits::K_U16_14), uint64_t(funcs::lits::K_U32_0), uint64_t(funcs::lits::K_U32_1), uint64_t(funcs::lits::K_U32_2), uint64_t(funcs::lits::K_U32_3), uint64_t(funcs::lits::K_U32_4), uint64_t(funcs::lits::K_U32_5), uint64_t(funcs::lits::K_U32_6), uint64_t(funcs::lits::K_U32_7), uint64_t(funcs::lits::K_U32_8), uint64_t(funcs::lits::K_U32_9), uint64_t(funcs::lits::K_U32_10), uint64_t(funcs::lits::K_U32_11), uint64_t(funcs::lits::K_U32_12), uint64_t(funcs::lits::K_U32_13), uint64_t(funcs::lits::K_U32_14), uint64_t(funcs::lits::K_U32_15), uint64_t(funcs::lits::K_U32_16), uint64_t(funcs::lits::K_U32_17), uint64_t(funcs::lits::K_U32_18), uint64_t(funcs::lits::K_U32_19), uint64_t(funcs::lits::K_U32_20), uint64_t(funcs::lits::K_U64_0), uint64_t(funcs::lits::K_U64_1), uint64_t(funcs::lits::K_U64_2), uint64_t(funcs::lits::K_U64_3), uint64_t(funcs::lits::K_U64_4), uint64_t(funcs::lits::K_U64_5), uint64_t(funcs::lits::K_U64_6), uint64_t(funcs::lits::K_U64_7), uint64_t(funcs::lits::K_U64_8), uint64_t(funcs::lits::K_U64_9), uint64_t(funcs::lits::K_U64_10), uint64_t(funcs::lits::K_U64_11), uint64_t(funcs::lits::K_U64_12), uint64_t(funcs::lits::K_U64_13), uint64_t(funcs::lits::K_U64_14), uint64_t(funcs::lits::K_U64_15), uint64_t(funcs::lits::K_U64_16), uint64_t(funcs::lits::K_U64_17), uint64_t(funcs::lits::K_U64_18), uint64_t(funcs::lits::K_U64_19), uint64_t(funcs::lits::K_U64_20), uint64_t(funcs::lits::K_U64_21), uint64_t(funcs::lits::K_U64_22), uint64_t(funcs::lits::K_U64_23), uint64_t(funcs::lits::K_U64_24), uint64_t(funcs::lits::K_USIZE_0), uint64_t(funcs::lits::K_USIZE_1), uint64_t(funcs::lits::K_USIZE_2), uint64_t(funcs::lits::K_USIZE_3), uint64_t(funcs::lits::K_USIZE_4), uint64_t(funcs::lits::K_USIZE_5), uint64_t(funcs::lits::K_USIZE_6), uint64_t(funcs::lits::K_USIZE_7), uint64_t(funcs::lits::K_USIZE_8), uint64_t(funcs::lits::K_USIZE_9), uint64_t(funcs::lits::K_USIZE_10), uint64_t(funcs::lits::K_USIZE_11), uint64_t(funcs::lits::K_USIZE_12), uint64_t(funcs::lits::K_USIZE_13), uint64_t(funcs::lits::K_USIZE_14), uint64_t(funcs::lits::K_USIZE_15), uint64_t(funcs::lits::K_USIZE_16), uint64_t(funcs::lits::K_USIZE_17), uint64_t(funcs::lits::K_USIZE_18), uint64_t(funcs::lits::K_USIZE_19), uint64_t(funcs::lits::K_USIZE_20), uint64_t(funcs::lits::K_USIZE_21), uint64_t(funcs::lits::K_USIZE_22), uint64_t(funcs::lits::K_USIZE_23), uint64_t(funcs::lits::K_USIZE_24), uint64_t(int64_t(funcs::lits::K_I8_0)), uint64_t(int64_t(funcs::lits::K_I8_1)), uint64_t(int64_t(funcs::lits::K_I8_2)), uint64_t(int64_t(funcs::lits::K_I8_3)), uint64_t(int64_t(funcs::lits::K_I8_4)), uint64_t(int64_t(funcs::lits::K_I8_5)), uint64_t(int64_t(funcs::lits::K_I16_0)), uint64_t(int64_t(funcs::lits::K_I16_1)), uint64_t(int64_t(funcs::lits::K_I16_2)), uint64_t(int64_t(funcs::lits::K_I16_3)), uint64_t(int64_t(funcs::lits::K_I16_4)), uint64_t(int64_t(funcs::lits::K_I16_5)), uint64_t(int64_t(funcs::lits::K_I16_6)), uint64_t(int64_t(funcs::lits::K_I16_7)), uint64_t(int64_t(funcs::lits::K_I16_8)), uint64_t(int64_t(funcs::lits::K_I16_9)), uint64_t(int64_t(funcs::lits::K_I16_10)), uint64_t(int64_t(funcs::lits::K_I16_11)), uint64_t(int64_t(funcs::lits::K_I16_12)), uint64_t(int64_t(funcs::lits::K_I16_13)), uint64_t(int64_t(funcs::lits::K_I16_14)), uint64_t(int64_t(funcs::lits::K_I16_15)), uint64_t(int64_t(funcs::lits::K_I32_0)), uint64_t(int64_t(funcs::lits::K_I32_1)), uint64_t(int64_t(funcs::lits::K_I32_2)), uint64_t(int64_t(funcs::lits::K_I32_3)), uint64_t(int64_t(funcs::lits::K_I32_4)), uint64_t(int64_t(funcs::lits::K_I32_5)), uint64_t(int64_t(funcs::lits::K_I32_6)), uint64_t(int64_t(funcs::lits::K_I32_7)), uint64_t(int64_t(funcs::lits::K_I32_8)), uint64_t(int64_t(funcs::lits::K_I32_9)), uint64_t(int64_t(funcs::lits::K_I32_10)), uint64_t(int64_t(funcs::lits::K_I32_11)), uint64_t(int64_t(funcs::lits::K_I32_12)), uint64_t(int64_t(funcs::lits::K_I32_13)), uint64_t(int64_t(funcs::lits::K_I32_14)), uint64_t(int64_t(funcs::lits::K_I32_15)), uint64_t(int64_t(funcs::lits::K_I32_16)), uint64_t(int64_t(funcs::lits::K_I32_17)), uint64_t(int64_t(funcs::lits::K_I32_18)), uint64_t(int64_t(funcs::lits::K_I32_19)), uint64_t(int64_t(funcs::lits::K_I32_20)), uint64_t(int64_t(funcs::lits::K_I32_21)), uint64_t(int64_t(funcs::lits::K_I32_22)), uint64_t(int64_t(funcs::lits::K_I32_23)), uint64_t(int64_t(funcs::lits::K_I32_24)), uint64_t(int64_t(funcs::lits::K_I32_25)), uint64_t(int64_t(funcs::lits::K_I32_26)), uint64_t(int64_t(funcs::lits::K_I32_27)), uint64_t(int64_t(funcs::lits::K_I32_28)), uint64_t(int64_t(funcs::lits::K_I64_0)), uint64_t(int64_t(funcs::lits::K_I64_1)), uint64_t(int64_t(funcs::lits::K_I64_2)), uint64_t(int64_t(funcs::lits::K_I64_3)), uint64_t(int64_t(funcs::lits::K_I64_4)), uint64_t(int64_t(funcs::lits::K_I64_5)), uint64_t(int64_t(funcs::lits::K_I64_6)), uint64_t(int64_t(funcs::lits::K_I64_7)), uint64_t(int64_t(funcs::lits::K_I64_8)), uint64_t(int64_t(funcs::lits::K_I64_9)), uint64_t(int64_t(funcs::lits::K_I64_10)), uint64_t(int64_t(funcs::lits::K_I64_11)), uint64_t(int64_t(funcs::lits::K_I64_12)), uint64_t(int64_t(funcs::lits::K_I64_13)), uint64_t(int64_t(funcs::lits::K_I64_14)), uint64_t(int64_t(funcs::lits::K_I64_15)), uint64_t(int64_t(funcs::lits::K_I64_16)), uint64_t(int64_t(funcs::lits::K_I64_17)), uint64_t(int64_t(funcs::lits::K_I64_18)), uint64_t(int64_t(funcs::lits::K_I64_19)), uint64_t(int64_t(funcs::lits::K_I64_20)), uint64_t(int64_t(funcs::lits::K_I64_21)), uint64_t(int64_t(funcs::lits::K_I64_22)), uint64_t(int64_t(funcs::lits::K_I64_23)), uint64_t(int64_t(funcs::lits::K_I64_24)), uint64_t(int64_t(funcs::lits::K_I64_25)), uint64_t(int64_t(funcs::lits::K_I64_26)), uint64_t(int64_t(funcs::lits::K_I64_27)), uint64_t(int64_t(funcs::lits::K_I64_28)), uint64_t(int64_t(funcs::lits::K_I64_29)), uint64_t(int64_t(funcs::lits::K_I64_30)), uint64_t(int64_t(funcs::lits::K_I64_31)), uint64_t(int64_t(funcs::lits::K_I64_32)), uint64_t(int64_t(funcs::lits::K_I64_33)), uint64_t(int64_t(funcs::lits::K_I64_34)), uint64_t(int64_t(funcs::lits::K_I64_35)), uint64_t(int64_t(funcs::lits::K_I64_36)), uint64_t(int64_t(funcs::lits::K_I64_37)), uint64_t(int64_t(funcs::lits::K_I64_38)), uint64_t(int64_t(funcs::lits::K_ISIZE_0)), uint64_t(int64_t(funcs::lits::K_ISIZE_1)), uint64_t(int64_t(funcs::lits::K_ISIZE_2)), uint64_t(int64_t(funcs::lits::K_ISIZE_3)), uint64_t(int64_t(funcs::lits::K_ISIZE_4)), uint64_t(int64_t(funcs::lits::K_ISIZE_5)), uint64_t(int64_t(funcs::lits::K_ISIZE_6)), uint64_t(int64_t(funcs::lits::K_ISIZE_7)), uint64_t(int64_t(funcs::lits::K_ISIZE_8)), uint64_t(int64_t(funcs::lits::K_ISIZE_9)), uint64_t(int64_t(funcs::lits::K_ISIZE_10)), uint64_t(int64_t(funcs::lits::K_ISIZE_11)), uint64_t(int64_t(funcs::lits::K_ISIZE_12)), uint64_t(int64_t(funcs::lits::K_ISIZE_13)), uint64_t(int64_t(funcs::lits::K_ISIZE_14)), uint64_t(int64_t(funcs::lits::K_ISIZE_15)), uint64_t(int64_t(funcs::lits::K_ISIZE_16)), uint64_t(int64_t(funcs::lits::K_ISIZE_17)), uint64_t(int64_t(funcs::lits::K_ISIZE_18)), uint64_t(int64_t(funcs::lits::K_ISIZE_19)), uint64_t(int64_t(funcs::lits::K_ISIZE_20)), uint64_t(int64_t(funcs::lits::K_ISIZE_21)), uint64_t(int64_t(funcs::lits::K_ISIZE_22)), uint64_t(int64_t(funcs::lits::K_ISIZE_23)), uint64_t(int64_t(funcs::lits::K_ISIZE_24)), uint64_t(int64_t(funcs::lits::K_ISIZE_25)), uint64_t(int64_t(funcs::lits::K_ISIZE_26)), uint64_t(int64_t(funcs::lits::K_ISIZE_27)), uint64_t(int64_t(funcs::lits::K_ISIZE_28)), uint64_t(int64_t(funcs::lits::K_ISIZE_29)), uint64_t(int64_t(funcs::lits::K_ISIZE_30)), uint64_t(int64_t(funcs::lits::K_ISIZE_31)), uint64_t(int64_t(funcs::lits::K_ISIZE_32)), uint64_t(int64_t(funcs::lits::K_ISIZE_33)), uint64_t(int64_t(funcs::lits::K_ISIZE_34)), uint64_t(int64_t(funcs::lits::K_ISIZE_35)), uint64_t(int64_t(funcs::lits::K_ISIZE_36)), uint64_t(int64_t(funcs::lits::K_ISIZE_37)), uint64_t(int64_t(funcs::lits::K_ISIZE_38))};
H(lits) {
  unsigned k = vp_pick(222);
  VP_CHECK(kLits[k] == ref_lit(k));
}
