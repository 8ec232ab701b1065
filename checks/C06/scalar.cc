#include <compare>
#include <cstring>
#include <optional>
#include <span>
#include <string_view>
#include "vp.h"
#include "support/rs_std/char.h"
#include "support/rs_std/int.h"

using rs_std::char_;
extern "C" {
bool ref_from_u32(uint32_t);
size_t ref_len_utf8(uint32_t);
size_t ref_encode(uint32_t, uint8_t*);
int ref_cmp(uint32_t, uint32_t);
uint32_t ref_max();
uint32_t ref_default();
uint32_t ref_char_roundtrip(uint32_t);
bool ref_str_is_char(const uint8_t*, size_t, uint32_t);
int ref_ucmp(size_t, size_t);
int ref_icmp(intptr_t, intptr_t);
size_t ref_uadd(size_t, size_t);
size_t ref_usub(size_t, size_t);
intptr_t ref_iadd(intptr_t, intptr_t, bool*);
intptr_t ref_isub(intptr_t, intptr_t, bool*);
size_t ref_usize_id(size_t);
intptr_t ref_isize_id(intptr_t);
}

struct Sink {
  std::string_view got;
  uint8_t copy[8];
  int calls = 0;
  void Append(std::string_view s) {
    ++calls;
    got = s;
    std::memcpy(copy, s.data(), s.size() < 8 ? s.size() : 8);
  }
};

static char_ any_char(uint32_t& c) {
  c = vp_any<uint32_t>();
  vp_assume(c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF));
  std::optional<char_> o = char_::from_u32(c);
  vp_assert(o.has_value(), 900);
  return *o;
}
template <typename T>
static int sign(T o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

H(from_u32) {
  uint32_t c = vp_any<uint32_t>();
  std::optional<char_> o = char_::from_u32(c);
  vp_out(o.has_value());
  VP_CHECK(o.has_value() == ref_from_u32(c));
  if (o) VP_CHECK(static_cast<uint32_t>(*o) == c);
}
H(object_representation) {  // the bytes C++ stores are the bytes Rust reads
  uint32_t c;
  char_ x = any_char(c);
  uint32_t raw;
  static_assert(sizeof(char_) == 4 && alignof(char_) == 4);
  std::memcpy(&raw, &x, 4);
  VP_CHECK(ref_char_roundtrip(raw) == c);
  char_ d;
  std::memcpy(&raw, &d, 4);
  VP_CHECK(raw == ref_default());
  VP_CHECK(static_cast<uint32_t>(char_::MAX) == ref_max());
  char_ y(x), z;
  z = x;
  VP_CHECK(static_cast<uint32_t>(y) == c && static_cast<uint32_t>(z) == c);
}
H(compare) {
  uint32_t a, b;
  char_ x = any_char(a), y = any_char(b);
  VP_CHECK((x == y) == (ref_cmp(a, b) == 0));
  VP_CHECK((x != y) == (ref_cmp(a, b) != 0));
  VP_CHECK(sign(x <=> y) == ref_cmp(a, b));
  VP_CHECK((x < y) == (ref_cmp(a, b) < 0));
  VP_CHECK((x >= y) == (ref_cmp(a, b) >= 0));
}
H(encode) {
  uint32_t c;
  char_ x = any_char(c);
  uint8_t want[4] = {0, 0, 0, 0};
  size_t n = ref_encode(c, want);
  VP_CHECK(x.len_utf8() == n);
  VP_CHECK(x.len_utf8() == ref_len_utf8(c));
  uint8_t buf[6] = {0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE};
  rs_std::StrRef s = x.encode_utf8(std::span<uint8_t>(buf, 4));
  VP_CHECK(s.size() == n);
  VP_CHECK(reinterpret_cast<const uint8_t*>(s.data()) == buf);
  for (size_t i = 0; i < 6; ++i) {
    VP_CHECK(i < n ? buf[i] == want[i] : buf[i] == 0xEE);
  }
  VP_CHECK(ref_str_is_char(buf, s.size(), c));
  VP_CHECK(rs_std::StrRef::FromUtf8(s.to_string_view()).has_value());
  vp_out(n);
}
H(encode_exact_buffer) {
  uint32_t c;
  char_ x = any_char(c);
  int cap = vp_pick(6);
  uint8_t buf[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  bool fits = x.len_utf8() <= static_cast<size_t>(cap);
  vp_expect_abort(!fits);
  rs_std::StrRef s = x.encode_utf8(std::span<uint8_t>(buf, cap));
  VP_CHECK(fits);
  for (int i = cap; i < 8; ++i) VP_CHECK(buf[i] == i + 1);
  VP_CHECK(s.size() <= static_cast<size_t>(cap));
}
H(stringify) {
  uint32_t c;
  char_ x = any_char(c);
  uint8_t want[4] = {0, 0, 0, 0};
  size_t n = ref_encode(c, want);
  Sink sink;
  AbslStringify(sink, x);
  VP_CHECK(sink.calls == 1);
  VP_CHECK(sink.got.size() == n);
  for (size_t i = 0; i < n; ++i) VP_CHECK(sink.copy[i] == want[i]);
}
H(usize) {
  size_t a = vp_any<size_t>(), b = vp_any<size_t>();
  rs_std::usize x = a, y = b, z;
  VP_CHECK(static_cast<uintptr_t>(z) == 0);
  VP_CHECK(static_cast<uintptr_t>(x) == ref_usize_id(a));
  size_t raw;
  std::memcpy(&raw, &x, sizeof raw);
  VP_CHECK(raw == a);
  VP_CHECK(sign(x <=> y) == ref_ucmp(a, b));
  VP_CHECK((x == y) == (a == b));
  VP_CHECK((x < y) == (ref_ucmp(a, b) < 0));
  VP_CHECK(static_cast<uintptr_t>(x + y) == ref_uadd(a, b));
  VP_CHECK(static_cast<uintptr_t>(x - y) == ref_usub(a, b));
  rs_std::usize p = x, m = x;
  rs_std::usize& pr = (p += y);
  rs_std::usize& mr = (m -= y);
  VP_CHECK(&pr == &p && static_cast<uintptr_t>(p) == ref_uadd(a, b));
  VP_CHECK(&mr == &m && static_cast<uintptr_t>(m) == ref_usub(a, b));
  z = x;
  VP_CHECK(static_cast<uintptr_t>(z) == a && static_cast<uintptr_t>(rs_std::usize(y)) == b);
}
H(isize) {
  intptr_t a = vp_any<int64_t>(), b = vp_any<int64_t>();
  rs_std::isize x = a, y = b, z;
  VP_CHECK(static_cast<intptr_t>(z) == 0);
  VP_CHECK(static_cast<intptr_t>(x) == ref_isize_id(a));
  intptr_t raw;
  std::memcpy(&raw, &x, sizeof raw);
  VP_CHECK(raw == a);
  VP_CHECK(sign(x <=> y) == ref_icmp(a, b));
  VP_CHECK((x == y) == (a == b));
  VP_CHECK((x < y) == (ref_icmp(a, b) < 0));
  bool o;
  intptr_t r = ref_iadd(a, b, &o);
  if (!o) {
    VP_CHECK(static_cast<intptr_t>(x + y) == r);
    rs_std::isize p = x;
    rs_std::isize& pr = (p += y);
    VP_CHECK(&pr == &p && static_cast<intptr_t>(p) == r);
  }
  r = ref_isub(a, b, &o);
  if (!o) {
    VP_CHECK(static_cast<intptr_t>(x - y) == r);
    rs_std::isize m = x;
    rs_std::isize& mr = (m -= y);
    VP_CHECK(&mr == &m && static_cast<intptr_t>(m) == r);
  }
  z = x;
  VP_CHECK(static_cast<intptr_t>(z) == a);
}
