#include <optional>
#include <string_view>
#include "vp.h"
#include "support/rs_std/str_ref.h"

extern "C" bool ref_from_utf8(const uint8_t*, size_t);

namespace {
// An independent statement of RFC 3629 over a symbolic buffer is not needed: the oracle is
// Rust's own core::str::from_utf8, encoded from its IR in the same query.
void compare(int n) {
  char buf[16];
  vp_sym_bytes(buf, n);
  std::string_view sv(buf, n);
  bool want = ref_from_utf8(reinterpret_cast<const uint8_t*>(buf), n);
  std::optional<rs_std::StrRef> got = rs_std::StrRef::FromUtf8(sv);
  vp_out(got.has_value());
  vp_assert(got.has_value() == want, 1000);
  if (want && got.has_value()) {
    vp_assert(got->size() == static_cast<size_t>(n) && got->len() == static_cast<size_t>(n), 1001);
    vp_assert(n == 0 || got->data() == buf, 1002);
    vp_assert(got->to_string_view() == sv, 1003);
  }
}
}  // namespace

H(len0) { compare(0); }
H(len1) { compare(1); }
H(len2) { compare(2); }
H(len3) { compare(3); }
H(len4) { compare(4); }
H(len5) { compare(5); }
H(len6) { compare(6); }
H(len7) { compare(7); }
H(t_len8) { compare(8); }
H(t_len9) { compare(9); }

// Any well-formed character at any position of a longer ASCII string: the fast paths and the
// position arithmetic, at lengths the full-width harnesses do not reach.
static void embedded(int n) {
  char buf[48];
  for (int i = 0; i < n; ++i) buf[i] = 'a';
  int at = vp_pick(n);
  int w = n - at < 4 ? n - at : 4;
  vp_sym_bytes(buf + at, w);
  bool want = ref_from_utf8(reinterpret_cast<const uint8_t*>(buf), n);
  auto got = rs_std::StrRef::FromUtf8(std::string_view(buf, n));
  vp_out(got.has_value());
  VP_CHECK(got.has_value() == want);
}
H(embedded12) { embedded(12); }
H(embedded20) { embedded(20); }
H(t_embedded40) { embedded(40); }
