#include <string>
#include "vp.h"
#include "helpers.inc"
#include "support/bridge.h"
typedef unsigned char u8; typedef unsigned long long u64;
extern "C" void ns_touch(void*, u8) {}
struct SV { const u8* p; size_t n; };   // libc++'s string_view
extern "C" {
size_t sv_len(SV); const u8* sv_bytes(SV, size_t&); u64 sv_read(SV, u8); u64 sv_cmp(SV, SV); SV sv_from(const u8*, size_t, u8); SV sv_cstr(const u8*);
void sv_display(SV); void sv_debug(SV);
typedef void* W;   // string_wrapper: one pointer
void sw_from(W*, const u8*, size_t, u8); void sw_drop(W*); const u8* sw_read(W&, size_t&); void sw_clone(W&, W*); bool sw_eq(W&, W&); std::string* sw_ptr(W&);
void sw_decode(const u8*, W*); size_t sw_encode(W*, u8*); void sw_display(W&); void sw_return(W*, void*); void sw_param(std::string*, W*);
}
static int bytes(u8* b, int max) { int n = vp_pick(max + 1); vp_sym_bytes(b, n); return n; }
static bool eq(const u8* a, const u8* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
static bool is(const std::string& s, const u8* b, size_t n) { return s.size() == n && eq(reinterpret_cast<const u8*>(s.data()), b, n); }
// The definition of UTF-8 (RFC 3629), as a predicate.
static bool utf8(const u8* b, size_t n) {
  for (size_t i = 0; i < n;) {
    u8 c = b[i];
    size_t k = c < 0x80 ? 1 : c < 0xC2 ? 9 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 9;
    if (i + k > n) return false;
    for (size_t j = 1; j < k; j++) if ((b[i + j] & 0xC0) != 0x80) return false;
    if (c == 0xE0 && b[i + 1] < 0xA0) return false;
    if (c == 0xED && b[i + 1] > 0x9F) return false;
    if (c == 0xF0 && b[i + 1] < 0x90) return false;
    if (c == 0xF4 && b[i + 1] > 0x8F) return false;
    i += k;
  }
  return true;
}
H(view_read) {
  u8 b[5]; int n = bytes(b, 4); u8 x = vp_any<u8>();
  SV v{b, size_t(n)};
  if (n == 0 && vp_any<bool>()) v.p = nullptr;
  size_t k; const u8* p = sv_bytes(v, k);
  VP_CHECK(sv_len(v) == size_t(n) && k == size_t(n) && p != nullptr && (v.p == nullptr || p == b));
  bool has = false, ok = utf8(b, n);
  for (int i = 0; i < n; i++) has |= b[i] == x;
  VP_CHECK(sv_read(v, x) == (u64(n == 0) | u64(ok) << 1 | u64(has) << 2 | u64(ok) << 3));
}
H(view_compare) {
  u8 a[4], b[4]; int n = bytes(a, 3), m = bytes(b, 3);
  int c = 0;
  for (int i = 0; !c && i < n && i < m; i++) c = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
  if (!c) c = n < m ? -1 : n > m ? 1 : 0;
  VP_CHECK(sv_cmp(SV{a, size_t(n)}, SV{b, size_t(m)}) == u64(c + 1));
}
H(view_from) {
  u8 b[5]; int n = bytes(b, 4); int how = vp_pick(7);
  SV v = sv_from(b, n, how);
  VP_CHECK(v.n == size_t(n) && (n == 0 || v.p == b));
  VP_CHECK(n != 0 || v.p == nullptr);
}
H(view_cstr) {
  u8 b[5]; int n = bytes(b, 4); b[n] = 0;
  SV v = sv_cstr(b);
  size_t k = 0; while (b[k]) k++;
  VP_CHECK(v.n == k && (k == 0 || v.p == b));
}
H(view_display) { u8 b[5]; int n = bytes(b, 3); sv_display(SV{b, size_t(n)}); }
H(t_view_display) { u8 b[5]; vp_sym_bytes(b, 4); sv_display(SV{b, 4}); }
// Multi-byte characters are a fixed choice here, since Debug consults Unicode tables for them; all
// one- and two-byte inputs without such a character are covered.
H(view_debug) {
  u8 b[5]; int n = bytes(b, 2);
  vp_assume(n < 2 || b[0] < 0xC2 || b[0] > 0xDF || (b[1] & 0xC0) != 0x80);
  sv_debug(SV{b, size_t(n)});
}
H(view_debug_char) {
  static const char* const chars[] = {"\xc3\xa9", "\xcc\x81", "\xc2\xad", "\xe2\x82\xac", "\xe2\x80\x8b", "\xf0\x9f\xa6\x80", "\xf3\xa0\x87\xaf"};
  u8 b[6]; int n = 0;
  u8 c = vp_any<u8>();
  bool before = vp_any<bool>();
  if (before) b[n++] = c;
  for (const char* p = chars[vp_pick(7)]; *p; p++) b[n++] = u8(*p);
  if (!before) b[n++] = c;
  sv_debug(SV{b, size_t(n)});
}
H(wrapper_from) {
  int heap = vp_live_heap();
  u8 b[20]; int n = vp_pick(2) ? vp_pick(4) : 16 + vp_pick(2); vp_sym_bytes(b, n > 3 ? 3 : n); for (int i = 3; i < n; i++) b[i] = 'x';
  W w; sw_from(&w, b, n, vp_pick(6));
  VP_CHECK(is(*static_cast<std::string*>(w), b, n) && sw_ptr(w) == w);
  size_t k; const u8* p = sw_read(w, k);
  VP_CHECK(k == size_t(n) && p == reinterpret_cast<u8*>(static_cast<std::string*>(w)->data()));
  sw_drop(&w);
  VP_CHECK(vp_live_heap() == heap);
}
// Short strings live in the object, long ones on the heap.
static std::string any(u8* b, int& n) {
  n = vp_pick(2) ? vp_pick(3) : 17; vp_sym_bytes(b, n < 3 ? n : 3); for (int i = 3; i < n; i++) b[i] = 'a';
  return std::string(reinterpret_cast<char*>(b), n);
}
H(wrapper_clone_eq) {
  int heap = vp_live_heap();
  {
    u8 a[20], b[20]; int n, m;
    std::string s = any(a, n), t = any(b, m);
    W v = new std::string(s), w = new std::string(t), c;
    VP_CHECK(sw_eq(v, w) == (n == m && eq(a, b, n)));
    sw_clone(v, &c);
    VP_CHECK(c != v && sw_eq(v, c) && is(*static_cast<std::string*>(c), a, n));
    static_cast<std::string*>(c)->push_back('y');
    VP_CHECK(!sw_eq(v, c) && is(*static_cast<std::string*>(v), a, n));
    sw_drop(&v); sw_drop(&w); sw_drop(&c);
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(wrapper_display) { u8 b[4]; int n = bytes(b, 2); std::string s(reinterpret_cast<char*>(b), n); W w = &s; sw_display(w); }
// As a by-value parameter and as a return value of a bridged function.
H(wrapper_param) {
  int heap = vp_live_heap();
  {
    u8 a[20]; int n; std::string s = any(a, n); W w;
    sw_param(&s, &w);
    VP_CHECK(is(*static_cast<std::string*>(w), a, n));
    alignas(std::string) unsigned char out[sizeof(std::string)];
    sw_return(&w, out);
    std::string& r = *reinterpret_cast<std::string*>(out);
    VP_CHECK(is(r, a, n));
    r.push_back('z');
    VP_CHECK(r.size() == size_t(n) + 1);
    r.~basic_string();
  }
  VP_CHECK(vp_live_heap() == heap);
}
// Through the composable bridge.
H(wrapper_bridge) {
  int heap = vp_live_heap();
  {
    u8 a[20]; int n; std::string s = any(a, n); W w;
    typedef crubit::BoxedAbi<std::string> Abi;
    u8 buf[Abi::kSize];
    crubit::internal::Encode(Abi(), buf, s);
    sw_decode(buf, &w);
    VP_CHECK(is(*static_cast<std::string*>(w), a, n));
    static_cast<std::string*>(w)->push_back('q');
    VP_CHECK(sw_encode(&w, buf) == Abi::kSize);
    std::string r = crubit::internal::Decode(Abi(), buf);
    VP_CHECK(r.size() == size_t(n) + 1 && r.back() == 'q' && is(s, a, n));
  }
  VP_CHECK(vp_live_heap() == heap);
}
