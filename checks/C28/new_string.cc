#include <string>
#include "vp.h"
#include "helpers.inc"
typedef unsigned char u8; typedef unsigned long long u64;
extern "C" { size_t ns_size(); const u8* ns_check(const std::string&, const std::string&, size_t&); void ns_life(const u8*, size_t, u8, u8); void ns_touch(std::string* s, u8 x) { s->push_back(char(x)); } void* ns_other(); 
void sw_unused() {} }
#define N 6
static int bytes(u8* b, int max) { int n = vp_pick(max + 1); vp_sym_bytes(b, n); return n; }
H(new_string_layout) { VP_CHECK(ns_size() == sizeof(std::string) * 64 + alignof(std::string)); }
H(new_string_read) {
  int heap = vp_live_heap();
  u8 a[N], b[N];
  int n = bytes(a, 4), m = bytes(b, 3);
  {
    std::string s(reinterpret_cast<char*>(a), n), t(reinterpret_cast<char*>(b), m);
    size_t k; const u8* p = ns_check(s, t, k);
    VP_CHECK(k == size_t(n) && p == reinterpret_cast<const u8*>(s.data()));
  }
  VP_CHECK(vp_live_heap() == heap);
}
H(new_string_life) {
  int heap = vp_live_heap();
  u8 a[N]; int n = bytes(a, 5); u8 x = vp_any<u8>();
  ns_life(a, n, x, vp_pick(5));
  VP_CHECK(vp_live_heap() == heap);
}
