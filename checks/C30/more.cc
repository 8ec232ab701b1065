#include "more.h"
std::uint8_t ByKey::operator[](Key k) const { return s + k.k; }
namespace { W destroyed_, bigs_; }
W destroyed() { return destroyed_; }
Obj::~Obj() { destroyed_ = mix(destroyed_, v_); }
Sub::~Sub() { destroyed_ = mix(destroyed_, x_ ^ 0x55); }
[[gnu::noinline]] Obj* Obj::create(W v) { return new Obj(v); }
[[gnu::noinline]] Sub* Sub::create_sub(W v) { return new Sub(v); }
W live_bigs() { return bigs_; }
Big::Big(W v) : v_(v), self_(this) { bigs_++; }
Big::Big(const Big& o) : v_(o.self_ == &o ? o.v_ : ~W(0)), self_(this) { bigs_++; }
Big::~Big() { if (self_ == this) bigs_--; self_ = nullptr; }
Big Big::operator+(const Big& o) const { return Big(mix(v_, o.v_)); }
Big Big::operator-() const { return Big(~v_); }
Big& Big::operator+=(const Big& o) { v_ += o.v_; return *this; }
Bit operator&(Bit a, Bit b) { return Bit(std::uint8_t(a) & std::uint8_t(b)); }
bool operator==(const Num& a, int b) { return a.v == (W)b; }
W take_num(Num&& n) { W r = n.v; n.v = 3; return r; }
W anon(W a, std::uint8_t b, W c) { return mix(mix(a, b), c); }
Small* find(Small* first, std::size_t n, std::uint8_t a) { for (std::size_t i = 0; i < n; i++) if (first[i].a == a) return first + i; return nullptr; }
W sum(const Small* first, std::size_t n) { W h = 0; for (std::size_t i = 0; i < n; i++) h = mix(h, first[i].a * 256 + first[i].b); return h; }
void fill(std::uint16_t* out, std::size_t n, std::uint16_t v) { for (std::size_t i = 0; i < n; i++) out[i] = v + i; }
const char* text(int i) { return i ? "abc" : nullptr; }
W len(const char* s) { W n = 0; while (*s++) n++; return n; }
W cb_sum(W (*f)(void* ctx, W x), void* ctx, W n) { W h = 0; for (W i = 0; i < n; i++) h = mix(h, f(ctx, i)); return h; }
W use_cbs(const CBs& c, W x, Small* s) { if (c.g) c.g(s, 4); return c.f ? c.f(x) : 2; }
static W f1(W x) { return x * 3; }
Fp get_fn(int which) { return which == 1 ? f1 : nullptr; }
