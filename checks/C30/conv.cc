#include "conv.h"
Alone::operator std::int64_t() const { return static_cast<std::int64_t>(v - 7); }
std::int64_t alone_ref(const Alone& a) { return static_cast<std::int64_t>(a); }
W add(int a, short b) { return mix(a, b); }
W add(W a, W b) { return mix(a, b) ^ 1; }
W add(cc_named n) { return n.Sum(n.f1); }
W ns_cc::f(W x) { return x * 5; }
ns_cc::color_t pick_color(bool b) { return b ? ns_cc::kBlue : ns_cc::kRed; }
W risky(int a) { return mix(1, a); }
W fine(const W* p, int d) { return p ? *p : static_cast<W>(d); }
W take_risk(Risk r, int k) { return mix(r.a, k); }
W take_held(Held h) { return *h.p; }
[[noreturn]] void give_up(int code) { if (code >= 0) std::abort(); __builtin_trap(); }
namespace { int live_; int n_; }
int live() { return live_; }
[[gnu::noinline]] Thing* make_raw(W v) { ++live_; return new Thing(v); }
Thing* CRUBIT_OWNED_POINTER make_owned(W v) { return make_raw(v); }
[[gnu::noinline]] Other* make_o(W v) { live_ += 100; return new Other{v}; }
Other* CRUBIT_OWNED_POINTER make_other(W v, int k) { return make_o(mix(v, k)); }
[[gnu::noinline]] void free_other(Other* o) { live_ -= 100; delete o; }
[[gnu::noinline]] void Thing::Close() { --live_; delete this; }
W use_owned(Thing* CRUBIT_OWNED_POINTER p) { W r = p->value; p->Close(); return r; }
W use_two(int a, Other* CRUBIT_OWNED_POINTER p, Thing* CRUBIT_OWNED_POINTER q) { W r = mix(mix(a, p->value), q->value); free_other(p); q->Close(); return r; }
W peek(const Thing* p) { return p->value; }
namespace units {
int live_n() { return n_; }
N::N(const N& o) : v(o.v + 1) {}
N::N(N&& o) : v(o.v) { o.v = 99; }
N& N::operator=(const N& o) { v = o.v + 4; return *this; }
N::~N() { ++n_; v = 0; }
W N::operator|(N o) const { return mix(v, o.v); }
Stuck::Stuck(const Stuck& o) : v(o.v) {}
Stuck::~Stuck() {}
bool Stuck::operator==(Stuck o) const { return v == o.v; }
bool Stuck::operator<(Stuck o) const { return v < o.v; }
bool Stuck::operator!=(Stuck o) const { return v != o.v; }
bool operator==(Tok a, Tok b) { return a.v() == b.v(); }
bool operator<(Tok a, Tok b) { return a.v() < b.v(); }
W operator%(Tok a, const Tok& b) { return mix(a.v(), b.v()); }
Tok operator/(Tok a, int k) { return Tok(mix(a.v(), k)); }
W operator^(M a, int k) { return mix(a.v, k); }
}
extern "C" { int cc_plain_c = 4; }
int cc_plain = 5;
namespace ns_cc { int cc_deep = 6; }
wide_t widen(wide_t w) { cc_plain_c += 1; cc_plain += 2; ns_cc::cc_deep += 3; return w * 3; }
level_t up(level_t l, const level_t* p) { return l == level_t::lo && p ? *p : l; }
