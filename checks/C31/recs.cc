#include "recs.h"
#include <cstddef>
#include <cstring>
#include <type_traits>
#pragma clang diagnostic ignored "-Winvalid-offsetof"
namespace {
template <class T> T in(W w) { T t; std::memcpy(&t, &w, sizeof t); return t; }
template <class T> W out(T t) { W w = 0; std::memcpy(&w, &t, sizeof t); return w; }
}
#define SET(x) x = in<std::remove_reference_t<decltype(x)>>(*w++)
#define GET(x) *w++ = out(x)
#define PAD(M) M(p.a); M(p.b); M(p.c); M(p.d); M(p.e)
void fill_pad(Pad& p, const W* w) { PAD(SET); }
void read_pad(const Pad& p, W* w) { PAD(GET); }
#define KINDS(M) M(p.col); M(p.in.a); M(p.in.b); M(p.fl); M(p.db); M(p.p); M(p.q); M(p.s); M(p.in2.a); M(p.in2.b); M(p.sc); M(p.ch); M(p.ull)
void fill_kinds(Kinds& p, const W* w) { p.f = *w++ & 1; KINDS(SET); }
void read_kinds(const Kinds& p, W* w) { GET(p.f); KINDS(GET); }
void fill_bits(Bits& p, const W* w) { SET(p.a); p.x = *w++; p.y = *w++; SET(p.b); p.z = *w++; SET(p.c); p.w = *w++; SET(p.d); }
void read_bits(const Bits& p, W* w) { GET(p.a); *w++ = p.x; *w++ = p.y; GET(p.b); *w++ = p.z; GET(p.c); *w++ = p.w; GET(p.d); }
W Priv::get() const { return (W)b << 24 | (W)in.a << 8 | in.b; }
void Priv::set(W x, W y) { b = x; in.a = y; in.b = y >> 16; }
void fill_priv(Priv& p, const W* w) { SET(p.a); SET(p.c); }
#define ARRAYS(M) M(p.a); M(p.v[0]); M(p.v[1]); M(p.v[2]); M(p.b); M(p.m[0].a); M(p.m[0].b); M(p.m[1].a); M(p.m[1].b); M(p.c)
void fill_arrays(Arrays& p, const W* w) { ARRAYS(SET); }
void read_arrays(const Arrays& p, W* w) { ARRAYS(GET); }
#define HASAL(M) M(p.x); M(p.al.a); M(p.al.b); M(p.y)
void fill_hasal(HasAl& p, const W* w) { HASAL(SET); }
void read_hasal(const HasAl& p, W* w) { HASAL(GET); }
#define HASU(M) M(p.t); M(p.u.b); M(p.z)
void fill_hasu(HasU& p, const W* w) { HASU(SET); }
void read_hasu(const HasU& p, W* w) { HASU(GET); }
void fill_upad(UPad& p, const W* w) { std::memcpy(&p, w, sizeof p); }
#define BASE1(M, x) M((x).p); M((x).q); M((x).s)
#define DER(M) BASE1(M, p); M(p.m); M(p.own); M(p.own2)
void fill_der(Der& p, const W* w) { DER(SET); }
void read_der(const Der& p, W* w) { DER(GET); }
void fill_der2(Der2& p, const W* w) { DER(SET); SET(p.last); }
void read_der2(const Der2& p, W* w) { DER(GET); GET(p.last); }
W addr_base1(const Base1& b) { return (W)&b; }
W addr_base2(const Base2& b) { return (W)&b; }
W addr_virt(const Virt& b) { return (W)&b; }
W read_base2(const Base2& b) { return b.m; }
W Virt::v() const { return n + 1; }
W VDer::v() const { return n * 2 + k; }
W read_virt(const Virt& b) { return b.v(); }
void fill_vder(VDer& p, const W* w) { SET(p.m); SET(p.n); SET(p.k); }
void read_vder(const VDer& p, W* w) { GET(p.m); GET(p.n); GET(p.k); }
void fill_eb(EmptyBase& p, const W* w) { SET(p.v); }
void fill_nua(Nua& p, const W* w) { BASE1(SET, p.b); SET(p.v); SET(p.t); }
void read_nua(const Nua& p, W* w) { BASE1(GET, p.b); GET(p.v); GET(p.t); *w++ = (W)&p.e; *w++ = (W)&p.b; }
#define KW(M) M(p.type); M(p.fn); M(p.self_); M(p.match)
void fill_kw(Keyword& p, const W* w) { KW(SET); }
void read_kw(const Keyword& p, W* w) { KW(GET); }
#define NEST(M) M(p.a); M(p.i.x); M(p.i.y); M(p.p)
void fill_nest(Nest& p, const W* w) { NEST(SET); }
void read_nest(const Nest& p, W* w) { NEST(GET); }
#define NS(M) M(p.s.a); M(p.s.b); M(p.in.a); M(p.in.b); M(p.c)
void fill_ns(ns::T2& p, const W* w) { NS(SET); }
void read_ns(const ns::T2& p, W* w) { NS(GET); }

#define O(f) offsetof(R, f)
#define L(n, T, ...) if (rec == n) { using R = T; const W l[] = {sizeof(R), alignof(R) __VA_OPT__(,) __VA_ARGS__}; return l[what]; }
W layout(int rec, int what) {
  L(0, Pad, O(a), O(b), O(c), O(d), O(e))
  L(1, Kinds, O(f), O(col), O(in), O(fl), O(db), O(p), O(q), O(s), O(in2), O(sc), O(ch), O(ull))
  L(2, Bits, O(a), O(b), O(c), O(d))
  L(3, Priv, O(a), O(c))
  L(4, Arrays, O(a), O(b), O(c))
  L(5, Al, O(a), O(b))
  L(6, HasAl, O(x), O(al), O(y))
  L(7, U, O(a), O(b), O(c), O(f), O(in))
  L(8, UPad, O(a), O(b))
  L(9, HasU, O(t), O(u), O(z))
  L(10, Base1, O(p), O(q), O(s))
  L(11, Der, O(own), O(own2))
  L(12, Der2, O(last))
  L(13, Virt, O(n))
  L(14, VDer, O(k))
  L(15, E0)
  L(16, EmptyBase, O(v))
  L(17, Nua, O(v), O(t))
  L(18, Keyword, O(type), O(fn), O(self_), O(match))
  L(19, Nest, O(a), O(i), O(p))
  L(20, Nest::Inner, O(x), O(y))
  L(21, ns::S, O(a), O(b))
  L(22, ns::T2, O(s), O(in), O(c))
  L(23, In, O(a), O(b))
  L(24, Base2, O(m))
  return ~W(0);
}
