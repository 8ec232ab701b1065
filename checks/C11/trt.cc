#include <optional>
#include <tuple>
#include <type_traits>
#include "vp.h"
#include "trt.h"
#include "base.h"
using namespace trt;
using base::Pt;
namespace {
typedef unsigned long long W;
W mx(W h, W x) { return ((h << 9) | (h >> 55)) + x; }
template <class T> using Sh = Shape::impl<T>;
template <class T> using Ot = Other::impl<T>;
extern "C" unsigned flip(unsigned x) { return ~x; }
template <class T>
  requires(rs_std::where_v<T, Other>)
W generic(T& x, unsigned by) {
  W h = Other::impl<T>::code(x);
  h = mx(h, Other::impl<T>::scale(x, by));
  h = mx(h, Other::impl<T>::SIDES);
  return mx(h, Other::impl<T>::code(x));
}
}  // namespace
H(who) {
  using rs_std::where_v;
  VP_CHECK((where_v<P, Shape> && where_v<B, Shape> && !where_v<E, Shape> && !where_v<Pt, Shape> && !where_v<int, Shape>));
  VP_CHECK((where_v<P, Other> && !where_v<B, Other> && where_v<E, Other> && where_v<Pt, Other>));
  VP_CHECK((where_v<P, base::Far> && where_v<Pt, base::Far> && !where_v<B, base::Far> && !where_v<E, base::Far>));
  VP_CHECK((where_v<P, base::Conv<unsigned char>> && where_v<P, base::Conv<unsigned>> && where_v<P, base::Conv<P>> && !where_v<P, base::Conv<Pt>> && !where_v<P, base::Conv<unsigned short>>));
  VP_CHECK((where_v<B, base::Conv<Pt>> && where_v<B, base::Conv<B>> && !where_v<B, base::Conv<unsigned>> && where_v<Pt, base::Conv<unsigned char>> && !where_v<Pt, base::Conv<unsigned>>));
  VP_CHECK((where_v<P, Two<unsigned char, unsigned short>> && where_v<P, Two<unsigned short, unsigned char>> && !where_v<P, Two<unsigned char, unsigned char>>));
  VP_CHECK((where_v<P, Shape, Other, sub::Other2> && !where_v<B, Shape, Other> && where_v<R, Peek> && !where_v<P, Peek>));
  VP_CHECK((std::is_same_v<sub::Figure, Shape> && std::is_same_v<sub::Other, Other> && !std::is_same_v<sub::Other2, Other>));
  VP_CHECK(Sh<P>::kIsImplemented && !Sh<E>::kIsImplemented && Sh<P>::SIDES == 4 && Sh<B>::SIDES == 255 && Sh<B>::BIAS == -1 && Sh<P>::BIAS == (-9223372036854775807LL - 1));
  VP_CHECK(Ot<P>::SIDES == 40 && Ot<E>::SIDES == 41 && Ot<Pt>::SIDES == 42 && base::Far::impl<P>::K == 65535 && base::Far::impl<Pt>::K == 11);
  VP_CHECK((std::is_same_v<Sh<P>::Unit, short> && std::is_same_v<Sh<B>::Unit, std::uint64_t>));
}
H(plain) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  unsigned char t = vp_any<unsigned char>();
  P s = P::of(v, t);
  auto st = [&](W r) { return mx(mx(r, s.v), s.t); };
  auto pv = [](P m) { return mx(m.v, m.t); };
  int k = vp_pick(15);
  W want = r_p(s, k, x), got;
  switch (k) {
    case 0: got = Sh<P>::code(s); break;
    case 1: got = Sh<P>::scale(s, x); got = st(got); break;
    case 2: got = Ot<P>::code(s); break;
    case 3: got = Ot<P>::scale(s, x); got = st(got); break;
    case 4: got = pv(Sh<P>::make(x)); break;
    case 5: got = pv(Ot<P>::make(x)); break;
    case 6: got = pv(P::make(x)); break;
    case 7: got = s.code(); break;
    case 8: got = Sh<P>::eat(s); break;
    case 9: got = sub::Other2::impl<P>::code(s); break;
    case 10: { P o = P::of(x, 0); got = Sh<P>::two(s, o); break; }
    case 11: { P o = P::of(x, 0); got = pv(Sh<P>::join(s, o)); break; }
    case 12: got = base::Far::impl<P>::far(s, x); break;
    case 13: got = Sh<P>::unit(s); break;
    default: got = base::Far::impl<P>::near(); break;
  }
  VP_CHECK(got == want);
}
template <class T, class G> void shaped(T& s, unsigned v, unsigned tag, G get) {
  unsigned x = vp_any<unsigned>();
  bool b = vp_any<unsigned char>() & 1;
  unsigned char c = vp_any<unsigned char>();
  unsigned short d = vp_any<unsigned short>();
  VP_CHECK(&Sh<T>::same(s) == &s && Sh<T>::code(s) == mx(v, tag));
  std::optional<unsigned> o = Sh<T>::maybe(s, b);
  VP_CHECK(o.has_value() == b && (!b || *o == v));
  std::tuple<std::uint16_t, std::uint8_t> p = Sh<T>::pair(s, std::make_tuple(c, d));
  VP_CHECK(std::get<0>(p) == static_cast<std::uint16_t>(d ^ v) && std::get<1>(p) == (c ^ tag));
  Pt q = Sh<T>::pt(s, Pt::of(c, d));
  VP_CHECK(q.x == d && q.y == static_cast<int>(c ^ v));
  VP_CHECK(Sh<T>::hook(s, flip) == (~v ^ tag));
  VP_CHECK(static_cast<W>(Sh<T>::unit(s)) == static_cast<W>(static_cast<typename Sh<T>::Unit>(v)));
  VP_CHECK(Sh<T>::scale(s, x) == v && get(s) == ((v * x) ^ tag));
}
H(shape_p) {
  unsigned v = vp_any<unsigned>();
  P s = P::of(v, 6);
  shaped(s, v, 3, [](P& m) { return m.v; });
  VP_CHECK(s.t == 6);
}
H(shape_b) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  {
    B s = B::of(v, 6);
    shaped(s, v, 7, [](B& m) { return m.v(); });
    VP_CHECK(s.k() == 6);
    B t = Sh<B>::make(x);
    VP_CHECK(t.v() == x && t.k() == 9 && Sh<B>::two(t, s) == mx(mx(x, s.v()), 7));
    unsigned w = (x - s.v()) ^ 7;
    B u = Sh<B>::join(std::move(t), std::move(s));
    VP_CHECK(u.v() == w && u.k() == 9);
    VP_CHECK(Sh<B>::eat(std::move(u)) == mx(w, 8));
  }
  VP_CHECK(vp_live_heap() == 0);
}
H(conv) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  unsigned char t = vp_any<unsigned char>(), c = vp_any<unsigned char>();
  P s = P::of(v, t);
  VP_CHECK(base::Conv<unsigned char>::impl<P>::conv(s, c) == (c ^ 51) && base::Conv<unsigned>::impl<P>::conv(s, x) == (x ^ v ^ 52));
  P q = base::Conv<P>::impl<P>::conv(s, P::of(x, c));
  VP_CHECK(q.v == x - v && q.t == (c ^ 53));
  base::Conv<unsigned char>::impl<P>::put(s, c);
  VP_CHECK(s.t == c && s.v == v);
  base::Conv<unsigned>::impl<P>::put(s, x);
  VP_CHECK(s.t == c && s.v == x);
  base::Conv<P>::impl<P>::put(s, P::of(v, t));
  VP_CHECK(s.t == (t ^ 1) && s.v == v);
  VP_CHECK((Two<unsigned char, unsigned short>::impl<P>::mix(c, x) == mx(mx(61, c), static_cast<unsigned short>(x))));
  VP_CHECK((Two<unsigned short, unsigned char>::impl<P>::mix(x, c) == mx(mx(62, static_cast<unsigned short>(x)), c)));
  Pt f = Pt::of(v, x);
  VP_CHECK(base::Conv<unsigned char>::impl<Pt>::conv(f, c) == static_cast<unsigned char>(c + v));
  base::Conv<unsigned char>::impl<Pt>::put(f, c);
  VP_CHECK(f.x == c && f.y == static_cast<int>(x));
  VP_CHECK(base::Far::impl<Pt>::far(f, x) == static_cast<unsigned short>(x ^ c) && base::Far::impl<Pt>::near() == 1001);
}
H(owners) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  unsigned char t = vp_any<unsigned char>(), c = vp_any<unsigned char>();
  {
    B s = B::of(v, t);
    Pt f = base::Conv<Pt>::impl<B>::conv(s, Pt::of(x, c));
    VP_CHECK(f.x == static_cast<int>(c ^ v) && f.y == static_cast<int>(x));
    B u = base::Conv<B>::impl<B>::conv(s, B::of(x, c));
    VP_CHECK(u.v() == x - v && u.k() == c && s.v() == v && s.k() == t);
    base::Conv<Pt>::impl<B>::put(s, Pt::of(x, c));
    VP_CHECK(s.v() == x && s.k() == c);
    base::Conv<B>::impl<B>::put(u, std::move(s));
    VP_CHECK(u.v() == x && u.k() == c);
  }
  VP_CHECK(vp_live_heap() == 0);
}
H(generic) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  bool b = vp_any<unsigned char>() & 1;
  P s = P::of(v, 6);
  VP_CHECK(generic(s, x) == mx(mx(mx(mx(6, 21), 22), 40), mx(static_cast<unsigned char>(6 + x), 21)));
  E e = E::of(b, v);
  unsigned g = b ? v : 0xffffffffu;
  VP_CHECK(generic(e, x) == mx(mx(mx(mx(g, 31), g), 41), mx(x ? g ^ x : 0xffffffffu, 31)));
  VP_CHECK(Ot<E>::make(x).get() == x);
  Pt p = Pt::of(v, x);
  W m = Ot<Pt>::code(p);
  VP_CHECK(m == mx(static_cast<W>(static_cast<int>(v)), static_cast<W>(static_cast<int>(x))));
  VP_CHECK(Ot<Pt>::scale(p, x) == x && p.x == static_cast<int>(v * x) && p.y == static_cast<int>(x));
  Pt q = Ot<Pt>::make(v);
  VP_CHECK(q.x == static_cast<int>(v) && q.y == 0);
}
H(borrow) {
  unsigned v = vp_any<unsigned>(), x = vp_any<unsigned>();
  bool b = vp_any<unsigned char>() & 1;
  unsigned char n = vp_any<unsigned char>();
  R r = R::of(&v, n);
  using I = Peek::impl<R>;
  VP_CHECK(&I::peek(r) == &v && &I::pick(r, &x, b) == (b ? &x : &v) && I::len(r) == n);
  P s = P::of(v, n);
  VP_CHECK(Raw::impl<P>::at(s, &x) == (x ^ v));
  Raw::impl<P>::never(s);
}
