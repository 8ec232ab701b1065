#include "vp.h"
#include "en.h"
#include <type_traits>
#include <utility>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int64_t i64;
template <class T> static T A() { return vp_any<T>(); }
static u64 mx(u64 h, u64 x) { return ((h << 9) | (h >> 55)) + x; }
template <class... T> static u64 mxc(u64 s, T... v) { ((s = mx(s, u64(v))), ...); return s; }
using namespace en;
#define START int heap = vp_live_heap();
#define END VP_CHECK(vp_live_heap() == heap);

// repr(C): tags and payloads are public on the C++ side.
H(repr_c_from_rust) {
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>();
  PayC e = PayC::make(k, a, b);
  switch (e.tag) {
    case PayC::Tag::A: VP_CHECK(k == 0 && e.A.__field0 == a && e.A.__field1 == b); break;
    case PayC::Tag::B: VP_CHECK(k == 1 && e.B.x == a && e.B.y == u32(b)); break;
    case PayC::Tag::C: VP_CHECK(k == 2); break;
    case PayC::Tag::D: VP_CHECK(k > 2 && e.D.__field0 == i8(a)); break;
    default: VP_CHECK(false); // VP_MAYBE
  }
  u64 c = e.code();
  VP_CHECK(std::move(e).eat() == c);
}
H(repr_c_from_cc) {
  u8 a = A<u8>(); u64 b = A<u64>(); u16 x = A<u16>(); u32 y = A<u32>();
  VP_CHECK(PayC::MakeA(a, b).code() == mxc(1, a, b));
  VP_CHECK(PayC::MakeC().code() == 3);
  VP_CHECK(PayC::MakeD(i8(a)).code() == mxc(4, i64(i8(a))));
  PayC e = PayC::MakeC();
  e.tag = PayC::Tag::B; e.B.x = x; e.B.y = y;
  VP_CHECK(e.code() == mxc(2, x, y));
  e.tag = PayC::Tag::A; e.A.__field0 = a; e.A.__field1 = b;
  VP_CHECK(e.code() == mxc(1, a, b));
  PayC f(std::move(e));
  VP_CHECK(f.tag == PayC::Tag::A && std::move(f).eat() == mxc(1, a, b));
}
H(repr_c_u8) {
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>();
  PayCU8 e = PayCU8::make(k, a, b);
  switch (e.tag) {
    case PayCU8::Tag::A: VP_CHECK(k == 0 && e.A.__field0 == a); break;
    case PayCU8::Tag::B: VP_CHECK(k == 1 && e.B.x == b); break;
    case PayCU8::Tag::C: VP_CHECK(k == 2); break;
    case PayCU8::Tag::D: VP_CHECK(k > 2 && e.D.__field0 == u32(b)); break;
    default: VP_CHECK(false); // VP_MAYBE
  }
  VP_CHECK(u8(PayCU8::Tag::B) == 200 && u8(PayCU8::Tag::C) == 201 && u8(PayCU8::Tag::D) == 7 && sizeof(e.tag) == 1);
  VP_CHECK(PayCU8::MakeA(a).code() == mxc(1, a));
  VP_CHECK(PayCU8::MakeC().code() == 3);
  VP_CHECK(PayCU8::MakeD(u32(b)).code() == mxc(4, u32(b)));
  e.tag = PayCU8::Tag::B; e.B.x = ~b;
  VP_CHECK(e.code() == mxc(2, ~b));
}
H(repr_int) {
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>(); u16 x = A<u16>(); u32 y = A<u32>();
  VP_CHECK(PayU8::MakeA(y).code() == mxc(1, y));
  VP_CHECK(PayU8::MakeC().code() == 3);
  VP_CHECK(PayU8::MakeD(x).code() == mxc(4, x));
  VP_CHECK(PayU8::make(k, a, b).code() == (k == 0 ? mxc(1, u32(b)) : k == 1 ? mxc(2, a, b, u8(~a)) : k == 2 ? 3 : mxc(4, a)));
  VP_CHECK(PayI64::MakeA(y).code() == mxc(1, y));
  VP_CHECK(PayI64::MakeB().code() == 2);
  VP_CHECK(PayI64::MakeC(b).code() == mxc(3, b));
  VP_CHECK(PayI64::make(k, b).code() == (k == 0 ? mxc(1, u32(b)) : k == 1 ? 2 : mxc(3, b)));
}
H(flat) {
  VP_CHECK(Flat16::MakeA().code() == 0 && Flat16::MakeB().code() == 500 && Flat16::MakeC().code() == 501 && Flat16::MakeD().code() == 65535);
  VP_CHECK(Flat8::MakeA().code() == 1 && Flat8::MakeB().code() == 2 && Flat8::MakeC().code() == 3 && Flat8::MakeD().code() == 4);
  VP_CHECK(FlatC::MakeA().code() == 1 && FlatC::MakeB().code() == 2 && FlatC::MakeC().code() == 3);
  VP_CHECK(int(FlatC::Tag::A) == -5 && int(FlatC::Tag::B) == -4 && int(FlatC::Tag::C) == 70000);
  VP_CHECK(RustFlat::MakeA().code() == 1 && RustFlat::MakeB().code() == 2 && RustFlat::MakeC().code() == 3);
  VP_CHECK(Big64::MakeA().code() == 1 && Big64::MakeB().code() == 2 && Big64::MakeC().code() == 3);
  u8 k = A<u8>();
  Flat16 f = Flat16::make(k), g = f;
  u64 want = k == 0 ? 0 : k == 1 ? 500 : k == 2 ? 501 : 65535;
  VP_CHECK(f.code() == want && g.eat() == want && g.eat() == want);
}
H(repr_rust) {
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>(); u32 y = A<u32>(); bool w = A<bool>();
  VP_CHECK(en::Rust::MakeA().code() == 1);
  VP_CHECK(en::Rust::MakeB(y, a).code() == mxc(2, y, a));
  VP_CHECK(en::Rust::MakeD(w).code() == mxc(4, w));
  en::Rust r = rust_back(k, y, b);
  u64 want = k == 0 ? 1 : k == 1 ? mxc(2, y, u8(b)) : k == 2 ? mxc(3, b) : mxc(4, b & 1);
  VP_CHECK(r.code() == want);
  en::Rust s(std::move(r));
  VP_CHECK(s.code() == want);
  VP_CHECK(std::move(s).eat() == want);
  VP_CHECK(Single::MakeOnly(u16(y), b).code() == mxc(1, u16(y), b));
}
static const u8 byte = 77;
H(niches) {
  u8 a = A<u8>(); u64 b = A<u64>(); u32 y = A<u32>(); bool w = A<bool>();
  VP_CHECK(NicheBool::MakeX().code() == 1 && NicheBool::MakeY().code() == 3 && NicheBool::MakeZ().code() == 4);
  VP_CHECK(NicheBool::MakeV(w).code() == mxc(2, w));
  VP_CHECK(NicheOff::MakeX().code() == 2 && NicheOff::MakeY().code() == 3);
  VP_CHECK(NicheOff::MakeV(y, w, u16(b)).code() == mxc(1, y, w, u16(b)));
  VP_CHECK(NicheTwo::MakeX().code() == 3);
  VP_CHECK(NicheTwo::MakeV(b, w).code() == mxc(1, b, w));
  VP_CHECK(NicheTwo::MakeW(a).code() == mxc(2, a));
  VP_CHECK(NicheRef::MakeX().code() == 2 && NicheRef::MakeV(&byte, u16(b)).code() == mxc(1, 77, u16(b)));
  VP_CHECK(NicheChar::MakeX().code() == 1 && NicheChar::MakeY().code() == 3);
  u32 c = A<u32>();
  auto ch = rs_std::char_::from_u32(c);
  if (ch) VP_CHECK(NicheChar::MakeV(*ch).code() == mxc(2, c));
}
H(nested_niches) {
  bool w = A<bool>(); u32 y = A<u32>();
  VP_CHECK(NicheNest::MakeX().code() == 2 && NicheNest::MakeY().code() == 3);
  VP_CHECK(NicheNest::MakeV(NicheBool::MakeX()).code() == mxc(1, 1) && NicheNest::MakeV(NicheBool::MakeZ()).code() == mxc(1, 4));
  VP_CHECK(NicheNest::MakeV(NicheBool::MakeV(w)).code() == mxc(1, mxc(2, w)));
  VP_CHECK(NicheNeg::MakeX().code() == 1 && NicheNeg::MakeY().code() == 3);
  VP_CHECK(NicheNeg::MakeV(Flat8::MakeA()).code() == mxc(2, 1) && NicheNeg::MakeV(Flat8::MakeC()).code() == mxc(2, 3) && NicheNeg::MakeV(Flat8::MakeD()).code() == mxc(2, 4));
  VP_CHECK(NicheWide::MakeX().code() == 1 && NicheWide::MakeY().code() == 3 && NicheWide::MakeZ(y).code() == mxc(4, y));
  VP_CHECK(NicheWide::MakeV(Flat16::MakeC(), y).code() == mxc(2, 501, y) && NicheWide::MakeV(Flat16::MakeD(), y).code() == mxc(2, 65535, y));
}
H(names) {
  u8 a = A<u8>(), k = A<u8>(); u32 b = A<u32>();
  VP_CHECK(union_::Makestruct_(a).code() == mxc(1, a) && union_::Makemove().code() == 2);
  VP_CHECK(KeyC::Makestruct_(a).code() == mxc(1, a) && KeyC::Makeif().code() == 2);
  KeyC e = KeyC::make(k, b);
  if (k == 0) VP_CHECK(e.tag == KeyC::Tag::struct_ && e.struct_.__field0 == u8(b));
  else if (k == 1) VP_CHECK(e.tag == KeyC::Tag::if_);
  else VP_CHECK(e.tag == KeyC::Tag::default_ && e.default_.while_ == b);
  e.tag = KeyC::Tag::default_; e.default_.while_ = ~b;
  VP_CHECK(e.code() == mxc(3, u32(~b)));
}
H(owning) {
  START
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>();
  u64 want = k == 0 ? mxc(1, u32(b), a) : k == 1 ? mxc(2, b) : 3;
  {
    Own o = Own::make(k, a, b);
    VP_CHECK(o.code() == want);
    Own p(std::move(o));
    VP_CHECK(p.code() == want && o.code() == 3);
    Own c = Own::MakeC(), d;
    VP_CHECK(c.code() == 3 && d.code() == 3);
    c = std::move(p);
    VP_CHECK(c.code() == want && p.code() == 3);
    d = Own::make(1, a, ~b);
    VP_CHECK(d.code() == mxc(2, ~b));
    VP_CHECK(std::move(c).eat() == want && c.code() == 3);
  }
  END
}
H(owning_repr_c) {
  START
  bool f = A<bool>(); u32 v = A<u32>(), x = A<u32>();
  u64 want = f ? mxc(1, v) : mxc(2, u16(v));
  {
    OwnC o = OwnC::make(f, v);
    VP_CHECK(o.code() == want && o.tag == (f ? OwnC::Tag::A : OwnC::Tag::B));
    OwnC p(o), q = OwnC::make(!f, x);
    VP_CHECK(p.code() == want && o.code() == want);
    q = o;
    VP_CHECK(q.code() == want && o.code() == want);
    if (f) VP_CHECK(q.A.__field0.val() == v);
    q = OwnC::MakeB(u16(x));
    VP_CHECK(q.code() == mxc(2, u16(x)));
    if (f) { p.A.__field0 = BoxU::make(x); VP_CHECK(p.code() == mxc(1, x)); want = mxc(1, x); }
    VP_CHECK(std::move(p).eat() == want);
  }
  END
}
H(fields_and_args) {
  u8 k = A<u8>(), a = A<u8>(); u64 b = A<u64>(); u32 y = A<u32>(); bool w = A<bool>();
  Holds h = Holds::make(k, a, b);
  u64 e = k == 0 ? mxc(1, u32(b)) : k == 1 ? mxc(2, a, b, u8(~a)) : k == 2 ? 3 : mxc(4, a), f = k == 0 ? 0 : k == 1 ? 500 : k == 2 ? 501 : 65535;
  VP_CHECK(h.k == a && h.e.code() == e && h.f.code() == f && h.r.code() == mxc(3, b));
  h.e = PayU8::MakeD(7); h.r = en::Rust::MakeB(y, a);
  VP_CHECK(h.code() == mxc(a, mxc(4, 7), f, mxc(2, y, a)));
  VP_CHECK(two(en::Rust::MakeB(y, a), NicheOff::MakeV(y, w, 3), PayC::MakeA(a, b), Flat16::MakeB()) == mxc(mxc(2, y, a), mxc(1, y, w, 3), mxc(1, a, b), 500));
}
