#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::Opt<{T}>"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[repr(C)] #[derive(Clone, Copy)] pub struct Opt<T> { pub has: bool, pub value: T }
#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::Pair<{T}, {T2}>"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[repr(C)] #[derive(Clone, Copy)] pub struct Pair<T, T2> { pub first: T, pub second: T2 }
#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::Flip<{A}, {B}>"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[repr(C)] #[derive(Clone, Copy)] pub struct Flip<B, A> { pub b: B, pub a: A }
#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::Status"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[doc = "CRUBIT_ANNOTATE: specializes_cpp_type="]
pub type Status = Opt<()>;
#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::IntBool"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[doc = "CRUBIT_ANNOTATE: specializes_cpp_type="]
pub type IntBool = Pair<i32, bool>;
mod private { pub type Byte = u8; }
#[doc = "CRUBIT_ANNOTATE: cpp_type=gen::Box8"]
#[doc = "CRUBIT_ANNOTATE: include_path=gener_cc.h"]
#[doc = "CRUBIT_ANNOTATE: specializes_cpp_type="]
pub type Box8 = Opt<private::Byte>;
pub type Plain = Opt<u16>;
pub fn not_u32(o: Opt<u32>) -> Opt<u32> { Opt { has: !o.has, value: !o.value } }
pub fn not_u8(o: Opt<u8>) -> Opt<u8> { Opt { has: !o.has, value: !o.value } }
pub fn not_isize(o: Opt<isize>) -> Opt<isize> { Opt { has: !o.has, value: !o.value } }
pub fn plain(o: Plain) -> Plain { Opt { has: o.has, value: o.value ^ 1 } }
pub fn by_ref(o: &Opt<u32>) -> u32 { if o.has { o.value } else { 7 } }
pub fn by_mut(o: &mut Opt<u32>, x: u32) -> u32 { o.has = !o.has; core::mem::replace(&mut o.value, x) }
pub fn ptr_of(o: Opt<*const u32>) -> Opt<*const u32> { Opt { has: !o.has, value: o.value } }
pub fn ch(o: Opt<char>) -> Opt<char> { Opt { has: o.has, value: if o.value == 'q' { '\u{10FFFF}' } else { o.value } } }
pub fn nested(o: Opt<Opt<u8>>) -> Opt<Opt<u8>> { Opt { has: o.value.has, value: Opt { has: o.has, value: !o.value.value } } }
pub fn pair(p: Pair<u8, u32>) -> Pair<u32, u8> { Pair { first: p.second, second: p.first } }
pub fn pair_same(p: Pair<u16, u16>) -> Pair<u16, u16> { Pair { first: p.second, second: p.first } }
pub fn pair_deep(p: Pair<Opt<u8>, Pair<u8, u64>>) -> Pair<Pair<u64, u8>, Opt<u8>> { Pair { first: Pair { first: p.second.second, second: p.second.first }, second: p.first } }
pub fn pair_opt(p: Pair<Option<u8>, u16>) -> Pair<u16, Option<u8>> { Pair { first: p.second, second: p.first.map(|x| !x) } }
pub fn flip(f: Flip<u8, u64>) -> Flip<u64, u8> { Flip { b: f.a, a: f.b } }
pub fn status(s: Status) -> Opt<()> { Opt { has: !s.has, value: () } }
pub fn int_bool(p: Pair<i32, bool>) -> IntBool { Pair { first: !p.first, second: !p.second } }
pub fn bool_int(p: Pair<bool, i32>) -> IntBool { Pair { first: p.second, second: p.first } }
pub fn box8(o: Box8) -> Opt<u8> { Opt { has: !o.has, value: o.value ^ 0x55 } }
#[repr(C)] pub struct Keep { pub a: Opt<u16>, pub b: Pair<u8, u64>, pub c: IntBool, pub d: [Opt<u16>; 2] }
impl Keep { pub fn make(x: u64, f: bool) -> Keep { Keep { a: Opt { has: f, value: x as u16 }, b: Pair { first: x as u8, second: !x }, c: Pair { first: (x >> 8) as i32, second: !f }, d: [Opt { has: f, value: (x >> 16) as u16 }, Opt { has: !f, value: (x >> 32) as u16 }] } }
  pub fn sum(&self) -> u64 { (self.a.value as u64) ^ self.b.second.rotate_left(7) ^ (self.b.first as u64) << 3 ^ (self.c.first as u32 as u64) << 9 ^ (self.c.second as u64) ^ (self.d[1].value as u64) << 40 ^ (self.a.has as u64) << 63 } }
pub fn opt_of(o: Option<Pair<u8, u32>>) -> Option<Pair<u32, u8>> { o.map(pair_) }
fn pair_(p: Pair<u8, u32>) -> Pair<u32, u8> { Pair { first: p.second, second: p.first } }
pub fn tup(t: (Opt<u8>, Pair<u8, u8>)) -> (Pair<u8, u8>, Opt<u8>) { (t.1, t.0) }
pub fn slice(s: &[Pair<u8, u16>]) -> u32 { s.iter().fold(0, |h, p| h.rotate_left(5) ^ (p.first as u32) << 16 ^ p.second as u32) }
pub struct G<T> { pub t: T }
pub fn o_g(o: Option<G<u32>>) -> u32 { match o { None => 1, Some(g) => g.t } }
