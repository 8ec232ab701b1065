//! Enums whose values C++ builds, passes and inspects.
#![allow(unused, non_camel_case_types)]
pub(crate) fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }

#[repr(C)]
pub enum PayC { A(u8, u64), B { x: u16, y: u32 }, C, D(i8) }
impl PayC {
    pub fn code(&self) -> u64 { match self { PayC::A(a, b) => mx(mx(1, *a as u64), *b), PayC::B { x, y } => mx(mx(2, *x as u64), *y as u64), PayC::C => 3, PayC::D(d) => mx(4, *d as u64) } }
    pub fn make(k: u8, a: u8, b: u64) -> Self { match k { 0 => PayC::A(a, b), 1 => PayC::B { x: a as u16, y: b as u32 }, 2 => PayC::C, _ => PayC::D(a as i8) } }
    pub fn eat(self) -> u64 { self.code() }
}
#[repr(C, u8)]
pub enum PayCU8 { A(u8), B { x: u64 } = 200, C, D(u32) = 7 }
impl PayCU8 {
    pub fn code(&self) -> u64 { match self { PayCU8::A(a) => mx(1, *a as u64), PayCU8::B { x } => mx(2, *x), PayCU8::C => 3, PayCU8::D(d) => mx(4, *d as u64) } }
    pub fn make(k: u8, a: u8, b: u64) -> Self { match k { 0 => PayCU8::A(a), 1 => PayCU8::B { x: b }, 2 => PayCU8::C, _ => PayCU8::D(b as u32) } }
}
#[repr(u8)]
pub enum PayU8 { A(u32), B { x: u8, y: u64, z: u8 }, C, D(u16) = 254 }
impl PayU8 {
    pub fn code(&self) -> u64 { match self { PayU8::A(a) => mx(1, *a as u64), PayU8::B { x, y, z } => mx(mx(mx(2, *x as u64), *y), *z as u64), PayU8::C => 3, PayU8::D(d) => mx(4, *d as u64) } }
    pub fn make(k: u8, a: u8, b: u64) -> Self { match k { 0 => PayU8::A(b as u32), 1 => PayU8::B { x: a, y: b, z: !a }, 2 => PayU8::C, _ => PayU8::D(a as u16) } }
}
#[repr(i64)]
pub enum PayI64 { A(u32) = -2, B, C(i64) = 1 << 40 }
impl PayI64 {
    pub fn code(&self) -> u64 { match self { PayI64::A(a) => mx(1, *a as u64), PayI64::B => 2, PayI64::C(d) => mx(3, *d as u64) } }
    pub fn make(k: u8, b: u64) -> Self { match k { 0 => PayI64::A(b as u32), 1 => PayI64::B, _ => PayI64::C(b as i64) } }
}
#[repr(u16)]
#[derive(Clone, Copy)]
pub enum Flat16 { A, B = 500, C, D = 65535 }
impl Flat16 { pub fn code(&self) -> u64 { *self as u64 } pub fn make(k: u8) -> Self { match k { 0 => Flat16::A, 1 => Flat16::B, 2 => Flat16::C, _ => Flat16::D } } pub fn eat(self) -> u64 { self as u64 } }
#[repr(i8)]
#[derive(Clone, Copy)]
pub enum Flat8 { A = -128, B = -1, C, D = 127 }
impl Flat8 { pub fn code(&self) -> u64 { match self { Flat8::A => 1, Flat8::B => 2, Flat8::C => 3, Flat8::D => 4 } } }
#[repr(C)]
pub enum FlatC { A = -5, B, C = 70000 }
impl FlatC { pub fn code(&self) -> u64 { match self { FlatC::A => 1, FlatC::B => 2, FlatC::C => 3 } } }
/// Layout chosen by rustc.
pub enum Rust { A, B(u32, u8), C { x: u64 }, D(bool) }
impl Rust { pub fn code(&self) -> u64 { match self { Rust::A => 1, Rust::B(a, b) => mx(mx(2, *a as u64), *b as u64), Rust::C { x } => mx(3, *x), Rust::D(b) => mx(4, *b as u64) } } pub fn eat(self) -> u64 { self.code() } }
pub enum RustFlat { A, B, C }
impl RustFlat { pub fn code(&self) -> u64 { match self { RustFlat::A => 1, RustFlat::B => 2, RustFlat::C => 3 } } }
/// Niche in a bool.
#[derive(Clone, Copy)]
pub enum NicheBool { X, V(bool), Y, Z }
impl NicheBool { pub fn code(&self) -> u64 { match self { NicheBool::X => 1, NicheBool::V(b) => mx(2, *b as u64), NicheBool::Y => 3, NicheBool::Z => 4 } } }
/// Niche at a non-zero offset.
pub enum NicheOff { V(u32, bool, u16), X, Y }
impl NicheOff { pub fn code(&self) -> u64 { match self { NicheOff::V(a, b, c) => mx(mx(mx(1, *a as u64), *b as u64), *c as u64), NicheOff::X => 2, NicheOff::Y => 3 } } }
/// Niche with a second data-carrying variant.
pub enum NicheTwo { V(u64, bool), W(u8), X }
impl NicheTwo { pub fn code(&self) -> u64 { match self { NicheTwo::V(a, b) => mx(mx(1, *a), *b as u64), NicheTwo::W(a) => mx(2, *a as u64), NicheTwo::X => 3 } } }
pub enum NicheRef { V(&'static u8, u16), X }
impl NicheRef { pub fn code(&self) -> u64 { match self { NicheRef::V(p, a) => mx(mx(1, **p as u64), *a as u64), NicheRef::X => 2 } } }
pub enum NicheChar { X, V(char), Y }
impl NicheChar { pub fn code(&self) -> u64 { match self { NicheChar::X => 1, NicheChar::V(c) => mx(2, *c as u64), NicheChar::Y => 3 } } }
/// Niche inside a niche; and niche before the start of the tag's range.
pub enum NicheNest { V(NicheBool), X, Y }
impl NicheNest { pub fn code(&self) -> u64 { match self { NicheNest::V(n) => mx(1, n.code()), NicheNest::X => 2, NicheNest::Y => 3 } } }
pub enum NicheNeg { X, V(Flat8), Y }
impl NicheNeg { pub fn code(&self) -> u64 { match self { NicheNeg::X => 1, NicheNeg::V(n) => mx(2, n.code()), NicheNeg::Y => 3 } } }
pub enum NicheWide { X, V(Flat16, u32), Y, Z(u32) }
impl NicheWide { pub fn code(&self) -> u64 { match self { NicheWide::X => 1, NicheWide::V(n, a) => mx(mx(2, n.code()), *a as u64), NicheWide::Y => 3, NicheWide::Z(a) => mx(4, *a as u64) } } }
pub enum Single { Only(u16, u64) }
impl Single { pub fn code(&self) -> u64 { match self { Single::Only(a, b) => mx(mx(1, *a as u64), *b) } } }
#[repr(u64)]
pub enum Big64 { A = 0, B = u64::MAX, C = 1 << 63 }
impl Big64 { pub fn code(&self) -> u64 { match self { Big64::A => 1, Big64::B => 2, Big64::C => 3 } } }
pub enum r#union { r#struct(u8), r#move, class { r#for: u16 } }
impl r#union { pub fn code(&self) -> u64 { match self { r#union::r#struct(a) => mx(1, *a as u64), r#union::r#move => 2, r#union::class { r#for } => mx(3, *r#for as u64) } } }
#[repr(C)]
pub enum KeyC { r#struct(u8), r#if, default { r#while: u32 } }
impl KeyC { pub fn code(&self) -> u64 { match self { KeyC::r#struct(a) => mx(1, *a as u64), KeyC::r#if => 2, KeyC::default { r#while } => mx(3, *r#while as u64) } }
    pub fn make(k: u8, b: u32) -> Self { match k { 0 => KeyC::r#struct(b as u8), 1 => KeyC::r#if, _ => KeyC::default { r#while: b } } } }
/// Owning payloads.
#[derive(Default)]
pub enum Own { A(Box<u32>, u8), B { x: Box<u64> }, #[default] C }
impl Own { pub fn code(&self) -> u64 { match self { Own::A(a, b) => mx(mx(1, **a as u64), *b as u64), Own::B { x } => mx(2, **x), Own::C => 3 } }
    pub fn make(k: u8, a: u8, b: u64) -> Self { match k { 0 => Own::A(Box::new(b as u32), a), 1 => Own::B { x: Box::new(b) }, _ => Own::C } } pub fn eat(self) -> u64 { self.code() } }
#[repr(C)]
#[derive(Clone)]
pub enum OwnC { A(BoxU), B(u16) }
#[derive(Clone)]
pub struct BoxU { b: Box<u32> }
impl BoxU { pub fn make(v: u32) -> Self { BoxU { b: Box::new(v) } } pub fn val(&self) -> u32 { *self.b } }
impl OwnC { pub fn code(&self) -> u64 { match self { OwnC::A(a) => mx(1, *a.b as u64), OwnC::B(b) => mx(2, *b as u64) } }
    pub fn make(first: bool, v: u32) -> Self { if first { OwnC::A(BoxU::make(v)) } else { OwnC::B(v as u16) } } pub fn eat(self) -> u64 { self.code() } }
pub struct Holds { pub k: u8, pub e: PayU8, pub f: Flat16, pub r: Rust }
impl Holds { pub fn make(k: u8, a: u8, b: u64) -> Self { Holds { k: a, e: PayU8::make(k, a, b), f: Flat16::make(k), r: Rust::C { x: b } } }
    pub fn code(&self) -> u64 { mx(mx(mx(self.k as u64, self.e.code()), self.f.code()), self.r.code()) } }
#[repr(transparent)]
pub struct Color(i32);
impl Color { pub const RED: Color = Color(0); pub const BLUE: Color = Color(-2); }
#[repr(transparent)]
pub struct Old(u8);
impl Old { pub const ONE: Old = Old(1); pub const TOP: Old = Old(255); }
pub fn color(c: Color, o: Old) -> u64 { mx(c.0 as u32 as u64, o.0 as u64) }
pub fn color_back(v: i32) -> Color { Color(v) }
pub fn old_back(v: u8) -> Old { Old(v) }
pub fn two(a: Rust, b: NicheOff, c: PayC, d: Flat16) -> u64 { mx(mx(mx(a.code(), b.code()), c.code()), d.code()) }
pub fn rust_back(k: u8, a: u32, b: u64) -> Rust { match k { 0 => Rust::A, 1 => Rust::B(a, b as u8), 2 => Rust::C { x: b }, _ => Rust::D(b & 1 == 1) } }
