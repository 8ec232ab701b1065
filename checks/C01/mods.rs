#![allow(private_interfaces)]
#![feature(never_type)]
// One name, several functions.
pub fn same(x: u32) -> u32 { x ^ 1 }
pub mod m1 { pub fn same(x: u32) -> u32 { x ^ 2 } pub mod m1 { pub fn same(x: u32) -> u32 { x ^ 3 } pub fn up(x: u32) -> u32 { super::same(x) ^ super::super::same(x) } } }
pub mod m2 { pub fn same(x: u32) -> u32 { x ^ 4 } pub mod m1 { pub fn same(x: u32) -> u32 { x ^ 5 } pub struct S { pub a: u32 } impl S { pub fn same(x: u32) -> u32 { x ^ 6 } pub fn of(a: u32) -> S { S { a } } } } }
// Names swapped on the way out.
mod hidden { pub fn f(x: u32) -> u32 { x.wrapping_add(1) } pub fn g(x: u32) -> u32 { x.wrapping_mul(3) }
  pub struct T { pub a: u32, b: u8 } impl T { pub fn make(a: u32, b: u8) -> T { T { a, b } } pub fn both(&self) -> u32 { self.a ^ ((self.b as u32) << 9) } pub fn put(&mut self, b: u8) { self.b = b } }
  pub struct U { pub a: u32, pub b: u8 } impl U { pub fn make(a: u32, b: u8) -> U { U { a: !a, b } } pub fn both(&self) -> u32 { self.a.wrapping_sub(self.b as u32) } }
  pub enum E { A(u8), B(u32) } impl E { pub fn of(x: u32) -> E { if x < 100 { E::A(x as u8) } else { E::B(x) } } pub fn code(&self) -> u64 { match self { E::A(x) => *x as u64, E::B(x) => (*x as u64) << 32 } } }
  pub const C: u32 = 11; pub const D: u32 = 12; pub const LONG: i64 = -5; pub const TEXT: &str = "h\u{e9}\n"; pub type W8 = u8; pub type W16 = u16; pub type Ref<'a> = &'a u32; pub type Arr = [u16; 3];
}
pub use hidden::f as g;
pub use hidden::g as f;
pub use hidden::T as U;
pub use hidden::U as T;
pub use hidden::E;
pub use hidden::C as D;
pub use hidden::D as C;
pub use hidden::LONG as SHORT;
pub use hidden::TEXT as WORDS;
pub use hidden::W8 as W16;
pub use hidden::W16 as W8;
pub use hidden::Arr as Trio;
pub use hidden::T as AlsoT;
pub fn widths(a: W16, b: W8) -> u32 { a as u32 | (b as u32) << 8 }
pub type Alias = hidden::T;
pub type AliasOfAlias = Alias;
pub use Alias as Alias3;
pub fn take_t(t: hidden::T) -> u32 { t.both() }
pub fn take_u(u: hidden::U) -> u32 { u.both() }
pub fn give(a: Alias) -> AlsoT { hidden::T::make(!a.a, 1) }
// Everything of a module, but for what is named here.
mod glob { pub fn one(x: u32) -> u32 { x ^ 31 } pub fn two(x: u32) -> u32 { x ^ 32 } pub struct G { pub z: u32 } impl G { pub fn z2(&self) -> u32 { self.z ^ 2 } pub fn make(z: u32) -> G { G { z } } } fn three() -> u32 { 0 } pub fn four(x: u32) -> u32 { x ^ three() ^ 34 } }
pub use glob::*;
pub fn two(x: u32) -> u32 { x ^ 42 }
pub mod outer { pub use super::glob::two as same; mod inner { pub mod in2 { pub fn deep(x: u32) -> u32 { x ^ 51 } pub struct Dp { pub a: u16 } impl Dp { pub fn of(a: u16) -> Dp { Dp { a } } pub fn g(&self) -> u16 { !self.a } } } } pub use inner::in2; pub use inner::in2::deep as deeper; }
pub mod chain { pub mod a { pub use super::b::step; } pub mod b { pub use super::c::step; } pub mod c { pub fn step(x: u32) -> u32 { x ^ 61 } } pub use a::step as last; }
// From another crate.
pub use ext::Q;
pub use ext::Q as Q2;
pub use ext::same as ext_same;
pub use ext::deep::shallow;
pub use ext::er::R;
pub fn q_of(v: u32) -> Q { Q::make(v, 3) }
pub fn q_get(q: &ext::Q, x: u32) -> u32 { q.get(x) ^ 1 }
pub fn r_sum(r: R) -> u32 { r.sum() ^ 2 }
// Functions in impl blocks spread over modules.
pub struct Spread { pub a: u32 }
impl Spread { pub fn of(a: u32) -> Spread { Spread { a } } pub fn top(&self) -> u32 { self.a ^ 71 } }
pub mod elsewhere { impl super::Spread { pub fn side(&self) -> u32 { self.a ^ 72 } } mod deeper { impl super::super::Spread { pub fn bottom(&mut self, x: u32) -> u32 { core::mem::replace(&mut self.a, x) ^ 73 } } } }
// A function local to a body and a const of a module.
pub mod consts { pub const W: u64 = (1 << 40) + 3; pub mod w2 { pub const W: u64 = super::W * 2; } pub use w2::W as W3; }
pub fn local(x: u32) -> u32 { fn same(x: u32) -> u32 { x ^ 81 } struct S(u32); impl S { fn g(&self) -> u32 { same(self.0) } } S(x).g() }
