//! Traits and their implementations.
use base::{Conv, Far, Pt};
pub(crate) fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
/// Two traits with the same method names, also inherent ones.
pub trait Shape {
    const SIDES: u8;
    const BIAS: i64;
    type Unit;
    fn code(&self) -> u64;
    fn scale(&mut self, by: u32) -> u32;
    fn unit(&self) -> Self::Unit;
    fn make(v: u32) -> Self;
    fn eat(self) -> u64;
    fn same(&self) -> &Self;
    fn two(&self, o: &Self) -> u64;
    fn join(self, o: Self) -> Self;
    fn maybe(&self, b: bool) -> Option<u32>;
    fn pair(&self, x: (u8, u16)) -> (u16, u8);
    fn pt(&self, p: Pt) -> Pt;
    fn twice(&self) -> u64 { self.code().wrapping_mul(2) }
    fn hook(&self, f: extern "C" fn(u32) -> u32) -> u32;
}
pub trait Other {
    const SIDES: u8;
    fn code(&self) -> u64;
    fn scale(&mut self, by: u32) -> u32;
    fn make(v: u32) -> Self;
}
/// Plain.
#[derive(Clone, Copy)]
pub struct P { pub v: u32, pub t: u8 }
impl P { pub fn of(v: u32, t: u8) -> P { P { v, t } } pub fn code(&self) -> u64 { 5 } pub fn make(v: u32) -> P { P { v: !v, t: 1 } } }
/// Owns memory, and is not copied.
pub struct B { b: Box<u32>, k: u8 }
impl B { pub fn of(v: u32, k: u8) -> B { B { b: Box::new(v), k } } pub fn v(&self) -> u32 { *self.b } pub fn k(&self) -> u8 { self.k } }
impl Default for B { fn default() -> B { B { b: Box::new(1), k: 1 } } }
macro_rules! shape { ($T:ident, $sides:expr, $bias:expr, $U:ident, |$s:ident| $get:expr, |$m:ident, $n:ident| $set:expr, |$v:ident| $new:expr, $tag:expr) => {
    impl Shape for $T {
        const SIDES: u8 = $sides;
        const BIAS: i64 = $bias;
        type Unit = $U;
        fn code(&self) -> u64 { let $s = self; mx($get as u64, $tag) }
        fn scale(&mut self, by: u32) -> u32 { let $s = &*self; let old = $get; let $n = old.wrapping_mul(by) ^ $tag; let $m = self; $set; old }
        fn unit(&self) -> $U { let $s = self; $get as $U }
        fn make($v: u32) -> Self { $new }
        fn eat(self) -> u64 { let $s = &self; mx($get as u64, $tag + 1) }
        fn same(&self) -> &Self { self }
        fn two(&self, o: &Self) -> u64 { let $s = self; let a = $get; let $s = o; mx(mx(a as u64, $get as u64), $tag) }
        fn join(self, o: Self) -> Self { let $s = &self; let a = $get; let $s = &o; let $v = a.wrapping_sub($get) ^ $tag; $new }
        fn maybe(&self, b: bool) -> Option<u32> { let $s = self; if b { Some($get) } else { None } }
        fn pair(&self, x: (u8, u16)) -> (u16, u8) { let $s = self; (x.1 ^ $get as u16, x.0 ^ $tag) }
        fn pt(&self, p: Pt) -> Pt { let $s = self; Pt { x: p.y, y: p.x ^ $get as i32 } }
        fn hook(&self, f: extern "C" fn(u32) -> u32) -> u32 { let $s = self; f($get) ^ $tag }
    }
} }
shape!(P, 4, i64::MIN, i16, |s| s.v, |m, n| m.v = n, |v| P { v, t: 8 }, 3);
shape!(B, 255, -1, u64, |s| *s.b, |m, n| *m.b = n, |v| B { b: Box::new(v), k: 9 }, 7);
impl Other for P {
    const SIDES: u8 = 40;
    fn code(&self) -> u64 { mx(self.t as u64, 21) }
    fn scale(&mut self, by: u32) -> u32 { self.t = self.t.wrapping_add(by as u8); 22 }
    fn make(v: u32) -> P { P { v: v ^ 23, t: v as u8 } }
}
/// Only one trait; an enum with data.
#[derive(Clone, Copy)]
#[repr(C)]
pub enum E { A, V(u32) }
impl E { pub fn of(b: bool, v: u32) -> E { if b { E::V(v) } else { E::A } } pub fn get(&self) -> u32 { match self { E::A => 0xffff_ffff, E::V(v) => *v } } }
impl Other for E {
    const SIDES: u8 = 41;
    fn code(&self) -> u64 { mx(self.get() as u64, 31) }
    fn scale(&mut self, by: u32) -> u32 { let o = self.get(); *self = if by == 0 { E::A } else { E::V(o ^ by) }; o }
    fn make(v: u32) -> E { E::V(v) }
}
/// The same generic trait at several types.
impl Conv<u8> for P { fn conv(&self, x: u8) -> u8 { x ^ 51 } fn put(&mut self, x: u8) { self.t = x } }
impl Conv<u32> for P { fn conv(&self, x: u32) -> u32 { x ^ self.v ^ 52 } fn put(&mut self, x: u32) { self.v = x } }
impl Conv<P> for P { fn conv(&self, x: P) -> P { P { v: x.v.wrapping_sub(self.v), t: x.t ^ 53 } } fn put(&mut self, x: P) { *self = P { v: x.v, t: x.t ^ 1 } } }
impl Conv<Pt> for B { fn conv(&self, x: Pt) -> Pt { Pt { x: x.y ^ *self.b as i32, y: x.x } } fn put(&mut self, x: Pt) { *self.b = x.x as u32; self.k = x.y as u8 } }
impl Conv<B> for B { fn conv(&self, x: B) -> B { B { b: Box::new(x.b.wrapping_sub(*self.b)), k: x.k } } fn put(&mut self, x: B) { *self = x } }
pub trait Two<A, B> { fn mix(a: A, b: B) -> u64; }
impl Two<u8, u16> for P { fn mix(a: u8, b: u16) -> u64 { mx(mx(61, a as u64), b as u64) } }
impl Two<u16, u8> for P { fn mix(a: u16, b: u8) -> u64 { mx(mx(62, a as u64), b as u64) } }
/// A trait of the other crate, for a type of this one.
impl Far for P { const K: u16 = 65535; fn far(&self, x: u16) -> u16 { x.wrapping_sub(self.v as u16) } fn near() -> u16 { 1002 } }
/// A trait of this crate for a type of the other.
impl Other for Pt {
    const SIDES: u8 = 42;
    fn code(&self) -> u64 { mx(self.x as u64, self.y as u64) }
    fn scale(&mut self, by: u32) -> u32 { self.x = self.x.wrapping_mul(by as i32); self.y as u32 }
    fn make(v: u32) -> Pt { Pt { x: v as i32, y: 0 } }
}
pub mod sub {
    pub use super::Shape as Figure;
    pub use super::Other;
    pub trait Other2 { fn code(&self) -> u64; }
    impl Other2 for super::P { fn code(&self) -> u64 { super::mx(self.v as u64, 71) } }
}
/// Borrowing types and methods.
pub struct R<'a> { r: &'a u32, n: u8 }
impl<'a> R<'a> { pub fn of(r: &'a u32, n: u8) -> R<'a> { R { r, n } } }
pub trait Peek<'a> { fn peek(&self) -> &'a u32; fn pick(&self, o: &'a u32, b: bool) -> &'a u32; fn len(&self) -> u8; }
impl<'a> Peek<'a> for R<'a> { fn peek(&self) -> &'a u32 { self.r } fn pick(&self, o: &'a u32, b: bool) -> &'a u32 { if b { o } else { self.r } } fn len(&self) -> u8 { self.n } }
pub trait Raw { unsafe fn at(&self, p: *const u32) -> u32; fn never(&self); }
impl Raw for P { unsafe fn at(&self, p: *const u32) -> u32 { unsafe { *p ^ self.v } } fn never(&self) {} }
/// What the methods give when Rust calls them.
pub fn r_p(s: P, k: u8, x: u32) -> u64 {
    let mut s = s;
    match k {
        0 => Shape::code(&s), 1 => { let r = Shape::scale(&mut s, x); mx(mx(r as u64, s.v as u64), s.t as u64) }
        2 => Other::code(&s), 3 => { let r = Other::scale(&mut s, x); mx(mx(r as u64, s.v as u64), s.t as u64) }
        4 => { let m = <P as Shape>::make(x); mx(m.v as u64, m.t as u64) } 5 => { let m = <P as Other>::make(x); mx(m.v as u64, m.t as u64) }
        6 => { let m = P::make(x); mx(m.v as u64, m.t as u64) } 7 => s.code(), 8 => s.eat(), 9 => sub::Other2::code(&s),
        10 => s.two(&P { v: x, t: 0 }), 11 => { let m = s.join(P { v: x, t: 0 }); mx(m.v as u64, m.t as u64) }
        12 => s.far(x as u16) as u64, 13 => s.unit() as u64, _ => <P as Far>::near() as u64,
    }
}
