//! Defaulted type parameters, associated types in signatures, same-named super traits, names C++ has to spell
//! differently, bridged arguments and results.
#![allow(dead_code)]
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
#[derive(Clone, Copy)] pub struct S(pub u32);
impl S { pub fn of(v: u32) -> S { S(v) } pub fn a(&self) -> u32 { self.0 ^ 1 } pub fn new() -> u8 { 50 } }
#[derive(Default)] pub struct Hd(Box<u32>);
impl Hd { pub fn of(v: u32) -> Hd { Hd(Box::new(v)) } pub fn get(&self) -> u32 { *self.0 } }
pub trait Def<T = i32> { fn def(&self, t: T) -> T; }
impl Def for S { fn def(&self, t: i32) -> i32 { t ^ self.0 as i32 } }
impl Def<u8> for S { fn def(&self, t: u8) -> u8 { t.wrapping_add(self.0 as u8) } }
pub trait Pair<A, B = u16> { fn pair(&self, a: A, b: B) -> u64; }
impl Pair<u8> for S { fn pair(&self, a: u8, b: u16) -> u64 { mx(mx(self.0 as u64, a as u64), b as u64) } }
impl Pair<u8, u32> for S { fn pair(&self, a: u8, b: u32) -> u64 { mx(mx(81, b as u64), a as u64) } }
impl Pair<u16, u8> for S { fn pair(&self, a: u16, b: u8) -> u64 { mx(mx(82, a as u64), b as u64) } }
pub trait Assoc { type Out; fn out(&self) -> Self::Out; fn id(&mut self, o: Self::Out) -> Self::Out; }
impl Assoc for S { type Out = u16; fn out(&self) -> u16 { self.0 as u16 } fn id(&mut self, o: u16) -> u16 { let r = self.0; self.0 = o as u32; (r >> 16) as u16 } }
impl Assoc for Hd { type Out = S; fn out(&self) -> S { S(!*self.0) } fn id(&mut self, o: S) -> S { S(std::mem::replace(&mut *self.0, o.0)) } }
pub trait Sup { fn a(&self) -> u32; fn z(&self) -> u32; }
pub trait Sub: Sup { fn a(&self) -> u32; }
impl Sup for S { fn a(&self) -> u32 { self.0 ^ 2 } fn z(&self) -> u32 { Sub::a(self) ^ 8 } }
impl Sub for S { fn a(&self) -> u32 { self.0 ^ 4 } }
impl Sup for Hd { fn a(&self) -> u32 { *self.0 ^ 16 } fn z(&self) -> u32 { *self.0 ^ 32 } }
pub trait Io {
    fn o(&self, b: bool) -> Option<u32>; fn i(&self, x: Option<u32>) -> u32; fn t(&self, x: (u8, u32)) -> (u32, u8); fn s(&self, s: &str) -> u64;
    fn l(&self, s: &[u16]) -> u64; fn h(self, o: Hd) -> Hd; fn c(&self, f: extern "C" fn(u32) -> u32) -> u32;
}
impl Io for S {
    fn o(&self, b: bool) -> Option<u32> { if b { Some(self.0) } else { None } }
    fn i(&self, x: Option<u32>) -> u32 { x.unwrap_or(self.0) }
    fn t(&self, x: (u8, u32)) -> (u32, u8) { (x.1 ^ self.0, !x.0) }
    fn s(&self, s: &str) -> u64 { s.bytes().fold(self.0 as u64, |h, b| mx(h, b as u64)) }
    fn l(&self, s: &[u16]) -> u64 { s.iter().fold(self.0 as u64, |h, b| mx(h, *b as u64)) }
    fn h(self, mut o: Hd) -> Hd { *o.0 ^= self.0; o }
    fn c(&self, f: extern "C" fn(u32) -> u32) -> u32 { f(self.0) ^ 3 }
}
pub trait Words { fn r#type(&self) -> u32; fn new() -> u8; fn drop(&self) -> u32; fn operator(&self, and: u32) -> u32; fn default() -> u32; fn clone(&self) -> u32; }
impl Words for S {
    fn r#type(&self) -> u32 { self.0 ^ 91 } fn new() -> u8 { 92 } fn drop(&self) -> u32 { self.0 ^ 93 } fn operator(&self, and: u32) -> u32 { self.0 & and } fn default() -> u32 { 95 }
    fn clone(&self) -> u32 { self.0 ^ 96 }
}
/// The type itself as the argument, next to the default.
pub trait Tag<T = i32> { fn tag(&self) -> u32; }
impl Tag for S { fn tag(&self) -> u32 { self.0 ^ 101 } }
impl Tag<S> for S { fn tag(&self) -> u32 { self.0 ^ 102 } }
impl Tag<Hd> for S { fn tag(&self) -> u32 { self.0 ^ 103 } }
impl Tag<S> for Hd { fn tag(&self) -> u32 { *self.0 ^ 104 } }
