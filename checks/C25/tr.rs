//! Operator, comparison, conversion and iteration traits called from C++.
use std::cmp::Ordering;
use std::ops::*;
pub(crate) fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
/// Every operator leaves its own tag and an argument-order-sensitive value.
#[derive(Copy, Clone)]
pub struct N { pub v: u32, pub t: u8 }
impl N { pub fn make(v: u32, t: u8) -> Self { N { v, t } } }
macro_rules! op { ($tr:ident $f:ident $atr:ident $af:ident $tag:expr) => {
    impl $tr for N { type Output = N; fn $f(self, o: N) -> N { N { v: self.v.wrapping_mul(3).wrapping_add(o.v) ^ $tag, t: self.t ^ o.t ^ $tag } } }
    impl $atr for N { fn $af(&mut self, o: N) { self.v = self.v.wrapping_mul(5).wrapping_sub(o.v) ^ $tag; self.t = $tag ^ o.t } }
} }
op!(Add add AddAssign add_assign 1);
op!(Sub sub SubAssign sub_assign 2);
op!(Mul mul MulAssign mul_assign 3);
op!(Div div DivAssign div_assign 4);
op!(Rem rem RemAssign rem_assign 5);
op!(BitAnd bitand BitAndAssign bitand_assign 6);
op!(BitOr bitor BitOrAssign bitor_assign 7);
op!(BitXor bitxor BitXorAssign bitxor_assign 8);
op!(Shl shl ShlAssign shl_assign 9);
op!(Shr shr ShrAssign shr_assign 10);
impl Neg for N { type Output = N; fn neg(self) -> N { N { v: self.v ^ 0x11, t: self.t ^ 11 } } }
impl Not for N { type Output = N; fn not(self) -> N { N { v: self.v ^ 0x12, t: self.t ^ 12 } } }
/// Operators with other right-hand and result types, on owners.
pub struct B { b: Box<u32>, k: u8 }
impl Default for B { fn default() -> Self { B { b: Box::new(77), k: 0 } } }
impl B { pub fn make(v: u32, k: u8) -> Self { B { b: Box::new(v), k } } pub fn code(&self) -> u64 { mx(*self.b as u64, self.k as u64) } }
impl Add for B { type Output = B; fn add(self, o: B) -> B { B { b: Box::new(self.b.wrapping_sub(*o.b)), k: self.k ^ 1 } } }
impl Sub<u16> for B { type Output = u64; fn sub(self, o: u16) -> u64 { mx(self.code(), o as u64) } }
impl Sub<bool> for B { type Output = B; fn sub(self, o: bool) -> B { if o { B::make(1, 2) } else { self } } }
impl Mul<&B> for B { type Output = B; fn mul(self, o: &B) -> B { B { b: Box::new(self.b.wrapping_sub(*o.b)), k: o.k } } }
impl AddAssign<u32> for B { fn add_assign(&mut self, o: u32) { *self.b = self.b.wrapping_add(o) } }
impl SubAssign<B> for B { fn sub_assign(&mut self, o: B) { *self.b = self.b.wrapping_sub(*o.b); self.k = o.k } }
impl Not for B { type Output = bool; fn not(self) -> bool { *self.b == 0 } }
impl Neg for B { type Output = i64; fn neg(self) -> i64 { -(*self.b as i64) } }
impl Shl<i8> for N { type Output = i64; fn shl(self, o: i8) -> i64 { (self.v as i64) * 256 + o as i64 } }
impl Div<(u8, u16)> for N { type Output = u64; fn div(self, o: (u8, u16)) -> u64 { mx(mx(self.v as u64, o.0 as u64), o.1 as u64) } }
/// Indexing.
pub struct Arr { a: [u32; 4], z: u32 }
impl Arr { pub fn make(a: u32, b: u32, c: u32, d: u32) -> Self { Arr { a: [a, b, c, d], z: 9 } } pub fn sum(&self) -> u64 { let mut h = 0; for x in self.a { h = mx(h, x as u64) } mx(h, self.z as u64) } }
#[derive(Copy, Clone)]
pub struct Ix(pub u8);
impl Index<usize> for Arr { type Output = u32; fn index(&self, i: usize) -> &u32 { &self.a[i & 3] } }
impl IndexMut<usize> for Arr { fn index_mut(&mut self, i: usize) -> &mut u32 { &mut self.a[i & 3] } }
impl Index<Ix> for Arr { type Output = u32; fn index(&self, i: Ix) -> &u32 { if i.0 > 3 { &self.z } else { &self.a[3 - i.0 as usize] } } }
impl IndexMut<Ix> for Arr { fn index_mut(&mut self, i: Ix) -> &mut u32 { if i.0 > 3 { &mut self.z } else { &mut self.a[3 - i.0 as usize] } } }
/// Comparison: a total order that is not the derived one, equality consistent with it.
#[derive(Copy, Clone)]
pub struct O { pub a: u8, pub b: i16 }
impl PartialEq for O { fn eq(&self, o: &O) -> bool { self.b == o.b && self.a & 0x7f == o.a & 0x7f } }
impl Eq for O {}
impl O { pub fn make(a: u8, b: i16) -> Self { O { a, b } } }
impl P { pub fn make(m: u8, x: u8) -> Self { P { m, x } } }
impl F { pub fn make(f: f32) -> Self { F { f } } }
impl Cv { pub fn make(v: i32) -> Self { Cv { v } } }
impl PartialOrd for O { fn partial_cmp(&self, o: &O) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for O { fn cmp(&self, o: &O) -> Ordering { o.b.cmp(&self.b).then((self.a & 0x7f).cmp(&(o.a & 0x7f))) } }
pub fn o_cmp(a: &O, b: &O) -> i8 { a.cmp(b) as i8 }
/// Partial order; equality against another type.
#[derive(Copy, Clone)]
pub struct P { pub m: u8, pub x: u8 }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) } }
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { if self.m & 1 == 1 || o.m & 1 == 1 { None } else { Some(self.x.cmp(&o.x)) } } }
impl PartialEq<u16> for P { fn eq(&self, o: &u16) -> bool { (self.x as u16) << 8 | self.m as u16 == *o } }
impl PartialEq<B> for P { fn eq(&self, o: &B) -> bool { self.x as u32 == *o.b } }
pub fn p_cmp(a: &P, b: &P) -> i8 { match a.partial_cmp(b) { None => 5, Some(o) => o as i8 } }
#[derive(Copy, Clone, PartialEq, PartialOrd)]
pub struct F { pub f: f32 }
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct BO { b: Box<i8> }
impl BO { pub fn make(v: i8) -> Self { BO { b: Box::new(v) } } }
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum E3 { A, B(u8), C(i8) }
impl E3 { pub fn make(k: u8, v: u8) -> Self { match k { 0 => E3::A, 1 => E3::B(v), _ => E3::C(v as i8) } } pub fn cm(&self, o: &E3) -> i8 { self.cmp(o) as i8 } }
/// Conversions.
#[derive(Copy, Clone)]
pub struct Cv { pub v: i32 }
impl From<Cv> for i64 { fn from(c: Cv) -> i64 { c.v as i64 * 3 } }
impl From<Cv> for u8 { fn from(c: Cv) -> u8 { c.v as u8 ^ 0x5a } }
impl From<Cv> for N { fn from(c: Cv) -> N { N { v: c.v as u32, t: 44 } } }
impl From<u16> for Cv { fn from(x: u16) -> Cv { Cv { v: -(x as i32) } } }
pub struct Own { b: Box<u32>, k: u8 }
impl Default for Own { fn default() -> Self { Own { b: Box::new(78), k: 9 } } }
impl Own { pub fn code(&self) -> u64 { mx(*self.b as u64, self.k as u64) } }
impl From<B> for Own { fn from(b: B) -> Own { Own { k: b.k, b: b.b } } }
impl From<u32> for Own { fn from(v: u32) -> Own { Own { k: 200, b: Box::new(v) } } }
impl From<Own> for u64 { fn from(o: Own) -> u64 { o.code() } }
#[allow(clippy::from_over_into)]
impl Into<i16> for Own { fn into(self) -> i16 { *self.b as i16 } }
/// Iteration: by value over owners, by shared and by mutable reference.
pub struct Col { a: [B; 3], n: usize }
impl Default for Col { fn default() -> Self { Col { a: Default::default(), n: 0 } } }
impl Col { pub fn make(n: u8, a: u32, b: u32, c: u32) -> Self { Col { a: [B::make(a, 1), B::make(b, 2), B::make(c, 3)], n: n as usize % 4 } }
    pub fn sum(&self) -> u64 { let mut h = 0; for x in &self.a[..self.n] { h = mx(h, x.code()) } h } }
pub struct It { a: [B; 3], n: usize, i: usize }
impl Default for It { fn default() -> Self { It { a: Default::default(), n: 0, i: 0 } } }
impl Iterator for It { type Item = B; fn next(&mut self) -> Option<B> { if self.i < self.n { self.i += 1; Some(std::mem::take(&mut self.a[self.i - 1])) } else { None } } }
impl IntoIterator for Col { type Item = B; type IntoIter = It; fn into_iter(self) -> It { It { a: self.a, n: self.n, i: 0 } } }
pub struct ItR<'a> { s: &'a [B] }
impl<'a> Iterator for ItR<'a> { type Item = &'a B; fn next(&mut self) -> Option<&'a B> { self.s.split_off_first() } }
impl<'a> IntoIterator for &'a Col { type Item = &'a B; type IntoIter = ItR<'a>; fn into_iter(self) -> ItR<'a> { ItR { s: &self.a[..self.n] } } }
pub struct ItM<'a> { s: &'a mut [B] }
impl<'a> Iterator for ItM<'a> { type Item = &'a mut B; fn next(&mut self) -> Option<&'a mut B> { self.s.split_off_first_mut() } }
impl<'a> IntoIterator for &'a mut Col { type Item = &'a mut B; type IntoIter = ItM<'a>; fn into_iter(self) -> ItM<'a> { ItM { s: &mut self.a[..self.n] } } }
pub struct Cnt { at: u16, last: u16 }
impl Cnt { pub fn make(at: u16, last: u16) -> Self { Cnt { at, last } } }
impl Iterator for Cnt { type Item = u16; fn next(&mut self) -> Option<u16> { if self.at == self.last { None } else { self.at = self.at.wrapping_add(1); Some(self.at ^ 0xff) } } }
