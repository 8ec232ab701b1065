// Conversions into a type are its constructors, conversions out of it are its conversion operators.
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
#[derive(Clone, Copy)] pub struct Small { pub a: u8, pub b: u32 }
impl Small { pub fn of(a: u8, b: u32) -> Small { Small { a, b } } }
pub struct Own { b: Box<u32>, k: u8 }
impl Default for Own { fn default() -> Own { Own { b: Box::new(7), k: 1 } } }
impl Own { pub fn of(v: u32, k: u8) -> Own { Own { b: Box::new(v), k } } pub fn code(&self) -> u64 { mx(*self.b as u64, self.k as u64) } }
/// Made from many things.
pub struct Any { h: u64, b: Box<u8> }
impl Any { pub fn code(&self) -> u64 { self.h ^ *self.b as u64 } fn at(k: u8, h: u64) -> Any { Any { h: h.wrapping_mul(3).wrapping_add((k as u64) << 56), b: Box::new(k) } } }
impl Default for Any { fn default() -> Any { Any::at(99, 0) } }
impl From<u8> for Any { fn from(x: u8) -> Any { Any::at(1, x as u64) } }
impl From<i8> for Any { fn from(x: i8) -> Any { Any::at(2, x as u64) } }
impl From<u16> for Any { fn from(x: u16) -> Any { Any::at(3, x as u64) } }
impl From<i32> for Any { fn from(x: i32) -> Any { Any::at(4, x as u64) } }
impl From<u64> for Any { fn from(x: u64) -> Any { Any::at(5, x) } }
impl From<bool> for Any { fn from(x: bool) -> Any { Any::at(6, x as u64) } }
impl From<char> for Any { fn from(x: char) -> Any { Any::at(7, x as u64) } }
impl From<f32> for Any { fn from(x: f32) -> Any { Any::at(8, x.to_bits() as u64) } }
impl From<f64> for Any { fn from(x: f64) -> Any { Any::at(9, x.to_bits()) } }
impl From<Small> for Any { fn from(x: Small) -> Any { Any::at(10, mx(x.a as u64, x.b as u64)) } }
impl From<&Own> for Any { fn from(x: &Own) -> Any { Any::at(12, x.code()) } }
impl From<&[u8]> for Any { fn from(x: &[u8]) -> Any { Any::at(13, x.iter().fold(x.len() as u64, |h, b| mx(h, *b as u64))) } }
impl From<&str> for Any { fn from(x: &str) -> Any { Any::at(14, x.bytes().fold(x.len() as u64, |h, b| mx(h, b as u64))) } }
impl From<Option<u8>> for Any { fn from(x: Option<u8>) -> Any { Any::at(15, x.map_or(1 << 40, |x| x as u64)) } }
impl From<(u8, u32)> for Any { fn from(x: (u8, u32)) -> Any { Any::at(16, mx(x.0 as u64, x.1 as u64)) } }
impl From<[u8; 3]> for Any { fn from(x: [u8; 3]) -> Any { Any::at(17, x.iter().fold(0, |h, b| mx(h, *b as u64))) } }
impl From<*const u32> for Any { fn from(x: *const u32) -> Any { Any::at(18, x.is_null() as u64) } }
/// Of a C ABI.
#[derive(Clone, Copy)] #[repr(transparent)] pub struct Tr(u32);
impl Tr { pub fn get(self) -> u32 { self.0 } }
impl From<u32> for Tr { fn from(x: u32) -> Tr { Tr(!x) } }
impl From<(u16, u16)> for Tr { fn from(x: (u16, u16)) -> Tr { Tr((x.0 as u32) << 16 | x.1 as u32) } }
impl From<&Small> for Tr { fn from(x: &Small) -> Tr { Tr(x.b ^ x.a as u32) } }
/// A newtype with a public field: the constructor from the field and From agree on the type.
pub struct New(pub u32);
impl From<u32> for New { fn from(x: u32) -> New { New(x) } }
impl From<u8> for New { fn from(x: u8) -> New { New(x as u32 ^ 0x100) } }
/// A view keeps referring to what it was made of.
pub struct View<'a> { p: &'a Small }
impl<'a> From<&'a Small> for View<'a> { fn from(p: &'a Small) -> View<'a> { View { p } } }
impl<'a> View<'a> { pub fn sum(&self) -> u32 { self.p.b ^ self.p.a as u32 } }
/// Into, written out.
pub struct Tgt { v: u64, b: Box<u8> }
impl Default for Tgt { fn default() -> Tgt { Tgt { v: 0, b: Box::new(0) } } }
impl Tgt { pub fn code(&self) -> u64 { self.v ^ *self.b as u64 } fn at(k: u8, h: u64) -> Tgt { Tgt { v: h.wrapping_mul(5).wrapping_add((k as u64) << 56), b: Box::new(k) } } }
impl Into<Tgt> for u16 { fn into(self) -> Tgt { Tgt::at(1, self as u64) } }
impl Into<Tgt> for Small { fn into(self) -> Tgt { Tgt::at(2, mx(self.a as u64, self.b as u64)) } }
impl Into<Tgt> for Own { fn into(self) -> Tgt { Tgt::at(4, self.code()) } }
impl Into<Tgt> for Option<u32> { fn into(self) -> Tgt { Tgt::at(5, self.map_or(1 << 40, |x| x as u64)) } }
impl Into<Tgt> for (u8, u8) { fn into(self) -> Tgt { Tgt::at(6, mx(self.0 as u64, self.1 as u64)) } }
/// Out of a type.
pub struct Src { b: Box<u32> }
impl Src { pub fn of(v: u32) -> Src { Src { b: Box::new(v) } } pub fn val(&self) -> u32 { *self.b } }
impl Default for Src { fn default() -> Src { Src::of(8) } }
impl From<Src> for u32 { fn from(s: Src) -> u32 { !*s.b } }
impl From<Src> for bool { fn from(s: Src) -> bool { *s.b & 1 == 1 } }
impl From<Src> for Option<u16> { fn from(s: Src) -> Option<u16> { if *s.b > 99 { Some(*s.b as u16) } else { None } } }
impl From<Src> for (u8, u32) { fn from(s: Src) -> (u8, u32) { (*s.b as u8, *s.b) } }
impl From<Src> for Small { fn from(s: Src) -> Small { Small { a: *s.b as u8, b: *s.b } } }
impl From<&Src> for u64 { fn from(s: &Src) -> u64 { (*s.b as u64) << 1 } }
impl<'a> From<&'a Src> for &'a u32 { fn from(s: &'a Src) -> &'a u32 { &s.b } }
impl From<Src> for Own { fn from(s: Src) -> Own { Own { b: s.b, k: 55 } } }
