// Rust structs that are C++ enums.
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct I8(i8);
impl I8 { pub const MIN: I8 = I8(i8::MIN); pub const MAX: I8 = I8(i8::MAX); pub const Z: I8 = I8(0); pub const NEG: I8 = I8(-1); const HIDDEN: u8 = 1; }
pub fn i8_of(x: i8) -> I8 { I8(x) }
pub fn i8_not(e: I8) -> I8 { I8(!e.0) }
pub fn i8_which(e: I8) -> usize { if e == I8::MIN { return 0 } if e == I8::MAX { return 1 } if e == I8::Z { return 2 } if e == I8::NEG { return 3 } 4 }
pub fn i8_put(e: &mut I8, f: &I8) -> i8 { core::mem::replace(&mut e.0, f.0) }
pub fn i8_opt(o: Option<I8>) -> Option<I8> { match o { None => Some(I8::MIN), Some(e) if e == I8::MIN => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct U8(u8);
impl U8 { pub const U8_MAX: U8 = U8(255); pub const U8_MID: U8 = U8(128); pub const U8_Z: U8 = U8(0); const HIDDEN: u8 = 1; }
pub fn u8_of(x: u8) -> U8 { U8(x) }
pub fn u8_not(e: U8) -> U8 { U8(!e.0) }
pub fn u8_which(e: U8) -> usize { if e == U8::U8_MAX { return 0 } if e == U8::U8_MID { return 1 } if e == U8::U8_Z { return 2 } 3 }
pub fn u8_put(e: &mut U8, f: &U8) -> u8 { core::mem::replace(&mut e.0, f.0) }
pub fn u8_opt(o: Option<U8>) -> Option<U8> { match o { None => Some(U8::U8_MAX), Some(e) if e == U8::U8_MAX => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct I16(i16);
impl I16 { pub const MIN: I16 = I16(i16::MIN); pub const MAX: I16 = I16(i16::MAX); pub const NEG: I16 = I16(-300); const HIDDEN: u8 = 1; }
pub fn i16_of(x: i16) -> I16 { I16(x) }
pub fn i16_not(e: I16) -> I16 { I16(!e.0) }
pub fn i16_which(e: I16) -> usize { if e == I16::MIN { return 0 } if e == I16::MAX { return 1 } if e == I16::NEG { return 2 } 3 }
pub fn i16_put(e: &mut I16, f: &I16) -> i16 { core::mem::replace(&mut e.0, f.0) }
pub fn i16_opt(o: Option<I16>) -> Option<I16> { match o { None => Some(I16::MIN), Some(e) if e == I16::MIN => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct U16(u16);
impl U16 { pub const MAX: U16 = U16(u16::MAX); pub const MID: U16 = U16(32768); pub const LOW: U16 = U16(32767); pub const L2: U16 = U16(32766); const HIDDEN: u8 = 1; }
pub fn u16_of(x: u16) -> U16 { U16(x) }
pub fn u16_not(e: U16) -> U16 { U16(!e.0) }
pub fn u16_which(e: U16) -> usize { if e == U16::MAX { return 0 } if e == U16::MID { return 1 } if e == U16::LOW { return 2 } if e == U16::L2 { return 3 } 4 }
pub fn u16_put(e: &mut U16, f: &U16) -> u16 { core::mem::replace(&mut e.0, f.0) }
pub fn u16_opt(o: Option<U16>) -> Option<U16> { match o { None => Some(U16::MAX), Some(e) if e == U16::MAX => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct I32(i32);
impl I32 { pub const I32_MIN: I32 = I32(i32::MIN); pub const I32_MAX: I32 = I32(i32::MAX); pub const I32_NEG: I32 = I32(-40000); const HIDDEN: u8 = 1; }
pub fn i32_of(x: i32) -> I32 { I32(x) }
pub fn i32_not(e: I32) -> I32 { I32(!e.0) }
pub fn i32_which(e: I32) -> usize { if e == I32::I32_MIN { return 0 } if e == I32::I32_MAX { return 1 } if e == I32::I32_NEG { return 2 } 3 }
pub fn i32_put(e: &mut I32, f: &I32) -> i32 { core::mem::replace(&mut e.0, f.0) }
pub fn i32_opt(o: Option<I32>) -> Option<I32> { match o { None => Some(I32::I32_MIN), Some(e) if e == I32::I32_MIN => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct U32(u32);
impl U32 { pub const MAX: U32 = U32(u32::MAX); pub const MID: U32 = U32(1 << 31); pub const LOW: U32 = U32((1 << 31) - 1); const HIDDEN: u8 = 1; }
pub fn u32_of(x: u32) -> U32 { U32(x) }
pub fn u32_not(e: U32) -> U32 { U32(!e.0) }
pub fn u32_which(e: U32) -> usize { if e == U32::MAX { return 0 } if e == U32::MID { return 1 } if e == U32::LOW { return 2 } 3 }
pub fn u32_put(e: &mut U32, f: &U32) -> u32 { core::mem::replace(&mut e.0, f.0) }
pub fn u32_opt(o: Option<U32>) -> Option<U32> { match o { None => Some(U32::MAX), Some(e) if e == U32::MAX => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct I64(i64);
impl I64 { pub const MIN: I64 = I64(i64::MIN); pub const MAX: I64 = I64(i64::MAX); pub const LOW: I64 = I64(i64::MIN + 1); pub const NEG: I64 = I64(-(1 << 40)); const HIDDEN: u8 = 1; }
pub fn i64_of(x: i64) -> I64 { I64(x) }
pub fn i64_not(e: I64) -> I64 { I64(!e.0) }
pub fn i64_which(e: I64) -> usize { if e == I64::MIN { return 0 } if e == I64::MAX { return 1 } if e == I64::LOW { return 2 } if e == I64::NEG { return 3 } 4 }
pub fn i64_put(e: &mut I64, f: &I64) -> i64 { core::mem::replace(&mut e.0, f.0) }
pub fn i64_opt(o: Option<I64>) -> Option<I64> { match o { None => Some(I64::MIN), Some(e) if e == I64::MIN => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct U64(u64);
impl U64 { pub const MAX: U64 = U64(u64::MAX); pub const MID: U64 = U64(1 << 63); pub const BIG: U64 = U64((1 << 53) + 1); const HIDDEN: u8 = 1; }
pub fn u64_of(x: u64) -> U64 { U64(x) }
pub fn u64_not(e: U64) -> U64 { U64(!e.0) }
pub fn u64_which(e: U64) -> usize { if e == U64::MAX { return 0 } if e == U64::MID { return 1 } if e == U64::BIG { return 2 } 3 }
pub fn u64_put(e: &mut U64, f: &U64) -> u64 { core::mem::replace(&mut e.0, f.0) }
pub fn u64_opt(o: Option<U64>) -> Option<U64> { match o { None => Some(U64::MAX), Some(e) if e == U64::MAX => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct Us(usize);
impl Us { pub const MAX: Us = Us(usize::MAX); pub const ONE: Us = Us(1); const HIDDEN: u8 = 1; }
pub fn us_of(x: usize) -> Us { Us(x) }
pub fn us_not(e: Us) -> Us { Us(!e.0) }
pub fn us_which(e: Us) -> usize { if e == Us::MAX { return 0 } if e == Us::ONE { return 1 } 2 }
pub fn us_put(e: &mut Us, f: &Us) -> usize { core::mem::replace(&mut e.0, f.0) }
pub fn us_opt(o: Option<Us>) -> Option<Us> { match o { None => Some(Us::MAX), Some(e) if e == Us::MAX => None, e => e } }
#[doc = "CRUBIT_ANNOTATE: cpp_enum=enum class"]
#[derive(Clone, Copy, PartialEq)] #[repr(transparent)] pub struct Is(isize);
impl Is { pub const MIN: Is = Is(isize::MIN); pub const MAX: Is = Is(isize::MAX); pub const NEG: Is = Is(-2); const HIDDEN: u8 = 1; }
pub fn is_of(x: isize) -> Is { Is(x) }
pub fn is_not(e: Is) -> Is { Is(!e.0) }
pub fn is_which(e: Is) -> usize { if e == Is::MIN { return 0 } if e == Is::MAX { return 1 } if e == Is::NEG { return 2 } 3 }
pub fn is_put(e: &mut Is, f: &Is) -> isize { core::mem::replace(&mut e.0, f.0) }
pub fn is_opt(o: Option<Is>) -> Option<Is> { match o { None => Some(Is::MIN), Some(e) if e == Is::MIN => None, e => e } }
#[derive(Clone, Copy)] #[repr(C)] pub struct Held { pub a: I8, pub b: U32, pub c: [U8; 3], pub d: I64 }
impl Held { pub fn make(x: u64) -> Held { Held { a: I8(x as i8), b: U32((x >> 8) as u32), c: [U8(x as u8), U8(!x as u8), U8(7)], d: I64(x as i64) } }
  pub fn sum(&self) -> u64 { (self.a.0 as u8 as u64) ^ (self.b.0 as u64) << 8 ^ (self.c[1].0 as u64) << 48 ^ self.d.0.rotate_left(3) as u64 } }
pub fn slice(s: &[U16]) -> u32 { s.iter().fold(0, |h, e| h.rotate_left(7) ^ e.0 as u32) }
pub fn tuple(t: (U8, I64)) -> (I64, U8) { (I64(!t.1.0), U8(!t.0.0)) }
