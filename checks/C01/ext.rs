pub struct Q { pub v: u32, k: u8 }
impl Q { pub fn make(v: u32, k: u8) -> Q { Q { v, k } } pub fn get(&self, x: u32) -> u32 { self.v ^ x.rotate_left(self.k as u32 & 31) } }
pub fn same(x: u32) -> u32 { x ^ 101 }
pub mod deep { pub mod er { pub fn same(x: u32) -> u32 { x ^ 102 } #[derive(Clone, Copy)] #[repr(C)] pub struct R { pub a: u8, pub b: u32 } impl R { pub fn sum(self) -> u32 { self.a as u32 ^ self.b } } } pub use self::er::same as shallow; }
pub use deep::er;
pub const K: u32 = 77;
