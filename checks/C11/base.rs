//! Traits of another crate.
pub trait Far { const K: u16; fn far(&self, x: u16) -> u16; fn near() -> u16; }
pub trait Conv<T> { fn conv(&self, x: T) -> T; fn put(&mut self, x: T); }
#[derive(Clone, Copy)]
pub struct Pt { pub x: i32, pub y: i32 }
impl Pt { pub fn of(x: i32, y: i32) -> Pt { Pt { x, y } } }
impl Far for Pt { const K: u16 = 11; fn far(&self, x: u16) -> u16 { x ^ self.x as u16 } fn near() -> u16 { 1001 } }
impl Conv<u8> for Pt { fn conv(&self, x: u8) -> u8 { x.wrapping_add(self.x as u8) } fn put(&mut self, x: u8) { self.x = x as i32 } }
