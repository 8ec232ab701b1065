//! Crate whose types the C02 harnesses exchange with C++.
#![allow(unused)]
#[inline]
pub(crate) fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }

/// rustc reorders these fields.
pub struct Reordered { pub a: u8, pub b: u64, pub c: u16, pub d: u32, pub e: u8 }
#[repr(C)]
pub struct ReprC { pub a: u8, pub b: u64, pub c: u16, pub d: u32, pub e: u8 }
#[repr(C, packed)]
pub struct Packed { pub a: u8, pub b: u64, pub c: u16, pub d: u32 }
#[repr(C, packed(2))]
pub struct Packed2 { pub a: u8, pub b: u64, pub c: u16, pub d: u8 }
#[repr(C, align(16))]
pub struct Aligned { pub a: u8, pub b: u32 }
pub struct Mixed { pub f: f64, pub a: u8, pub g: f32, pub p: *const u32, pub b: bool, pub n: i16 }
/// Private fields in the middle.
pub struct Partly { pub a: u16, x: u64, pub b: u32, y: u8, pub c: u8 }
pub struct Inner { pub a: u8, pub b: u32 }
pub struct Outer { pub a: u16, pub i: Inner, pub j: Inner, pub z: u8 }
pub struct Tup(pub u8, pub u32, pub u16);
pub struct TupPriv(pub u8, u32, pub u16);
pub struct WithArr { pub a: u8, pub v: [u16; 3], pub b: u32, pub w: [[u8; 2]; 3] }
pub struct Zst;
pub struct WithZst { pub z: Zst, pub a: u32, pub y: (), pub b: u8 }
#[repr(transparent)]
pub struct Transparent { pub v: u32 }
pub struct Keyworded { pub class: u8, pub private: u32, pub r#struct: u16 }
pub struct SameName { pub val: u32, pub other: u8 }
impl SameName {
    pub fn val(&self) -> u32 { self.val.wrapping_add(1) }
    pub fn make(v: u32, o: u8) -> Self { SameName { val: v, other: o } }
}
pub union Un { pub a: u32, pub b: [u8; 8], pub c: f32, pub d: u64 }
#[repr(C)]
pub union UnC { pub a: u16, pub b: u32, pub c: [u8; 3] }
pub struct HoldsUnion { pub k: u8, pub u: UnC, pub l: u8 }
pub struct Big { pub a: [u64; 5], pub k: u8 }
pub struct OneF(pub f32);
pub struct TwoF(pub f32, pub f32);
pub struct FD(pub f64, pub f32);
pub struct IF(pub u32, pub f32);
pub struct LongInt(pub u64, pub u8);
pub struct Three(pub u8, pub u8, pub u8);

impl Reordered {
    pub fn make(a: u8, b: u64, c: u16, d: u32, e: u8) -> Self { Reordered { a, b, c, d, e } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(mx(0, self.a as u64), self.b), self.c as u64), self.d as u64), self.e as u64) }
    pub fn by_val(self, k: u8) -> u64 { mx(self.sum(), k as u64) }
    pub fn twist(self, k: u8) -> Self { Reordered { a: self.e, e: k, b: !self.b, c: self.d as u16, d: self.c as u32 } }
    pub fn bump(&mut self, k: u8) -> &mut Self { self.a = self.a.wrapping_add(k); self.d ^= 1; self }
}
impl ReprC {
    pub fn make(a: u8, b: u64, c: u16, d: u32, e: u8) -> Self { ReprC { a, b, c, d, e } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(mx(0, self.a as u64), self.b), self.c as u64), self.d as u64), self.e as u64) }
    pub fn by_val(self, k: u8) -> u64 { mx(self.sum(), k as u64) }
}
#[unsafe(no_mangle)]
pub extern "C" fn vp_reprc_pass(x: ReprC, k: u8, y: IFc) -> ReprC { ReprC { a: x.e, b: x.b, c: x.c, d: y.0, e: k } }
#[repr(C)]
pub struct IFc(pub u32, pub f32);
#[unsafe(no_mangle)]
pub extern "C" fn vp_ifc_pass(k: f32, x: IFc, j: u32) -> IFc { IFc(x.0 ^ j, if j == 3 { k } else { x.1 }) }
impl Packed {
    pub fn make(a: u8, b: u64, c: u16, d: u32) -> Self { Packed { a, b, c, d } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(0, self.a as u64), { self.b }), { self.c } as u64), { self.d } as u64) }
    pub fn by_val(self) -> u64 { self.sum() }
}
impl Packed2 {
    pub fn make(a: u8, b: u64, c: u16, d: u8) -> Self { Packed2 { a, b, c, d } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(0, self.a as u64), { self.b }), { self.c } as u64), { self.d } as u64) }
}
impl Aligned {
    pub fn make(a: u8, b: u32) -> Self { Aligned { a, b } }
    pub fn sum(&self) -> u64 { mx(mx(0, self.a as u64), self.b as u64) }
    pub fn by_val(self) -> u64 { self.sum() }
}
impl Mixed {
    pub fn make(f: f64, a: u8, g: f32, p: *const u32, b: bool, n: i16) -> Self { Mixed { f, a, g, p, b, n } }
    pub fn sum(&self) -> u64 {
        mx(mx(mx(mx(mx(mx(0, self.f.to_bits()), self.a as u64), self.g.to_bits() as u64), self.p as usize as u64), self.b as u64), self.n as u64)
    }
}
impl Partly {
    pub fn make(a: u16, x: u64, b: u32, y: u8, c: u8) -> Self { Partly { a, x, b, y, c } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(mx(0, self.a as u64), self.x), self.b as u64), self.y as u64), self.c as u64) }
    pub fn by_val(self) -> u64 { self.sum() }
    pub fn x(&self) -> u64 { self.x }
    pub fn set_y(&mut self, y: u8) { self.y = y }
}
impl Outer {
    pub fn make(a: u16, ia: u8, ib: u32, ja: u8, jb: u32, z: u8) -> Self { Outer { a, i: Inner { a: ia, b: ib }, j: Inner { a: ja, b: jb }, z } }
    pub fn sum(&self) -> u64 { mx(mx(mx(mx(mx(mx(0, self.a as u64), self.i.a as u64), self.i.b as u64), self.j.a as u64), self.j.b as u64), self.z as u64) }
    pub fn inner(&self, second: bool) -> &Inner { if second { &self.j } else { &self.i } }
    pub fn into_inner(self) -> Inner { self.j }
}
impl Tup {
    pub fn make(a: u8, b: u32, c: u16) -> Self { Tup(a, b, c) }
    pub fn sum(&self) -> u64 { mx(mx(mx(0, self.0 as u64), self.1 as u64), self.2 as u64) }
}
impl TupPriv {
    pub fn make(a: u8, b: u32, c: u16) -> Self { TupPriv(a, b, c) }
    pub fn sum(&self) -> u64 { mx(mx(mx(0, self.0 as u64), self.1 as u64), self.2 as u64) }
}
impl WithArr {
    pub fn make(a: u8, v: [u16; 3], b: u32, w0: u8, w5: u8) -> Self { WithArr { a, v, b, w: [[w0, 1], [2, 3], [4, w5]] } }
    pub fn sum(&self) -> u64 {
        let mut s = mx(mx(0, self.a as u64), self.b as u64);
        for x in self.v { s = mx(s, x as u64); }
        for r in self.w { for x in r { s = mx(s, x as u64); } }
        s
    }
}
impl WithZst {
    pub fn make(a: u32, b: u8) -> Self { WithZst { z: Zst, a, y: (), b } }
    pub fn sum(&self) -> u64 { mx(mx(0, self.a as u64), self.b as u64) }
}
impl Transparent {
    pub fn make(v: u32) -> Self { Transparent { v } }
    pub fn by_val(self) -> u32 { self.v }
}
impl Keyworded {
    pub fn make(a: u8, b: u32, c: u16) -> Self { Keyworded { class: a, private: b, r#struct: c } }
    pub fn sum(&self) -> u64 { mx(mx(mx(0, self.class as u64), self.private as u64), self.r#struct as u64) }
}
impl Un {
    pub fn make(d: u64) -> Self { Un { d } }
    pub unsafe fn get(&self) -> u64 { unsafe { self.d } }
}
impl HoldsUnion {
    pub fn make(k: u8, u: u32, l: u8) -> Self { HoldsUnion { k, u: UnC { b: u }, l } }
    pub unsafe fn sum(&self) -> u64 { unsafe { mx(mx(mx(0, self.k as u64), self.u.b as u64), self.l as u64) } }
}
impl Big {
    pub fn make(a: u64, b: u64, k: u8) -> Self { Big { a: [a, b, 3, 4, a ^ b], k } }
    pub fn sum(self) -> u64 { let mut s = self.k as u64; for x in self.a { s = mx(s, x); } s }
}
impl OneF { pub fn make(a: f32) -> Self { OneF(a) } pub fn same(self) -> Self { self } pub fn bits(self) -> u64 { self.0.to_bits() as u64 } }
impl TwoF { pub fn make(a: f32, b: f32) -> Self { TwoF(a, b) } pub fn swap(self) -> Self { TwoF(self.1, self.0) }
    pub fn bits(self) -> u64 { mx(self.0.to_bits() as u64, self.1.to_bits() as u64) } }
impl FD { pub fn make(a: f64, b: f32) -> Self { FD(a, b) } pub fn same(self) -> Self { self } pub fn bits(self) -> u64 { mx(self.0.to_bits(), self.1.to_bits() as u64) } }
impl IF { pub fn make(a: u32, b: f32) -> Self { IF(a, b) } pub fn same(self) -> Self { self } pub fn bits(self) -> u64 { mx(self.0 as u64, self.1.to_bits() as u64) } }
impl LongInt { pub fn make(a: u64, b: u8) -> Self { LongInt(a, b) } pub fn same(self) -> Self { self } pub fn bits(self) -> u64 { mx(self.0, self.1 as u64) } }
impl Three { pub fn make(a: u8, b: u8, c: u8) -> Self { Three(a, b, c) } pub fn rot(self) -> Self { Three(self.1, self.2, self.0) }
    pub fn bits(self) -> u64 { mx(mx(self.0 as u64, self.1 as u64), self.2 as u64) } }
pub fn many(a: Three, b: FD, c: IF, d: Reordered, e: u8, f: TwoF) -> u64 {
    mx(mx(mx(mx(mx(a.bits(), b.bits()), c.bits()), d.sum()), e as u64), f.bits())
}
pub fn arr_id(a: [u32; 3], k: u8) -> [u32; 3] { [a[1], a[2] ^ k as u32, a[0]] }
pub fn arr_nested(a: [[u16; 2]; 2]) -> [[u16; 2]; 2] { [a[1], [a[0][1], a[0][0]]] }
pub fn arr_struct(a: [Tup; 2]) -> [Tup; 2] { let [x, y] = a; [y, x] }
pub fn tup2(a: (u8, u32), k: u16) -> (u32, u16) { (a.1 ^ a.0 as u32, k) }
pub fn tup1(a: (u64,)) -> (u64,) { (!a.0,) }
pub fn tup3(a: (u8, f64, bool)) -> (bool, f64, u8) { (a.2, a.1, a.0) }
pub fn tup_nested(a: ((u8, u16), u32)) -> (u32, (u16, u8)) { (a.1, (a.0.1, a.0.0)) }
pub fn tup_nested3(a: (u8, (u16, (u32, u8)), u64)) -> u64 { mx(mx(mx(mx(mx(0, a.0 as u64), a.1.0 as u64), a.1.1.0 as u64), a.1.1.1 as u64), a.2) }
pub fn tup_adt(a: (Tup, u8), b: (u16, Reordered)) -> (Reordered, u16, Tup) { let mut r = b.1; r.a ^= a.1; (r, b.0, a.0) }
pub fn tup_arr(a: ([u8; 3], u32)) -> (u32, [u8; 3]) { (a.1, [a.0[2], a.0[0], a.0[1]]) }
pub fn tup_ptr(a: (*const u8, u8, *mut u32)) -> (*mut u32, *const u8) { (a.2, a.0) }
pub struct HasTup { pub k: u8, pub t: (u16, u8, u32), pub n: ((u8, u32), u16) }
impl HasTup {
    pub fn make(k: u8, a: u16, b: u8, c: u32, d: u8, e: u32, f: u16) -> Self { HasTup { k, t: (a, b, c), n: ((d, e), f) } }
    pub fn sum(&self) -> u64 {
        let mut s = mx(mx(mx(mx(0, self.k as u64), self.t.0 as u64), self.t.1 as u64), self.t.2 as u64);
        s = mx(mx(s, self.n.0.0 as u64), self.n.0.1 as u64);
        mx(s, self.n.1 as u64)
    }
}
pub fn tup_ref(a: &(u8, u32)) -> u64 { mx(a.0 as u64, a.1 as u64) }
impl Reordered { pub const ASSOC: u32 = 0xdeadbeef; pub const NEG: i64 = -5; }
