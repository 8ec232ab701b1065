//! Types that C++ knows under a type of its own.
use bridge_rust::{transmute_abi, CrubitAbi, Decoder, Encoder};
use std::ffi::c_void;

/// Converted by a pair of functions; `lay::Val` holds the same data differently.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Val"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[doc = "CRUBIT_ANNOTATE: cpp_to_rust_converter=lay_val_to_rust"]
#[doc = "CRUBIT_ANNOTATE: rust_to_cpp_converter=lay_val_to_cpp"]
#[repr(C)]
pub struct Val { pub x: u32, pub y: u16 }

/// The same with an owner: Rust's side is a box, C++'s side is a movable class.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Str"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[doc = "CRUBIT_ANNOTATE: cpp_to_rust_converter=lay_str_to_rust"]
#[doc = "CRUBIT_ANNOTATE: rust_to_cpp_converter=lay_str_to_cpp"]
#[repr(C)]
pub struct Str { pub p: *mut c_void }
unsafe extern "C" { fn lay_str_del(p: *mut c_void); fn lay_own_del(p: *mut u32); fn lay_own_new(v: u32) -> *mut u32; }
impl Drop for Str { fn drop(&mut self) { unsafe { lay_str_del(self.p) } } }

/// A pointer on the C++ side.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Thing const*"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[doc = "CRUBIT_ANNOTATE: cpp_to_rust_converter=lay_thing_to_rust"]
#[doc = "CRUBIT_ANNOTATE: rust_to_cpp_converter=lay_thing_to_cpp"]
#[repr(C)]
pub struct ThingView { pub p: *const u32, pub tag: u32 }

/// A pointer on both sides.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Thing*"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[repr(transparent)]
pub struct ThingPtr(pub *mut u32);

/// The same bytes on both sides, with a destructor.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Own"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[repr(C)]
pub struct Own { pub p: *mut u32 }
impl Drop for Own { fn drop(&mut self) { if !self.p.is_null() { unsafe { lay_own_del(self.p) } } } }
impl Own { pub(crate) fn mk(v: u32) -> Own { Own { p: unsafe { lay_own_new(v) } } } pub(crate) fn v(&self) -> u32 { unsafe { *self.p } } }

/// Bridged by a pair of ABIs, with a type argument that is bridged too.
#[doc = "CRUBIT_ANNOTATE: cpp_type=lay::Two"]
#[doc = "CRUBIT_ANNOTATE: include_path=bridged_cc.h"]
#[doc = "CRUBIT_ANNOTATE: bridge_abi_cpp=lay::TwoAbi"]
#[doc = "CRUBIT_ANNOTATE: bridge_abi_rust=TwoAbi"]
pub struct Two<A>(pub A, pub A, pub u8);
#[derive(Clone, Default)]
pub struct TwoAbi<A>(pub A);
unsafe impl<A: CrubitAbi + Clone> CrubitAbi for TwoAbi<A> {
    type Value = Two<A::Value>;
    const SIZE: usize = A::SIZE * 2 + 1;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.clone().encode(v.0, e); transmute_abi().encode(v.2, e); self.0.encode(v.1, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { unsafe { let a = self.0.clone().decode(d); let k = transmute_abi().decode(d); let b = self.0.decode(d); Two(a, b, k) } }
}

pub fn val_id(v: Val) -> Val { v }
pub fn val_make(x: u32, y: u16) -> Val { Val { x, y } }
pub fn val_sum(a: Val, k: u8, b: Val) -> u64 { a.x as u64 * 3 + b.x as u64 * 5 + a.y as u64 * 7 + b.y as u64 * 11 + k as u64 }
pub fn val_pair(a: Val, b: Val) -> (Val, u8, Val) { (b, 9, a) }
pub struct Acc { pub n: u64 }
impl Acc {
    pub fn make(v: Val) -> Acc { Acc { n: v.x as u64 + v.y as u64 } }
    pub fn add(&mut self, v: Val) -> Val { let n = self.n; self.n += v.x as u64; Val { x: n as u32, y: v.y } }
    pub fn eat(self, s: Str) -> Str { s }
}
pub fn str_id(s: Str) -> Str { s }
pub fn str_drop(s: Str) { drop(s) }
pub fn str_pick(a: Str, b: Str, first: bool) -> Str { if first { a } else { b } }
pub fn thing_id(v: ThingView) -> ThingView { v }
pub fn thing_read(v: ThingView, w: ThingView) -> u64 { unsafe { *v.p as u64 * 3 + *w.p as u64 + v.tag as u64 } }
pub fn ptr_id(v: ThingPtr) -> ThingPtr { v }
pub fn ptr_write(v: ThingPtr, x: u32) -> u32 { unsafe { let o = *v.0; *v.0 = x; o } }
pub fn own_id(v: Own) -> Own { v }
pub fn own_make(x: u32) -> Own { Own::mk(x) }
pub fn own_drop(v: Own) -> u32 { v.v() }
pub fn own_pick(a: Own, b: Own, first: bool) -> Own { if first { a } else { b } }
pub fn own_read(a: &Own, b: &Own) -> u64 { a.v() as u64 * 3 + b.v() as u64 }
pub fn own_set(a: &mut Own, x: u32) { *a = Own::mk(x) }
pub fn own_swap(a: &mut Own, b: &mut Own) { std::mem::swap(a, b) }
pub fn own_tuple(a: Own, b: Own) -> (Own, u32, Own) { let s = a.v().wrapping_add(b.v()); (b, s, a) }
pub fn own_take(t: (Own, u8)) -> Own { t.0 }
pub fn own_option(v: Own, some: bool) -> Option<Own> { if some { Some(v) } else { None } }
pub fn own_unopt(v: Option<Own>, d: u32) -> Own { v.unwrap_or_else(|| Own::mk(d)) }
pub struct Holder { pub a: Own, pub k: u8, pub b: Own }
impl Holder {
    pub fn make(a: Own, b: Own, k: u8) -> Holder { Holder { a, k, b } }
    pub fn swap_out(&mut self, x: Own) -> Own { std::mem::replace(&mut self.a, x) }
    pub fn both(&mut self, x: Own, y: Own) -> (Own, Own) { (std::mem::replace(&mut self.b, x), std::mem::replace(&mut self.a, y)) }
    pub fn first(&self) -> &Own { &self.a }
}
pub fn two_swap(t: Two<u32>) -> Two<u32> { Two(t.1, t.0, t.2 ^ 1) }
pub fn two_sum(t: Two<u32>) -> u64 { t.0 as u64 * 3 + t.1 as u64 * 5 + t.2 as u64 }
pub fn two_opt(t: Option<Two<u16>>) -> Option<Two<u16>> { t.map(|t| Two(t.1, t.0, t.2)) }
pub fn two_nested(t: Two<Option<u8>>) -> Two<Option<u8>> { Two(t.1, t.0, t.2) }
