//! Crate whose values C++ creates, copies, moves, passes and destroys.  Every value carries an
//! identity; the tables record each birth and death.
#![allow(unused)]
const N: usize = 64;
static mut STATE: [u8; N] = [0; N]; // 0 unborn, 1 alive, 2 dead
static mut NEXT: usize = 1;
static mut BAD: u32 = 0;
static mut CLONES: u32 = 0;
static mut CLONE_FROMS: u32 = 0;
pub fn reset() { unsafe { STATE = [0; N]; NEXT = 1; BAD = 0; CLONES = 0; CLONE_FROMS = 0; } }
pub fn live() -> usize { unsafe { let mut n = 0; let mut i = 1; while i < NEXT { n += (STATE[i] == 1) as usize; i += 1; } n } }
pub fn born_count() -> usize { unsafe { NEXT - 1 } }
pub fn bad() -> u32 { unsafe { BAD } }
pub fn clones() -> u32 { unsafe { CLONES } }
pub fn clone_froms() -> u32 { unsafe { CLONE_FROMS } }
fn born() -> u32 { unsafe { let i = NEXT; NEXT += 1; STATE[i] = 1; i as u32 } }
fn died(id: u32) { unsafe { let i = id as usize; if i >= NEXT || STATE[i] != 1 { BAD += 1; } else { STATE[i] = 2; } } }
fn alive(id: u32) { unsafe { let i = id as usize; if i >= NEXT || STATE[i] != 1 { BAD += 1; } } }

macro_rules! tracked { ($t:ident) => {
    pub struct $t { id: u32, v: u32 }
    impl Drop for $t { fn drop(&mut self) { died(self.id); } }
    impl $t { fn new(v: u32) -> Self { $t { id: born(), v } } fn get(&self) -> u32 { alive(self.id); self.v } fn put(&mut self, v: u32) { alive(self.id); self.v = v } }
} }
macro_rules! api { ($t:ident, $take:ident, $pass:ident, $pick:ident, $look:ident, $swap:ident) => {
    impl $t {
        pub fn make(v: u32) -> Self { Self::new(v) }
        pub fn val(&self) -> u32 { self.get() }
        pub fn set(&mut self, v: u32) { self.put(v) }
        pub fn eat(self) -> u32 { self.get() }
        pub fn same(self) -> Self { self }
    }
    pub fn $take(k: u8, x: $t) -> u32 { x.get().wrapping_add(k as u32) }
    pub fn $pass(x: $t) -> $t { x }
    pub fn $pick(a: $t, b: $t, first: bool) -> $t { if first { a } else { b } }
    pub fn $look(a: &$t, b: &mut $t) -> u32 { let r = a.get(); b.put(r); r }
    pub fn $swap(a: &mut $t, b: $t) -> $t { core::mem::replace(a, b) }
} }
macro_rules! dflt { ($t:ident) => { impl Default for $t { fn default() -> Self { $t::new(77) } } } }
macro_rules! clon { ($t:ident) => { impl Clone for $t {
    fn clone(&self) -> Self { unsafe { CLONES += 1; } $t::new(self.get()) }
    fn clone_from(&mut self, o: &Self) { unsafe { CLONE_FROMS += 1; } self.put(o.get()) }
} } }
tracked!(D); dflt!(D); api!(D, take_d, pass_d, pick_d, look_d, swap_d);
tracked!(C); clon!(C); api!(C, take_c, pass_c, pick_c, look_c, swap_c);
tracked!(B); dflt!(B); clon!(B); api!(B, take_b, pass_b, pick_b, look_b, swap_b);
tracked!(U); 
impl U { pub fn make(v: u32) -> Self { U::new(v) } pub fn val(&self) -> u32 { self.get() } }
/// Drop glue only.
pub struct G { pub a: D, pub k: u8, b: D }
impl Default for G { fn default() -> Self { G { a: D::default(), k: 5, b: D::default() } } }
impl G { fn new(v: u32) -> Self { G { a: D::new(v), k: 1, b: D::new(!v) } } fn get(&self) -> u32 { self.b.get(); self.a.get() } fn put(&mut self, v: u32) { self.b.put(!v); self.a.put(v) }
    pub fn ok(&self) -> bool { self.a.get() == !self.b.get() || (self.a.get() == 77 && self.b.get() == 77 && self.k == 5) } }
api!(G, take_g, pass_g, pick_g, look_g, swap_g);
#[derive(Clone)]
pub struct GC { pub c: C, pub x: u16 }
impl GC { fn new(v: u32) -> Self { GC { c: C::new(v), x: v as u16 } } fn get(&self) -> u32 { self.c.get() } fn put(&mut self, v: u32) { self.c.put(v) } }
api!(GC, take_gc, pass_gc, pick_gc, look_gc, swap_gc);
/// A heap owner: a second owner, a leak or a use after free shows in the memory model.
pub struct X { b: Box<u32> }
impl Default for X { fn default() -> Self { X { b: Box::new(77) } } }
impl X { fn new(v: u32) -> Self { X { b: Box::new(v) } } fn get(&self) -> u32 { *self.b } fn put(&mut self, v: u32) { *self.b = v } }
api!(X, take_x, pass_x, pick_x, look_x, swap_x);
#[derive(Clone)]
pub struct XC { b: Box<u32> }
impl XC { fn new(v: u32) -> Self { XC { b: Box::new(v) } } fn get(&self) -> u32 { *self.b } fn put(&mut self, v: u32) { *self.b = v } }
api!(XC, take_xc, pass_xc, pick_xc, look_xc, swap_xc);
/// Plain data: no Drop, no Clone, no Default.
pub struct P { id: u32, v: u32 }
impl P { fn new(v: u32) -> Self { P { id: 9, v } } fn get(&self) -> u32 { self.v } fn put(&mut self, v: u32) { self.v = v } }
api!(P, take_p, pass_p, pick_p, look_p, swap_p);
#[derive(Clone, Copy)]
pub struct Cp { v: u32 }
impl Cp { fn new(v: u32) -> Self { Cp { v } } fn get(&self) -> u32 { self.v } fn put(&mut self, v: u32) { self.v = v } }
api!(Cp, take_cp, pass_cp, pick_cp, look_cp, swap_cp);
#[repr(transparent)]
#[derive(Default)]
pub struct Tr(D);
impl Tr { fn new(v: u32) -> Self { Tr(D::new(v)) } fn get(&self) -> u32 { self.0.get() } fn put(&mut self, v: u32) { self.0.put(v) } }
api!(Tr, take_tr, pass_tr, pick_tr, look_tr, swap_tr);
#[repr(transparent)]
#[derive(Clone)]
pub struct TrC(C);
impl TrC { fn new(v: u32) -> Self { TrC(C::new(v)) } fn get(&self) -> u32 { self.0.get() } fn put(&mut self, v: u32) { self.0.put(v) } }
api!(TrC, take_trc, pass_trc, pick_trc, look_trc, swap_trc);

pub fn arr_take(a: [D; 2], k: u8) -> u32 { a[(k & 1) as usize].get() }
pub fn arr_give(v: u32) -> [D; 2] { [D::new(v), D::new(!v)] }
pub fn arr_rev(a: [X; 2]) -> [X; 2] { let [x, y] = a; [y, x] }
pub fn tup_take(a: (D, u8), b: (u16, B)) -> u32 { a.0.get().wrapping_add(b.1.get()).wrapping_add(a.1 as u32 + b.0 as u32) }
pub fn tup_give(v: u32) -> (D, u8, B) { (D::new(v), v as u8, B::new(!v)) }
pub fn tup_give_u(v: u32) -> (U, u32) { (U::new(v), v) }
pub fn tup_swap(a: (X, D)) -> (D, X) { (a.1, a.0) }
pub fn tup_nest(a: ((X, u8), D), first: bool) -> (u8, (D, (X,))) { let ((x, k), d) = a; (k, (d, (x,))) }
pub struct HasTup { pub t: (B, u8), pub n: u32 }
impl HasTup { pub fn make(v: u32) -> Self { HasTup { t: (B::new(v), v as u8), n: v } } pub fn val(&self) -> u32 { self.t.0.get() } }
pub fn take_two(d: D, b: B, c: C, stop: bool) -> u32 { if stop { return d.get(); } let r = b.get(); drop(d); r.wrapping_add(c.get()) }
pub fn forget_d(d: D) { core::mem::forget(d) }
pub fn arr_u(a: [U; 2], k: u8) -> u32 { a[(k & 1) as usize].get() }
pub fn arr_u_give(v: u32) -> [U; 2] { [U::new(v), U::new(!v)] }
pub fn arr_g(a: [[D; 2]; 1]) -> [[D; 2]; 1] { let [[x, y]] = a; [[y, x]] }
pub fn arr_c(a: [C; 2], first: bool) -> C { let [x, y] = a; if first { x } else { y } }
pub fn arr_tr(a: [Tr; 2], k: usize) -> u32 { a[k & 1].get() }
pub fn arr_tup(a: ([D; 2], u8)) -> u32 { a.0[(a.1 & 1) as usize].get() }
