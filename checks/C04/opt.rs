//! Option and Result values exchanged with C++.
pub(crate) fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
#[derive(Copy, Clone, PartialEq)]
#[repr(u8)]
pub enum Lim { N0, N1, N2, N3, N4 }
impl Lim { pub fn make(v: u8) -> Self { match v { 0 => Lim::N0, 1 => Lim::N1, 2 => Lim::N2, 3 => Lim::N3, _ => Lim::N4 } } pub fn val(self) -> u8 { self as u8 } }
fn ol(o: &Option<Lim>) -> u64 { match o { None => 1, Some(l) => mx(2, *l as u64) } }
/// Owner with a niche (the box), default-movable.
pub struct X { b: Box<u32> }
impl Default for X { fn default() -> Self { X { b: Box::new(77) } } }
impl X { pub fn make(v: u32) -> Self { X { b: Box::new(v) } } pub fn val(&self) -> u32 { *self.b } pub fn set(&mut self, v: u32) { *self.b = v } }
/// Owner with clone only.
#[derive(Clone)]
pub struct K { b: Box<u32>, k: u8 }
impl K { pub fn make(v: u32) -> Self { K { b: Box::new(v), k: 1 } } pub fn val(&self) -> u32 { *self.b } }
/// Owner that C++ cannot move.
pub struct U { b: Box<u32> }
impl U { pub fn make(v: u32) -> Self { U { b: Box::new(v) } } pub fn val(&self) -> u32 { *self.b } }
/// Trivial, no Default or Clone.
pub struct T { pub a: u8, pub b: u32 }
impl T { pub fn make(a: u8, b: u32) -> Self { T { a, b } } }

pub struct Opts { pub n: Option<Lim>, pub nn: Option<Option<Lim>>, pub d: Option<u8>, pub w: Option<u64>, pub b: Option<bool>, pub s: Option<usize>, pub u: Option<()> }
impl Opts {
    pub fn make(k: u8, v: u64) -> Self {
        Opts { n: if k & 1 == 0 { None } else { Some(Lim::make(v as u8 & 3)) },
               nn: if k & 2 == 0 { None } else if k & 4 == 0 { Some(None) } else { Some(Some(Lim::make(v as u8 & 3))) },
               d: if k & 8 == 0 { None } else { Some(v as u8) }, w: if k & 16 == 0 { None } else { Some(v) },
               b: if k & 32 == 0 { None } else { Some(v & 1 == 1) }, s: if k & 64 == 0 { None } else { Some(v as usize) }, u: if k & 128 == 0 { None } else { Some(()) } }
    }
    pub fn code(&self) -> u64 {
        let mut h = mx(ol(&self.n), match &self.nn { None => 5, Some(o) => mx(6, ol(o)) });
        h = mx(h, match self.d { None => 300, Some(x) => x as u64 });
        h = mx(h, match self.w { None => 7, Some(x) => mx(8, x) });
        h = mx(h, match self.b { None => 2, Some(x) => x as u64 });
        h = mx(h, match self.s { None => 7, Some(x) => mx(8, x as u64) });
        mx(h, self.u.is_some() as u64)
    }
}
pub struct OX { pub x: Option<X>, pub k: u8 }
impl OX { pub fn make(some: bool, v: u32) -> Self { OX { x: if some { Some(X::make(v)) } else { None }, k: 3 } } pub fn code(&self) -> u64 { match &self.x { None => 1, Some(x) => mx(2, x.val() as u64) } } }
pub struct OK { pub x: Option<K>, pub k: u8 }
impl OK { pub fn make(some: bool, v: u32) -> Self { OK { x: if some { Some(K::make(v)) } else { None }, k: 3 } } pub fn code(&self) -> u64 { match &self.x { None => 1, Some(x) => mx(2, x.val() as u64) } } }
pub struct OU { pub x: Option<U>, pub k: u8 }
impl OU { pub fn make(some: bool, v: u32) -> Self { OU { x: if some { Some(U::make(v)) } else { None }, k: 3 } } pub fn code(&self) -> u64 { match &self.x { None => 1, Some(x) => mx(2, x.val() as u64) } } }
pub struct OT { pub x: Option<T>, pub k: u8 }
impl OT { pub fn make(some: bool, a: u8, b: u32) -> Self { OT { x: if some { Some(T::make(a, b)) } else { None }, k: 3 } } pub fn code(&self) -> u64 { match &self.x { None => 1, Some(x) => mx(mx(2, x.a as u64), x.b as u64) } } }
pub struct ORx { pub x: Option<X>, pub r: Result<X, K>, pub o: Option<Result<u32, X>>, pub p: Result<u8, u64>, pub q: Result<Lim, Lim> }
fn rxk(r: &Result<X, K>) -> u64 { match r { Ok(x) => mx(1, x.val() as u64), Err(k) => mx(2, k.val() as u64) } }
fn orx(o: &Option<Result<u32, X>>) -> u64 { match o { None => 1, Some(Ok(v)) => mx(2, *v as u64), Some(Err(x)) => mx(3, x.val() as u64) } }
impl ORx {
    pub fn make(k: u8, v: u32) -> Self {
        ORx { x: if k & 1 == 0 { None } else { Some(X::make(v)) }, r: if k & 2 == 0 { Ok(X::make(v)) } else { Err(K::make(v)) },
              o: if k & 4 == 0 { None } else if k & 8 == 0 { Some(Ok(v)) } else { Some(Err(X::make(v))) },
              p: if k & 16 == 0 { Ok(v as u8) } else { Err(v as u64) }, q: if k & 32 == 0 { Ok(Lim::make(v as u8 & 3)) } else { Err(Lim::make(v as u8 & 3)) } }
    }
    pub fn code(&self) -> u64 {
        let mut h = match &self.x { None => 1, Some(x) => mx(2, x.val() as u64) };
        h = mx(mx(h, rxk(&self.r)), orx(&self.o));
        h = mx(h, match self.p { Ok(a) => mx(1, a as u64), Err(b) => mx(2, b) });
        mx(h, match self.q { Ok(a) => mx(1, a as u64), Err(b) => mx(2, b as u64) })
    }
}
// By value and by reference.
pub fn o_u8(o: Option<u8>) -> Option<u8> { o.map(|x| x ^ 0x55) }
pub fn o_u64(o: Option<u64>, k: u8) -> Option<u64> { if k == 9 { None } else { o } }
pub fn o_bool(o: Option<bool>) -> u8 { match o { None => 2, Some(b) => b as u8 } }
pub fn o_lim(o: Option<Lim>) -> Option<Lim> { match o { Some(Lim::N0) => None, None => Some(Lim::N3), x => x } }
pub fn o_lim_ref(o: &Option<Lim>) -> u64 { ol(o) }
pub fn o_lim_mut(o: &mut Option<Lim>, v: u8) { *o = if v == 200 { None } else { Some(Lim::make(v)) } }
pub fn o_x(o: Option<X>, v: u32) -> Option<X> { match o { Some(x) if x.val() == v => None, Some(x) => Some(x), None => Some(X::make(v)) } }
pub fn o_x_ref(o: &Option<X>) -> u64 { match o { None => 1, Some(x) => mx(2, x.val() as u64) } }
pub fn o_x_take(o: &mut Option<X>) -> u32 { match o.take() { None => 5, Some(x) => x.val() } }
pub fn o_x_put(o: &mut Option<X>, v: u32) { *o = Some(X::make(v)) }
pub fn o_k(o: Option<K>) -> u64 { match o { None => 1, Some(x) => mx(2, x.val() as u64) } }
pub fn o_u_ret(some: bool, v: u32) -> Option<U> { if some { Some(U::make(v)) } else { None } }
pub fn o_ptr(o: Option<&u32>) -> u32 { match o { None => 7, Some(p) => *p } }
pub fn r_vals(r: Result<u32, u8>) -> Result<u8, u32> { match r { Ok(a) => Err(a), Err(b) => Ok(b) } }
pub fn r_same(r: Result<u32, u32>) -> Result<u32, u32> { match r { Ok(a) => Err(!a), Err(b) => Ok(b) } }
pub fn r_xk(r: Result<X, K>, v: u32) -> Result<X, K> { match r { Ok(x) => Err(K::make(x.val() ^ v)), Err(k) => Ok(X::make(k.val())) } }
pub fn r_unit(v: u8) -> Result<(), u8> { if v & 1 == 0 { Ok(()) } else { Err(v) } }
pub fn r_unit_err(v: u8) -> Result<u8, ()> { if v & 1 == 0 { Ok(v) } else { Err(()) } }
pub fn r_ref(r: &Result<X, K>) -> u64 { rxk(r) }
pub fn ro(r: Result<Option<u8>, X>) -> u64 { match r { Ok(None) => 1, Ok(Some(v)) => mx(2, v as u64), Err(x) => mx(3, x.val() as u64) } }
