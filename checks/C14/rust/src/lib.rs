#![feature(negative_impls, super_let)]
#![allow(dead_code)]
include!("../../../../rt/vp.rs");
use ctor::*;
use core::convert::Infallible;
use core::mem::{ManuallyDrop, MaybeUninit};
use core::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

// ---- a value which knows where it lives, and what happened to it and its kind
#[derive(Clone, Copy, PartialEq)]
enum Ev { None, Made(u8), Dropped(u8), Copied(u8), Moved(u8), Assigned(u8), Outer }
struct World { log: [Ev; 32], n: usize, live: i32, bad: i32 }
static mut W: World = World { log: [Ev::None; 32], n: 0, live: 0, bad: 0 };
fn w() -> &'static mut World { unsafe { &mut *&raw mut W } }
fn ev(e: Ev) { let w = w(); w.log[w.n] = e; w.n += 1; }
fn logged(es: &[Ev]) -> bool { w().n == es.len() && (0..es.len()).all(|i| w().log[i] == es[i]) }
fn live() -> i32 { w().live }
fn good() -> bool { w().bad == 0 }
fn done() -> bool { w().bad == 0 && w().live == 0 }

#[repr(C)]
struct T { me: *const T, id: u8 }
impl !Unpin for T {}
impl !SelfCtor for T {}
impl Drop for T {
    #[inline(never)]
    fn drop(&mut self) {
        if self.me != &raw const *self { w().bad += 1; }
        self.me = core::ptr::null();
        w().live -= 1;
        ev(Ev::Dropped(self.id));
    }
}
impl T {
    fn ok(&self) -> bool { self.me == &raw const *self }
    fn is(&self, id: u8) -> bool { self.ok() && self.id == id }
}
unsafe fn put(dest: *mut T, id: u8) {
    w().live += 1;
    ev(Ev::Made(id));
    unsafe { dest.write(T { me: dest, id }) };
}
/// Makes `id`, or fails with the error `e`.
struct Make<E> { id: u8, fail: Option<E> }
impl<E> !SelfCtor for Make<E> {}
unsafe impl<E> Ctor for Make<E> {
    type Output = T;
    type Error = E;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), E> {
        if let Some(e) = self.fail { return Err(e); }
        unsafe { put(dest, self.id) };
        Ok(())
    }
}
fn make(id: u8) -> Make<Infallible> { Make { id, fail: None } }
fn may(id: u8, fail: bool, e: u8) -> Make<u8> { Make { id, fail: if fail { Some(e) } else { None } } }
impl CtorNew<()> for T { type CtorType = Make<Infallible>; type Error = Infallible; fn ctor_new(_: ()) -> Self::CtorType { make(99) } }
struct From_<'a>(&'a T, bool);
impl !SelfCtor for From_<'_> {}
unsafe impl Ctor for From_<'_> {
    type Output = T;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), Infallible> {
        if !self.0.ok() { w().bad += 1; }
        ev(if self.1 { Ev::Moved(self.0.id) } else { Ev::Copied(self.0.id) });
        unsafe { put(dest, self.0.id) };
        Ok(())
    }
}
impl<'a> CtorNew<&'a T> for T { type CtorType = From_<'a>; type Error = Infallible; fn ctor_new(x: &'a T) -> From_<'a> { From_(x, false) } }
impl<'a> CtorNew<ConstRvalueReference<'a, T>> for T { type CtorType = From_<'a>; type Error = Infallible; fn ctor_new(x: ConstRvalueReference<'a, T>) -> From_<'a> { From_(x.0, true) } }
impl<'a> CtorNew<RvalueReference<'a, T>> for T { type CtorType = From_<'a>; type Error = Infallible; fn ctor_new(x: RvalueReference<'a, T>) -> From_<'a> { From_(unsafe { &*(&*x.0 as *const T) }, true) } }
impl<'a> Assign<&'a T> for T { fn assign(self: Pin<&mut Self>, x: &'a T) { let t = unsafe { Pin::into_inner_unchecked(self) }; if !t.ok() || !x.ok() { w().bad += 1; } t.id = x.id; ev(Ev::Assigned(x.id)); } }

// ---- combinators
#[derive(Debug, PartialEq, Clone, Copy)]
struct Err2(u16);
impl From<u8> for Err2 { fn from(e: u8) -> Self { Err2(e as u16 + 256) } }

/// Runs `$c` in place; checks that it gives `$want` (Ok: the id the value has), leaves nothing behind on failure, and that the value is
/// dropped exactly once.
macro_rules! outcome {
    ($c:expr, $want:expr, $err:ty) => {{
        let want: Result<u8, $err> = $want;
        let mut mem = MaybeUninit::<T>::uninit();
        let r = unsafe { Ctor::ctor($c, mem.as_mut_ptr()) };
        match (r, want) {
            (Ok(()), Ok(id)) => {
                VP_CHECK!(unsafe { (*mem.as_ptr()).is(id) } && live() == 1 && good());
                unsafe { core::ptr::drop_in_place(mem.as_mut_ptr()) };
            }
            (Err(e), Err(f)) => { VP_CHECK!(e == f); }
            _ => VP_CHECK!(false), // VP_MAYBE
        }
        VP_CHECK!(done());
    }};
}

#[unsafe(no_mangle)]
pub extern "C" fn h_map_err() {
    let (id, fail, e, k) = (vp::u8(), vp::bool(), vp::u8(), vp::u8());
    let mut calls = 0;
    outcome!(may(id, fail, e).ctor_map_err(|x| { calls += 1; Err2((x ^ k) as u16) }), if fail { Err(Err2((e ^ k) as u16)) } else { Ok(id) }, Err2);
    VP_CHECK!(calls == fail as i32);
    outcome!(may(id, fail, e).ctor_err_into::<Err2>(), if fail { Err(Err2(e as u16 + 256)) } else { Ok(id) }, Err2);
    outcome!(make(id).ctor_make_fallible::<u8>(), Ok(id), u8);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_or_else() {
    let (id, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    let (id2, fail2, e2) = (vp::u8(), vp::bool(), vp::u8());
    let mut seen = None;
    outcome!(may(id, fail, e).ctor_or_else(|x| { seen = Some(x); may(id2, fail2, e2 ^ x) }),
             if !fail { Ok(id) } else if fail2 { Err(e2 ^ e) } else { Ok(id2) }, u8);
    VP_CHECK!(seen == if fail { Some(e) } else { None });
    VP_CHECK!(if !fail { logged(&[Ev::Made(id), Ev::Dropped(id)]) } else if fail2 { logged(&[]) } else { logged(&[Ev::Made(id2), Ev::Dropped(id2)]) });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_unwrap_or_default() {
    let (id, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    outcome!(may(id, fail, e).ctor_unwrap_or_default(), Ok(if fail { 99 } else { id }), Infallible);
    VP_CHECK!(if !fail { logged(&[Ev::Made(id), Ev::Dropped(id)]) } else { logged(&[Ev::Made(99), Ev::Dropped(99)]) });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_then() {
    let (id, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    let (k, fail2, e2) = (vp::u8(), vp::bool(), vp::u8());
    let mut calls = 0;
    outcome!(may(id, fail, e).ctor_then(|p| {
        calls += 1;
        if !p.is(id) { w().bad += 1; }
        if fail2 { return Err(e2); }
        unsafe { Pin::into_inner_unchecked(p) }.id = k;
        Ok(())
    }), if fail { Err(e) } else if fail2 { Err(e2) } else { Ok(k) }, u8);
    VP_CHECK!(calls == !fail as i32);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_then_or_else() {
    // The failed value's place is used again.
    let (id, fail2, e2, id2) = (vp::u8(), vp::bool(), vp::u8(), vp::u8());
    outcome!(may(id, false, 0).ctor_then(|_| if fail2 { Err(e2) } else { Ok(()) }).ctor_or_else(|_| make(id2).ctor_make_fallible::<u8>()),
             Ok(if fail2 { id2 } else { id }), u8);
    outcome!(may(id, false, 0).ctor_then(|_| if fail2 { Err(e2) } else { Ok(()) }).ctor_unwrap_or_default(), Ok(if fail2 { 99 } else { id }), Infallible);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_unwrap() {
    let (id, fail, e, which) = (vp::u8(), vp::bool(), vp::u8(), vp::bool());
    vp::expect_abort(fail);
    if which {
        outcome!(may(id, fail, e).ctor_unwrap(), Ok(id), Infallible);
    } else {
        outcome!(may(id, fail, e).ctor_expect("x"), Ok(id), Infallible);
    }
    VP_CHECK!(!fail);
}
/// One combinator step, of any kind, as Ctor of u8 errors. `m` models the result.
struct Step<C> { c: C, kind: usize, a: u8, b: bool }
impl<C> !SelfCtor for Step<C> {}
unsafe impl<C: Ctor<Output = T, Error = u8>> Ctor for Step<C> {
    type Output = T;
    type Error = u8;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), u8> {
        let Step { c, kind, a, b } = self;
        unsafe {
            match kind {
                0 => c.ctor_map_err(|e| e ^ a).ctor(dest),
                1 => c.ctor_or_else(|e| may(a, b, e)).ctor(dest),
                2 => c.ctor_then(|p| if b { Err(a) } else { Pin::into_inner_unchecked(p).id ^= a; Ok(()) }).ctor(dest),
                3 => c.ctor_unwrap_or_default().ctor_make_fallible::<u8>().ctor(dest),
                _ => c.ctor_err_into::<u8>().ctor(dest),
            }
        }
    }
}
fn model(r: Result<u8, u8>, kind: usize, a: u8, b: bool) -> Result<u8, u8> {
    match (kind, r) {
        (0, Err(e)) => Err(e ^ a),
        (1, Err(e)) => if b { Err(e) } else { Ok(a) },
        (2, Ok(id)) => if b { Err(a) } else { Ok(id ^ a) },
        (3, Err(_)) => Ok(99),
        _ => r,
    }
}
fn step<C: Ctor<Output = T, Error = u8>>(c: C, r: Result<u8, u8>) -> (Step<C>, Result<u8, u8>) {
    let (kind, a, b) = (vp::pick(5), vp::u8(), vp::bool());
    (Step { c, kind, a, b }, model(r, kind, a, b))
}
#[unsafe(no_mangle)]
pub extern "C" fn h_chain() {
    let (id, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    let (c, r) = step(may(id, fail, e), if fail { Err(e) } else { Ok(id) });
    let (c, r) = step(c, r);
    outcome!(c, r, u8);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_t_chain() {
    let (id, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    let (c, r) = step(may(id, fail, e), if fail { Err(e) } else { Ok(id) });
    let (c, r) = step(c, r);
    let (c, r) = step(c, r);
    outcome!(c, r, u8);
}

// ---- where values are put
#[unsafe(no_mangle)]
pub extern "C" fn h_emplace() {
    let (a, b) = (vp::u8(), vp::u8());
    {
        let x = emplace!(make(a));
        VP_CHECK!(x.is(a) && live() == 1);
        {
            let y = emplace!(make(b));
            VP_CHECK!(y.is(b) && x.is(a) && live() == 2);
        }
        VP_CHECK!(live() == 1 && x.is(a));
    }
    VP_CHECK!(done() && logged(&[Ev::Made(a), Ev::Made(b), Ev::Dropped(b), Ev::Dropped(a)]));
    let n = emplace!(make(b)).id;
    VP_CHECK!(n == b && done());
    VP_CHECK!(construct(a) == a && *emplace!(b) == b);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_try_emplace() {
    let (a, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    {
        let x = try_emplace!(may(a, fail, e));
        VP_CHECK!(live() == !fail as i32);
        match x {
            Ok(x) => VP_CHECK!(x.is(a) && !fail), // VP_MAYBE
            Err(f) => VP_CHECK!(f == e && fail), // VP_MAYBE
        }
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_boxes() {
    let (a, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    let heap = vp::live_heap();
    {
        let x = Box::<T>::try_emplace(may(a, fail, e));
        VP_CHECK!(live() == !fail as i32 && vp::live_heap() == heap + !fail as i32);
        VP_CHECK!(match &x { Ok(x) => x.is(a) && !fail, Err(f) => *f == e && fail });
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
    {
        let x = Rc::<T>::try_emplace(may(a, fail, e));
        VP_CHECK!(live() == !fail as i32 && vp::live_heap() == heap + !fail as i32);
        VP_CHECK!(match &x { Ok(x) => x.is(a) && !fail, Err(f) => *f == e && fail });
        if let Ok(x) = &x {
            let y = x.clone();
            VP_CHECK!(y.is(a) && live() == 1);
        }
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
    {
        let x = Arc::<T>::try_emplace(may(a, fail, e));
        VP_CHECK!(live() == !fail as i32 && vp::live_heap() == heap + !fail as i32);
        VP_CHECK!(match &x { Ok(x) => x.is(a) && !fail, Err(f) => *f == e && fail });
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
    {
        let (x, y, z) = (Box::emplace(make(a)), Rc::emplace(make(e)), Arc::emplace(make(a)));
        VP_CHECK!(x.is(a) && y.is(e) && z.is(a) && live() == 3 && vp::live_heap() == heap + 3);
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
}

// ---- Slot
fn slot_ops(n: usize) {
    {
        let mut s = emplace!(Slot::<T>::uninit());
        let mut model: Option<u8> = None;
        for _ in 0..n {
            let (a, e) = (vp::u8(), vp::u8());
            match vp::pick(5) {
                0 => { s.as_mut().clear(); model = None; }
                1 => { let p = s.as_mut().replace(make(a)); VP_CHECK!(p.is(a)); model = Some(a); }
                2 => {
                    let fail = vp::bool();
                    let r = s.as_mut().try_replace(may(a, fail, e));
                    VP_CHECK!(match r { Ok(p) => !fail && p.is(a), Err(f) => fail && f == e });
                    model = if fail { None } else { Some(a) };
                }
                3 => {
                    // The constructor runs after the previous value is gone.
                    let before = model.is_some() as i32;
                    VP_CHECK!(live() == before);
                    let r = s.as_mut().try_replace(may(a, false, e).ctor_then(|p| if p.is(a) && live() == 1 { Err(e) } else { Ok(()) }));
                    VP_CHECK!(matches!(r, Err(f) if f == e));
                    drop(r);
                    model = None;
                }
                _ => {
                    VP_CHECK!(match (s.as_opt(), model) { (Some(t), Some(m)) => t.is(m), (None, None) => true, _ => false });
                    if let Some(p) = s.as_mut().as_opt_mut() { unsafe { Pin::into_inner_unchecked(p) }.id = a; model = Some(a); }
                }
            }
            VP_CHECK!(match (s.as_opt(), model) { (Some(t), Some(m)) => t.is(m), (None, None) => true, _ => false });
            VP_CHECK!(live() == model.is_some() as i32 && good());
        }
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_slot() { slot_ops(3) }
#[unsafe(no_mangle)]
pub extern "C" fn h_t_slot() { slot_ops(5) }
#[unsafe(no_mangle)]
pub extern "C" fn h_slot_new() {
    let (a, fail, e) = (vp::u8(), vp::bool(), vp::u8());
    {
        let s = try_emplace!(Slot::new(may(a, fail, e)));
        VP_CHECK!(live() == !fail as i32);
        VP_CHECK!(match &s { Ok(s) => !fail && s.as_opt().is_some_and(|t| t.is(a)), Err(f) => fail && *f == e });
    }
    VP_CHECK!(done());
    let heap = vp::live_heap();
    {
        let s = Box::<Slot<T>>::try_emplace(Slot::new(may(a, fail, e)));
        VP_CHECK!(live() == !fail as i32 && vp::live_heap() == heap + !fail as i32 && s.is_err() == fail);
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
}

// ---- ctor!
#[recursively_pinned]
struct Four { a: T, b: u16, c: T, d: [u8; 3] }
#[recursively_pinned(PinnedDrop)]
struct Nest { x: T, four: Four, y: T }
impl PinnedDrop for Nest {
    unsafe fn pinned_drop(self: Pin<&mut Self>) {
        if !self.x.ok() || !self.four.a.ok() || !self.four.c.ok() || !self.y.ok() { w().bad += 1; }
        ev(Ev::Outer);
    }
}
#[recursively_pinned]
struct Tup(T, u32, T);
#[recursively_pinned]
struct Unit;
type BU = Box<u32>;
#[recursively_pinned]
struct Gen<A, B> { a: A, b: B }
#[recursively_pinned]
#[repr(C)]
union Un { u: u32, m: ManuallyDrop<T> }
fn four(a: u8, b: u16, c: u8, d: [u8; 3]) -> Ctor![Four] { ctor!(Four { c: make(c), a: make(a), d: d, b: b }) }

#[unsafe(no_mangle)]
pub extern "C" fn h_ctor_macro() {
    let (a, b, c, d) = (vp::u8(), vp::u16(), vp::u8(), vp::bytes::<3>());
    {
        let mut x = emplace!(four(a, b, c, d));
        VP_CHECK!(x.a.is(a) && x.b == b && x.c.is(c) && x.d == d && live() == 2 && good());
        // Fields are made in the order written
        VP_CHECK!(logged(&[Ev::Made(c), Ev::Made(a)]));
        {
            let p = x.as_mut().project_pin();
            VP_CHECK!(p.a.is(a) && *p.b == b && p.c.is(c) && *p.d == d);
            *p.b.get_mut() = 7;
            unsafe { Pin::into_inner_unchecked(p.c) }.id = 3;
        }
        VP_CHECK!(x.b == 7 && x.c.is(3) && x.a.is(a) && x.d == d);
        let q = x.as_ref().project_ref();
        VP_CHECK!(q.a.is(a) && *q.b == 7 && q.c.is(3) && *q.d == d && core::ptr::eq(&*q.d, &x.d) && core::ptr::eq(&*q.b, &x.b));
    }
    // and dropped in the order declared
    VP_CHECK!(done() && logged(&[Ev::Made(c), Ev::Made(a), Ev::Dropped(a), Ev::Dropped(3)]));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ctor_nested() {
    let (a, b, c, d) = (vp::u8(), vp::u16(), vp::u8(), vp::bytes::<3>());
    let (x, y) = (vp::u8(), vp::u8());
    let heap = vp::live_heap();
    {
        let n = Box::emplace(ctor!(Nest { x: make(x), four: four(a, b, c, d), y: make(y) }));
        VP_CHECK!(n.x.is(x) && n.y.is(y) && n.four.a.is(a) && n.four.c.is(c) && n.four.b == b && n.four.d == d);
        VP_CHECK!(live() == 4 && good() && vp::live_heap() == heap + 1);
        let p = n.as_ref().project_ref().four.project_ref();
        VP_CHECK!(p.c.is(c) && *p.d == d);
    }
    VP_CHECK!(done() && vp::live_heap() == heap);
    VP_CHECK!(logged(&[Ev::Made(x), Ev::Made(c), Ev::Made(a), Ev::Made(y), Ev::Outer, Ev::Dropped(x), Ev::Dropped(a), Ev::Dropped(c), Ev::Dropped(y)]));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ctor_tuple() {
    let (a, b, c) = (vp::u8(), vp::u32(), vp::u8());
    {
        let mut t = emplace!(ctor!(Tup(make(a), b, make(c))));
        VP_CHECK!(t.0.is(a) && t.1 == b && t.2.is(c) && live() == 2);
        let p = t.as_mut().project_pin();
        VP_CHECK!(p.0.is(a) && *p.1 == b && p.2.is(c));
        let r = emplace!(ctor!(Tup { 2: make(c), 0: make(a), 1: b }));
        VP_CHECK!(r.0.is(a) && r.1 == b && r.2.is(c) && live() == 4 && good());
    }
    VP_CHECK!(done());
    let _ = emplace!(ctor!(Unit));
    {
        let g = emplace!(ctor!(Gen::<T, u32> { a: make(a), b: b }));
        VP_CHECK!(g.a.is(a) && g.b == b && good());
        let q = g.as_ref().project_ref();
        VP_CHECK!(q.a.is(a) && *q.b == b);
        let h = emplace!(ctor!(Gen::<u32, Tup> { b: ctor!(Tup(make(c), b, make(a))), a: b }));
        VP_CHECK!(h.a == b && h.b.0.is(c) && h.b.1 == b && h.b.2.is(a) && live() == 3);
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ctor_union() {
    let (a, b) = (vp::u8(), vp::u32());
    {
        let u = emplace!(ctor!(Un { u: b }));
        VP_CHECK!(unsafe { u.u } == b);
        let m = emplace!(ctor!(Un { m: ManuallyDropCtor::new(make(a)) }));
        VP_CHECK!(unsafe { m.m.is(a) } && live() == 1 && good());
        // Fields of a union are never dropped
        unsafe { ManuallyDrop::drop(&mut Pin::into_inner_unchecked(m).m) };
    }
    VP_CHECK!(done());
}
#[recursively_pinned(project_pin = MyPin, project_ref = MyRef)]
enum En { A(T, u8), B { x: u32, t: T }, C }
#[unsafe(no_mangle)]
pub extern "C" fn h_project_enum() {
    let (a, b, k) = (vp::u8(), vp::u32(), vp::pick(3));
    {
        // An enum has no ctor!; its fields are laid out by hand.
        let mut e = Box::pin(MaybeUninit::<En>::uninit());
        let e = unsafe { e.as_mut().get_unchecked_mut() };
        let me = e.as_mut_ptr();
        e.write(match k {
            0 => En::A(T { me: core::ptr::null(), id: a }, 5, Default::default()),
            1 => En::B { __must_use_ctor_to_initialize: Default::default(), x: b, t: T { me: core::ptr::null(), id: a } },
            _ => En::C { __must_use_ctor_to_initialize: Default::default() },
        });
        w().live += (k < 2) as i32;
        match unsafe { &mut *me } {
            En::A(t, ..) | En::B { t, .. } => t.me = &raw const *t,
            _ => {}
        }
        let mut p = unsafe { Pin::new_unchecked(&mut *me) };
        VP_CHECK!(match p.as_ref().project_ref() {
            MyRef::A(t, n, ..) => k == 0 && t.is(a) && *n == 5,
            MyRef::B { x, t, .. } => k == 1 && *x == b && t.is(a),
            MyRef::C { .. } => k == 2,
        });
        match p.as_mut().project_pin() {
            MyPin::B { x, .. } => *x.get_mut() = !b,
            MyPin::A(_, n, ..) => *n.get_mut() = a,
            MyPin::C { .. } => {}
        }
        VP_CHECK!(match unsafe { &*me } { En::A(t, n, ..) => *n == a && t.is(a), En::B { x, t, .. } => *x == !b && t.is(a), En::C { .. } => true });
        unsafe { core::ptr::drop_in_place(me) };
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_raw_ctor() {
    struct Raw { a: T, b: u32, pad: MaybeUninit<u64> }
    struct RawFields { a: T, b: u32 }
    let (a, b) = (vp::u8(), vp::u32());
    {
        let r = emplace!(unsafe { raw_ctor!(Raw { b: b, a: make(a), pad: MaybeUninit::new(3) }) });
        VP_CHECK!(r.a.is(a) && r.b == b && unsafe { r.pad.assume_init() } == 3);
        let s = emplace!(unsafe { raw_ctor!(#[fields = RawFields] Raw { a: make(a), b: b }) });
        VP_CHECK!(s.a.is(a) && s.b == b && live() == 2);
    }
    VP_CHECK!(done());
}

// ---- copying, moving, assigning
#[unsafe(no_mangle)]
pub extern "C" fn h_copy_move() {
    let a = vp::u8();
    {
        let mut x = emplace!(make(a));
        let y = emplace!(copy(&*x));
        VP_CHECK!(y.is(a) && x.is(a) && logged(&[Ev::Made(a), Ev::Copied(a), Ev::Made(a)]));
        let z = emplace!(mov!(x));
        VP_CHECK!(z.is(a) && live() == 3 && w().log[3] == Ev::Moved(a));
        let v = emplace!(const_mov!(y.as_ref()));
        VP_CHECK!(v.is(a) && live() == 4 && w().log[5] == Ev::Moved(a));
        let b = Box::<T>::emplace(copy(z));
        VP_CHECK!(b.is(a) && live() == 5 && w().log[7] == Ev::Copied(a));
        let mut q = emplace!(make(a));
        let c = emplace!(ByValue(mov!(q)));
        VP_CHECK!(c.is(a) && live() == 7 && w().log[10] == Ev::Moved(a) && good());
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_refs() {
    let (a, b) = (vp::u8(), vp::u8());
    {
        let mut x = emplace!(make(a));
        let at = &raw const *x;
        let mut r = mov!(x);
        VP_CHECK!(core::ptr::eq(r.get_ref(), at) && core::ptr::eq(&*r, at) && core::ptr::eq(r.as_const().0, at) && core::ptr::eq(&*r.as_const(), at));
        VP_CHECK!(core::ptr::eq(&*r.as_mut(), at) && core::ptr::eq(r.as_const().get_ref(), at));
        unsafe { Pin::into_inner_unchecked(r.as_mut()) }.id = b;
        VP_CHECK!(core::ptr::eq(&*ByValue(r), at) && x.is(b));
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_assign() {
    let (a, b) = (vp::u8(), vp::u8());
    {
        let mut x = emplace!(make(a));
        let y = emplace!(make(b));
        if vp::bool() { x.as_mut().assign(&*y) } else { x.as_mut().assign(copy(&*y)) }
        VP_CHECK!(x.is(b) && y.is(b) && live() == 2 && logged(&[Ev::Made(a), Ev::Made(b), Ev::Assigned(b)]));
    }
    VP_CHECK!(done());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_reconstruct() {
    let (a, b) = (vp::u8(), vp::u8());
    {
        let mut x = emplace!(make(a));
        unsafe { reconstruct(x.as_mut(), make(b)) };
        VP_CHECK!(x.is(b) && live() == 1 && logged(&[Ev::Made(a), Ev::Dropped(a), Ev::Made(b)]));
    }
    VP_CHECK!(done());
}
/// An Unpin type which owns memory: the blanket implementations.
#[unsafe(no_mangle)]
pub extern "C" fn h_unpin() {
    let (a, b) = (vp::u32(), vp::u32());
    let heap = vp::live_heap();
    {
        let mut x = construct(Box::new(a));
        let y = emplace!(Box::new(b));
        VP_CHECK!(*x == a && **y == b && vp::live_heap() == heap + 2);
        Pin::new(&mut x).assign(&*y);
        VP_CHECK!(*x == b && **y == b && vp::live_heap() == heap + 2 && &raw const *x != &raw const **y);
        let z = construct(copy(&x));
        VP_CHECK!(*z == b && vp::live_heap() == heap + 3);
        let m = Box::emplace(RustMoveCtor::<_, Infallible>::new(z));
        VP_CHECK!(**m == b && vp::live_heap() == heap + 4);
        let s: Box<u32> = construct(<Box<u32> as CtorNew<()>>::ctor_new(()));
        VP_CHECK!(*s == 0);
        let s: Box<u32> = construct(<Box<u32> as CtorNew<&Box<u32>>>::ctor_new(&x));
        VP_CHECK!(*s == b);
        let e: Result<Box<u32>, u32> = match try_emplace!(ctor_error::<u32, u32>(a)) { Ok(_) => Ok(Box::new(0)), Err(e) => Err(e) };
        VP_CHECK!(e == Err(a));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_dropped_ctors() {
    // A Ctor which is not used owns what it was given, and makes nothing.
    let heap = vp::live_heap();
    let a = vp::u32();
    {
        let c = ctor!(Gen::<BU, BU> { a: Box::new(a), b: RustMoveCtor::<_, Infallible>::new(Box::new(a)) });
        VP_CHECK!(vp::live_heap() == heap + 2);
        drop(c);
        VP_CHECK!(vp::live_heap() == heap);
        let c = RustMoveCtor::<_, u8>::new(Box::new(a)).ctor_map_err(|e| e).ctor_then(|_| Ok(()));
        drop(c);
    }
    VP_CHECK!(vp::live_heap() == heap && done());
    {
        let fail = vp::bool();
        let x = try_emplace!(RustMoveCtor::<Box<u32>, u8>::new(Box::new(a)).ctor_then(|p| { if **p != a { w().bad += 1; } if fail { Err(4) } else { Ok(()) } }));
        VP_CHECK!(match x { Ok(p) => !fail && **p == a, Err(e) => fail && e == 4 });
    }
    VP_CHECK!(vp::live_heap() == heap && done());
}

// ---- derives
#[derive(CtorFrom_Default)]
#[recursively_pinned]
struct Def { t: T, n: u32, v: T }
#[derive(CtorFrom_Default)]
#[recursively_pinned]
struct DefTup(u8, T);
#[derive(Clone, Copy, MoveAndAssignViaCopy)]
struct Plain { a: u32, b: u8 }
#[unsafe(no_mangle)]
pub extern "C" fn h_derives() {
    {
        let d = emplace!(Def::ctor_new(()));
        VP_CHECK!(d.t.is(99) && d.n == 0 && d.v.is(99) && live() == 2);
        let e = emplace!(DefTup::ctor_new(()));
        VP_CHECK!(e.0 == 0 && e.1.is(99) && live() == 3);
    }
    VP_CHECK!(done());
    let (a, b, c, d) = (vp::u32(), vp::u8(), vp::u32(), vp::u8());
    let mut x = Plain { a, b };
    let mut y = Plain { a: c, b: d };
    let m = Plain::from(mov!(&mut y));
    VP_CHECK!(m.a == c && m.b == d && y.a == c);
    let e = emplace!(mov!(&mut x));
    VP_CHECK!(e.a == a && e.b == b);
    let mut z = Plain { a: 0, b: 0 };
    z.unpin_assign(&x);
    VP_CHECK!(z.a == a && z.b == b);
    z.unpin_assign(mov!(&mut y));
    VP_CHECK!(z.a == c && z.b == d && y.a == c && y.b == d && x.a == a);
}
