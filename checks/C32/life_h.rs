use sample::*;
use ctor::{Assign, CtorNew, Emplace, UnpinAssign};
use core::pin::Pin;
const P: i32 = 0; const R: i32 = 1; const M: i32 = 2; const C: i32 = 3; const U: i32 = 4; const D: i32 = 5; const X: i32 = 6;
const GONE: u64 = 0xdead;
/// default, from values, copy, move, copy-assign, move-assign, destroy
fn n(who: i32, kind: i32) -> u64 { count(kind, who) }
fn made(who: i32) -> u64 { n(who, 1) + n(who, 2) + n(who, 3) + n(who, 4) }
/// Everything of this class is gone, and was always used where it was built.
fn clean(who: i32) -> bool { made(who) == n(who, 7) && bad() == 0 }
fn none_live() -> bool { vp::live_heap() == 0 }

#[unsafe(no_mangle)]
pub extern "C" fn h_pinned_construct() {
    let (v, b) = (vp::u64(), vp::u8());
    {
        let x = ctor::emplace!(<Pinned as CtorNew<()>>::ctor_new(()));
        VP_CHECK!(x.v() == 11 && n(P, 1) == 1 && made(P) == 1 && n(P, 7) == 0);
        let y = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
        VP_CHECK!(y.v() == v && made(P) == 2);
        let z = ctor::emplace!(<Pinned as CtorNew<(u64, u8)>>::ctor_new((v, b)));
        VP_CHECK!(z.v() == v ^ b as u64 && n(P, 2) == 2 && made(P) == 3 && n(P, 7) == 0);
        VP_CHECK!(ref_pinned(&y) == v);
        let mut y = y;
        set_pinned(y.as_mut(), b as u64);
        VP_CHECK!(y.v() == b as u64 && ref_pinned(&y) == b as u64 && z.v() == v ^ b as u64);
        y.as_mut().set(v);
        VP_CHECK!(y.v() == v);
    }
    VP_CHECK!(n(P, 7) == 3 && clean(P) && none_live());
    // a Ctor that is never used constructs nothing
    drop(<Pinned as CtorNew<u64>>::ctor_new(v));
    VP_CHECK!(made(P) == 3);
    // in a box
    {
        let x: Pin<Box<Pinned>> = Box::emplace(<Pinned as CtorNew<u64>>::ctor_new(v));
        VP_CHECK!(x.v() == v && made(P) == 4);
    }
    VP_CHECK!(n(P, 7) == 4 && clean(P) && none_live());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pinned_copy_move() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut x = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
        let mut y = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(w));
        let c = ctor::emplace!(ctor::copy(&*x));
        VP_CHECK!(c.v() == v && x.v() == v && n(P, 3) == 1 && n(P, 4) == 0);
        let m = ctor::emplace!(ctor::mov!(x.as_mut()));
        VP_CHECK!(m.v() == v && x.v() == GONE && n(P, 4) == 1 && n(P, 3) == 1);
        let c2 = ctor::emplace!(<Pinned as CtorNew<&Pinned>>::ctor_new(&*m));
        VP_CHECK!(c2.v() == v && m.v() == v && n(P, 3) == 2);
        x.as_mut().assign(&*y);
        VP_CHECK!(x.v() == w && y.v() == w && n(P, 5) == 1 && n(P, 6) == 0);
        y.as_mut().set(v ^ 1);
        VP_CHECK!(x.v() == w && y.v() == v ^ 1);
        x.as_mut().assign(ctor::mov!(y.as_mut()));
        VP_CHECK!(x.v() == v ^ 1 && y.v() == GONE && n(P, 5) == 1 && n(P, 6) == 1);
        x.as_mut().assign(ctor::copy(&*c2));
        VP_CHECK!(x.v() == v && n(P, 5) == 2);
        VP_CHECK!(made(P) == 5 && n(P, 7) == 0);
    }
    VP_CHECK!(n(P, 7) == 5 && clean(P) && none_live());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pinned_by_value() {
    let (v, w, k) = (vp::u64(), vp::u64(), vp::u64());
    VP_CHECK!(use_pinned(make_pinned(v)) == v);
    VP_CHECK!(n(P, 3) == 0 && clean(P) && none_live());
    {
        let mut x = ctor::emplace!(make_pinned(v));
        VP_CHECK!(x.v() == v && n(P, 3) == 0);
        VP_CHECK!(use_pinned(ctor::copy(&*x)) == v && x.v() == v);
        VP_CHECK!(n(P, 3) == 1);
        let y = ctor::emplace!(both(ctor::copy(&*x), k, make_pinned(w)));
        VP_CHECK!(y.v() == v ^ (w << 1) ^ (k << 2) && n(P, 3) == 2);
        VP_CHECK!(x.take(make_pinned(w)) == v ^ (w << 1));
        let z = ctor::emplace!(x.plus(w));
        VP_CHECK!(z.v() == v.wrapping_add(w) && x.v() == v);
        let m = ctor::emplace!(Pinned::make(k));
        VP_CHECK!(m.v() == k && n(P, 3) == 2);
        VP_CHECK!(use_pinned(ctor::mov!(x.as_mut())) == v && x.v() == GONE && n(P, 3) == 2);
    }
    VP_CHECK!(clean(P) && none_live());
    {
        let mut x = ctor::emplace!(make_pinned(v));
        VP_CHECK!(rv_pinned(ctor::mov!(x.as_mut())) == v && x.v() == GONE);
        let mut y = ctor::emplace!(make_pinned(w));
        VP_CHECK!(ctor::mov!(y.as_mut()).eat() == w && y.v() == GONE);
    }
    let before = made(P);
    drop(make_pinned(v));
    VP_CHECK!(made(P) == before + 0 || clean(P));
    VP_CHECK!(clean(P) && none_live() && n(P, 3) == 2);
}
/// A trivially relocatable class is an ordinary Rust value.
#[unsafe(no_mangle)]
pub extern "C" fn h_reloc() {
    let (v, w, k) = (vp::u64(), vp::u64(), vp::u64());
    {
        let x = Reloc::default();
        VP_CHECK!(x.v() == 12 && n(R, 1) == 1);
        let mut y = Reloc::from(v);
        VP_CHECK!(y.v() == v && n(R, 2) == 1 && n(R, 7) == 0);
        let mut c = y.clone();
        VP_CHECK!(c.v() == v && y.v() == v && n(R, 3) == 1);
        // Rust moves run no C++ code
        core::mem::swap(&mut y, &mut c);
        let moved = c;
        let b = Box::new(moved);
        VP_CHECK!(b.v() == v && made(R) == 3 && n(R, 7) == 0 && n(R, 4) == 0);
        let mut z = Reloc::from(w);
        z.unpin_assign(&*b);
        VP_CHECK!(z.v() == v && b.v() == v && n(R, 5) == 1);
        let mut q = Reloc::from(w);
        z.unpin_assign(ctor::mov!(Pin::new(&mut q)));
        VP_CHECK!(z.v() == w && q.v() == GONE && n(R, 6) == 1 && n(R, 5) == 1);
        let r = Reloc::from(ctor::mov!(Pin::new(&mut z)));
        VP_CHECK!(r.v() == w && z.v() == GONE && n(R, 4) == 1 && n(R, 3) == 1);
        let made_before = made(R);
        z = Reloc::from(k);
        VP_CHECK!(z.v() == k && made(R) == made_before + 1 && n(R, 7) == 1);
        drop(b);
        VP_CHECK!(n(R, 7) == 2);
    }
    VP_CHECK!(clean(R) && none_live());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_reloc_by_value() {
    let (v, w, k) = (vp::u64(), vp::u64(), vp::u64());
    VP_CHECK!(use_reloc(make_reloc(v)) == v);
    VP_CHECK!(n(R, 3) == 0 && clean(R) && none_live());
    {
        let x = Reloc::make(v);
        VP_CHECK!(use_reloc(x.clone()) == v && x.v() == v && n(R, 3) == 1);
        let y = both_reloc(x.clone(), k, make_reloc(w));
        VP_CHECK!(y.v() == v ^ (w << 1) ^ (k << 2));
        VP_CHECK!(x.take(y) == v ^ ((v ^ (w << 1) ^ (k << 2)) << 1));
        VP_CHECK!(n(R, 3) == 2);
        let z = pass_reloc(x);
        VP_CHECK!(z.v() == v && n(R, 3) == 2);
        core::mem::forget(z.clone());
        VP_CHECK!(n(R, 3) == 3);
    }
    VP_CHECK!(made(R) == n(R, 7) + 1 && vp::live_heap() == 1 && bad() == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_restricted() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut x = ctor::emplace!(make_mo(v));
        let mut y = ctor::emplace!(<MoveOnly as CtorNew<u64>>::ctor_new(w));
        VP_CHECK!(x.v() == v && y.v() == w);
        y.as_mut().assign(ctor::mov!(x.as_mut()));
        VP_CHECK!(x.v() == GONE && y.v() == v && n(M, 6) == 1);
        let z = ctor::emplace!(ctor::mov!(y.as_mut()));
        VP_CHECK!(z.v() == v && y.v() == GONE);
        VP_CHECK!(use_mo(make_mo(w)) == w);
    }
    VP_CHECK!(clean(M) && none_live());
    {
        let mut x = ctor::emplace!(make_co(v));
        let y = ctor::emplace!(ctor::copy(&*x));
        VP_CHECK!(x.v() == v && y.v() == v && n(C, 3) == 1);
        let z = ctor::emplace!(make_co(w));
        x.as_mut().assign(&*z);
        VP_CHECK!(x.v() == w && z.v() == w && y.v() == v && n(C, 5) == 1);
    }
    VP_CHECK!(clean(C) && none_live());
    {
        let x = ctor::emplace!(<Unmovable as CtorNew<u64>>::ctor_new(v));
        let y = ctor::emplace!(make_um(w));
        VP_CHECK!(x.v() == v && y.v() == w && made(U) == 2);
    }
    VP_CHECK!(n(U, 7) == 2 && clean(U) && none_live());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_destructor_only() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut x = ctor::emplace!(make_dtor(v));
        VP_CHECK!(x.v == v && n(D, 7) == 0);
        let y = ctor::emplace!(ctor::copy(&*x));
        VP_CHECK!(y.v == v && n(D, 7) == 0);
        let z = ctor::emplace!(make_dtor(w));
        x.as_mut().assign(&*z);
        VP_CHECK!(x.v == w && y.v == v && n(D, 7) == 0);
    }
    VP_CHECK!(n(D, 7) == 3);
    {
        let x = make_rdtor(v);
        let y = x.clone();
        VP_CHECK!(x.v == v && y.v == v && n(X, 7) == 0);
        let mut z = RDtor::default();
        VP_CHECK!(z.v == 0);
        z.unpin_assign(&y);
        VP_CHECK!(z.v == v && n(X, 7) == 0);
        drop(x);
        VP_CHECK!(n(X, 7) == 1);
        VP_CHECK!(use_rdtor(y) == v);
    }
    VP_CHECK!(n(X, 7) == 4);
}
/// Implicit members act on each field once.
#[unsafe(no_mangle)]
pub extern "C" fn h_fields() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut t = ctor::emplace!(make_two(v, w));
        let want = v ^ (w << 1) ^ 7;
        VP_CHECK!(two_sum(&t) == want && t.a.v() == v && t.b.v() == w && t.k == 7);
        let mut u = ctor::emplace!(ctor::copy(&*t));
        VP_CHECK!(two_sum(&u) == want && two_sum(&t) == want && n(P, 3) == 2);
        let d = ctor::emplace!(<Two as CtorNew<()>>::ctor_new(()));
        VP_CHECK!(d.a.v() == 11 && d.b.v() == 11 && n(P, 1) == 2);
        t.as_mut().assign(&*d);
        VP_CHECK!(t.a.v() == 11 && t.b.v() == 11 && n(P, 5) == 2);
        t.as_mut().assign(ctor::mov!(u.as_mut()));
        VP_CHECK!(two_sum(&t) == want && u.a.v() == GONE && u.b.v() == GONE && n(P, 6) == 2);
        VP_CHECK!(use_two(ctor::mov!(t.as_mut())) == want && t.a.v() == GONE && n(P, 3) == 2);
    }
    VP_CHECK!(clean(P) && none_live());
    {
        let m = make_mix(v);
        VP_CHECK!(mix_sum(&m) == v ^ 9 && m.r.v() == v && m.k == 9);
        let mut c = m.clone();
        VP_CHECK!(mix_sum(&c) == v ^ 9 && n(R, 3) == 1);
        let e = Mix::default();
        VP_CHECK!(e.r.v() == 12);
        c.unpin_assign(&e);
        VP_CHECK!(c.r.v() == 12 && n(R, 5) == 1);
        c.k = 1;
        VP_CHECK!(mix_sum(&c) == 12 ^ 1 && use_mix(m) == v ^ 9);
        VP_CHECK!(n(R, 3) == 1);
    }
    VP_CHECK!(clean(R) && none_live());
}
/// Destroying a derived object runs its destructor and its base's, once each.
#[unsafe(no_mangle)]
pub extern "C" fn h_derived() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut d = ctor::emplace!(<DerP as CtorNew<u64>>::ctor_new(v));
        VP_CHECK!(d.v() == v && d.extra == v.wrapping_add(1) && n(D, 2) == 1 && n(P, 2) == 1);
        d.as_mut().set(w);
        VP_CHECK!(derp_sum(&d) == w ^ (v.wrapping_add(1) << 1));
        let mut c = ctor::emplace!(ctor::copy(&*d));
        VP_CHECK!(c.v() == w && c.extra == v.wrapping_add(1) && n(P, 3) == 1);
        let b: &Pinned = oops::Upcast::upcast(&*d);
        VP_CHECK!(b.v() == w && core::ptr::eq(b as *const Pinned as *const u8, &raw const *d as *const u8));
        let p = ctor::emplace!(ctor::copy(b));
        VP_CHECK!(p.v() == w && n(P, 3) == 2);
        VP_CHECK!(d.take(make_pinned(v)) == w ^ (v << 1));
        VP_CHECK!(ctor::const_mov!(&*c).peek() == w.wrapping_add(1) && c.v() == w);
        VP_CHECK!(ctor::mov!(c.as_mut()).eat() == w && c.v() == GONE && c.extra == v.wrapping_add(1));
    }
    VP_CHECK!(n(D, 7) == 2 && clean(P) && none_live());
    {
        let mut d = DerR::from(v);
        VP_CHECK!(ctor::const_mov!(&d).peek() == v.wrapping_add(2) && d.v() == v);
        let h: &Head = oops::Upcast::upcast(&d);
        VP_CHECK!(h.h == v);
        VP_CHECK!(ctor::mov!(&mut d).eat() == v && d.v() == GONE && d.extra == v.wrapping_add(1));
    }
    VP_CHECK!(clean(R) && none_live());
}
/// By-value parameters of constructors and assignment: moved from where the caller keeps them, once.
#[unsafe(no_mangle)]
pub extern "C" fn h_from_values() {
    let (v, w, k) = (vp::u64(), vp::u64(), vp::u64());
    {
        let mut p = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
        let mut h = ctor::emplace!(<Holder as CtorNew<ctor::RvalueReference<Pinned>>>::ctor_new(ctor::mov!(p.as_mut())));
        VP_CHECK!(h.v() == v ^ 8 && p.v() == GONE && n(P, 4) == 2 && n(P, 3) == 0 && n(P, 7) == 1);
        let mut q = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(w));
        h.as_mut().assign(ctor::mov!(q.as_mut()));
        VP_CHECK!(h.v() == w ^ 16 && q.v() == GONE && n(P, 4) == 3 && n(P, 6) == 1 && n(P, 7) == 2);
        q.as_mut().set(k);
        let g = ctor::emplace!(<Holder as CtorNew<(ctor::RvalueReference<Pinned>, u64, Reloc)>>::ctor_new((ctor::mov!(q.as_mut()), k, Reloc::from(w))));
        VP_CHECK!(g.v() == k ^ (w << 1) ^ (k << 3) && q.v() == GONE);
        VP_CHECK!(n(R, 2) == 1 && made(R) == n(R, 7));
        q.as_mut().set(w);
        p.as_mut().set(k);
        let i = ctor::emplace!(<Holder as CtorNew<(&Pinned, ctor::RvalueReference<Pinned>)>>::ctor_new((&q, ctor::mov!(p.as_mut()))));
        VP_CHECK!(i.v() == k ^ (w << 3) && p.v() == GONE && q.v() == w);
        let mut m = ctor::emplace!(make_mo(v));
        let made_m = n(M, 4);
        let j = ctor::emplace!(<Holder as CtorNew<ctor::RvalueReference<MoveOnly>>>::ctor_new(ctor::mov!(m.as_mut())));
        VP_CHECK!(j.v() == v ^ 24 && m.v() == GONE && n(M, 4) == made_m + 1);
        let c = ctor::emplace!(<Holder as CtorNew<&Holder>>::ctor_new(&h));
        VP_CHECK!(c.v() == h.v());
    }
    VP_CHECK!(clean(P) && clean(R) && clean(M) && none_live());
    // a pending constructor that is dropped leaves its arguments alone
    {
        let mut p = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
        drop(<Holder as CtorNew<ctor::RvalueReference<Pinned>>>::ctor_new(ctor::mov!(p.as_mut())));
        VP_CHECK!(p.v() == v);
    }
    VP_CHECK!(clean(P) && none_live());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_reloc_from_values() {
    let (v, w, k) = (vp::u64(), vp::u64(), vp::u64());
    {
        let mut p = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
        let mut a = RHolder::from((ctor::mov!(p.as_mut()), k));
        VP_CHECK!(a.v() == v ^ k && p.v() == GONE);
        let b = RHolder::from(Reloc::from(w));
        VP_CHECK!(b.v() == w && n(R, 3) == 0);
        a.unpin_assign(Reloc::from(k));
        VP_CHECK!(a.v() == k && b.v() == w && n(R, 6) == 1);
        let mut x = b;
        let y = RHolder::from(ctor::mov!(Pin::new(&mut x)));
        VP_CHECK!(y.v() == w && x.v() == GONE);
    }
    VP_CHECK!(clean(P) && clean(R) && none_live());
}
