use sample::*;
use sample::far::Deep;
use ctor::CtorNew;
use core::pin::Pin;
use oops::{Upcast, UnsafeUpcast};

/// The virtual base's address, seen from the most-derived object and from its parts, is C++'s.
#[unsafe(no_mangle)]
pub extern "C" fn h_join() {
    let v = vp::u64();
    let mut j = ctor::emplace!(<Join as CtorNew<u64>>::ctor_new(v));
    {
        let l: &Left = (&*j).upcast();
        let r: &Right = (&*j).upcast();
        let b: &Root = (&*j).upcast();
        VP_CHECK!(&raw const *l as usize == at_join_left(&j) && &raw const *r as usize == at_join_right(&j));
        VP_CHECK!(&raw const *b as usize == at_join_root(&j));
        let (lb, rb): (&Root, &Root) = (l.upcast(), r.upcast());
        VP_CHECK!(&raw const *lb as usize == at_left_root(l) && &raw const *rb as usize == at_right_root(r));
        VP_CHECK!(core::ptr::eq(lb, b) && core::ptr::eq(rb, b));
        VP_CHECK!(b.r == v && b.k == 3 && l.left == (v ^ 5).wrapping_add(1) && r.right == (v ^ 6).wrapping_add(2) as u8 && j.join == v as u16);
        VP_CHECK!(j.sum() == v.wrapping_add(3) && l.sum() == v.wrapping_add(3) && r.sum() == v.wrapping_add(3));
    }
    let d = vp::u32();
    j.as_mut().bump(d);
    { let l: Pin<&mut Left> = j.as_mut().upcast(); l.bump(d); }
    j.as_mut().as_left().bump(d);
    { let b: Pin<&mut Root> = j.as_mut().upcast(); VP_CHECK!(b.k == d.wrapping_mul(3).wrapping_add(3)); unsafe { b.get_unchecked_mut() }.r = 7; }
    VP_CHECK!(j.sum() == d.wrapping_mul(3).wrapping_add(3) as u64 + 7);
}
/// The same classes as parts of a larger one: the base sits elsewhere.
#[unsafe(no_mangle)]
pub extern "C" fn h_deep() {
    let v = vp::u64();
    let mut d = ctor::emplace!(<Deep as CtorNew<u64>>::ctor_new(v));
    {
        let j: &Join = (&*d).upcast();
        let b: &Root = (&*d).upcast();
        let r: &Right = (&*d).upcast();
        let p: &Pad = (&*d).upcast();
        VP_CHECK!(&raw const *p as usize == &raw const *d as usize);
        VP_CHECK!(&raw const *j as usize == at_deep_join(&d) && &raw const *b as usize == at_deep_root(&d) && &raw const *r as usize == at_deep_right(&d));
        let jb: &Root = j.upcast();
        let rb: &Root = r.upcast();
        VP_CHECK!(core::ptr::eq(jb, b) && core::ptr::eq(rb, b) && core::ptr::eq(<&Join as Upcast<&Right>>::upcast(j), r));
        VP_CHECK!(b.r == v && b.k == 4 && j.join == (v ^ 7) as u16 && d.deep == v.wrapping_add(9));
        VP_CHECK!(d.sum() == v.wrapping_add(4) && j.sum() == v.wrapping_add(4));
    }
    let n = vp::u32();
    d.as_mut().bump(n);
    { let r: Pin<&mut Right> = d.as_mut().upcast(); r.bump(1); }
    VP_CHECK!(d.sum() == v.wrapping_add(n.wrapping_add(5) as u64));
    unsafe {
        let q: *mut Deep = d.as_mut().get_unchecked_mut();
        let l: *mut Left = q.unsafe_upcast();
        let b: *mut Root = l.unsafe_upcast();
        VP_CHECK!(b as usize == at_deep_root(&*q));
        let b: *const Root = (q as *const Deep).unsafe_upcast();
        VP_CHECK!((*b).r == v);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_alone() {
    let (v, w) = (vp::u64(), vp::u64());
    let l = ctor::emplace!(<Left as CtorNew<u64>>::ctor_new(v));
    let r = ctor::emplace!(<Right as CtorNew<u64>>::ctor_new(w));
    let (a, b): (&Root, &Root) = ((&*l).upcast(), (&*r).upcast());
    VP_CHECK!(a.r == v && a.k == 1 && b.r == w && b.k == 2);
    VP_CHECK!(&raw const *a as usize == at_left_root(&l) && &raw const *b as usize == at_right_root(&r));
    VP_CHECK!(l.sum() == v.wrapping_add(1) && r.sum() == w.wrapping_add(2) && l.left == v.wrapping_add(1) && r.right == w.wrapping_add(2) as u8);
}
