use sample::*;
use ctor::CtorNew;
use core::pin::Pin;
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(11).wrapping_add(x) }
fn i(x: u32) -> i32 { x as i32 }

#[unsafe(no_mangle)]
pub extern "C" fn h_indexing() {
    use operator::{CcIndex, CcIndexMut};
    let (i, j, v, w) = (vp::u8() as usize, vp::u8() as usize, vp::u64(), vp::u64());
    let mut a = Arr::default();
    { *Pin::new(&mut a).cc_index_mut(i) = v; }
    VP_CHECK!(*a.cc_index(i) == v);
    VP_CHECK!(*a.cc_index(i ^ 1) == 0);
    { *Pin::new(&mut a).cc_index_mut(j) = w; }
    VP_CHECK!(*a.cc_index(j) == w && *a.cc_index(i) == if (i & 3) == (j & 3) { w } else { v });
    VP_CHECK!(a.cc_index(i) as *const u64 as usize == &raw const a as usize + 8 * (i & 3));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_delete() {
    let (v, w) = (vp::u64(), vp::u64());
    let o = Obj::create(v);
    let s = Sub::create_sub(w);
    unsafe {
        VP_CHECK!((*o).v() == v && (*s).v() == w);
        <Obj as operator::Delete>::delete(o);
        VP_CHECK!(destroyed() == v);
        let b: *mut Obj = oops::UnsafeUpcast::unsafe_upcast(s);
        VP_CHECK!((*b).v() == w);
        <Obj as operator::Delete>::delete(b);
        VP_CHECK!(destroyed() == mx(mx(v, w.wrapping_add(1) ^ 0x55), w));
        let t = Sub::create_sub(v);
        <Sub as operator::Delete>::delete(t);
        <Sub as operator::Delete>::delete(core::ptr::null_mut());
    }
    VP_CHECK!(vp::live_heap() == 0);
    let d = destroyed();
    { let x = ctor::emplace!(<Sub as CtorNew<u64>>::ctor_new(w)); VP_CHECK!(x.v() == w); }
    VP_CHECK!(destroyed() == mx(mx(d, w.wrapping_add(1) ^ 0x55), w));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pinned_operators() {
    let (v, w) = (vp::u64(), vp::u64());
    {
        let mut a = ctor::emplace!(<Big as CtorNew<u64>>::ctor_new(v));
        let b = ctor::emplace!(<Big as CtorNew<u64>>::ctor_new(w));
        VP_CHECK!((*a == *b) == (v == w) && (*a != *b) == (v != w));
        VP_CHECK!((*a < *b) == (v < w) && (*a > *b) == (v > w) && (*a <= *b) == (v <= w) && (*a >= *b) == (v >= w));
        let s = ctor::emplace!(&*a + &*b);
        VP_CHECK!(s.v() == mx(v, w) && live_bigs() == 3);
        let n = ctor::emplace!(-&*a);
        VP_CHECK!(n.v() == !v && a.v() == v && b.v() == w);
        let c = ctor::emplace!(ctor::copy(&*n));
        VP_CHECK!(c.v() == !v && live_bigs() == 5);
        *a.as_mut().slot() = 4;
        VP_CHECK!(a.v() == 4);
    }
    VP_CHECK!(live_bigs() == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_from_pointers() {
    let v = vp::u64();
    unsafe {
        VP_CHECK!(<FromPtr as ctor::UnsafeFrom<*const u64>>::unsafe_from(&raw const v).v == v);
        VP_CHECK!(<FromPtr as ctor::UnsafeFrom<*const u64>>::unsafe_from(core::ptr::null()).v == 1);
        let r = FromRef::from(&v);
        VP_CHECK!(r.p == &raw const v && r.get() == v);
    }
    let k = ByKey { s: v };
    VP_CHECK!(k.unary_plus().s == v.wrapping_add(5));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_free_operators() {
    let (v, w) = (vp::u64(), vp::u64());
    let (mut a, b) = (Num { v }, Num { v: w });
    VP_CHECK!((&a + w).v == v.wrapping_add(w));
    VP_CHECK!((-&a).v == !v && (!&a).v == v.wrapping_mul(3));
    a += &b;
    VP_CHECK!(a.v == mx(v, w) && b.v == w);
    let mut x = v;
    VP_CHECK!(take_rv(ctor::mov!(Pin::new(&mut x))) == v && x == 7);
    VP_CHECK!(take_num(ctor::mov!(Pin::new(&mut a))) == mx(v, w) && a.v == 3);
    let c = vp::u8();
    VP_CHECK!(anon(v, c, w) == mx(mx(v, c as u64), w));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_arrays_by_pointer() {
    let mut s = [Small::default(); 3];
    for x in s.iter_mut() { *x = Small { a: vp::u8(), b: vp::u8() }; }
    let (a, n) = (vp::u8(), vp::pick(4) as usize);
    unsafe {
        let p = find(s.as_mut_ptr(), n, a);
        let want = s[..n].iter().position(|x| x.a == a);
        VP_CHECK!(p == match want { Some(k) => s.as_mut_ptr().add(k), None => core::ptr::null_mut() });
        let mut h = 0;
        for x in &s[..n] { h = mx(h, x.a as u64 * 256 + x.b as u64); }
        VP_CHECK!(sum(s.as_ptr(), n) == h);
        let v = vp::u16();
        let mut o = [9u16; 4];
        fill(o.as_mut_ptr(), n, v);
        for k in 0..4 { VP_CHECK!(o[k] == if k < n { v.wrapping_add(k as u16) } else { 9 }); }
        VP_CHECK!(text(0).is_null() && len(text(1)) == 3 && u8::from(*text(1).add(2)) == b'c');
    }
}
unsafe extern "C" fn cb(ctx: *mut ffi_11::c_void, x: u64) -> u64 { unsafe { let c = ctx as *mut u64; *c += 1; mx(*c, x) } }
extern "C" fn fw(x: u64) -> u64 { !x }
unsafe extern "C" fn gs(s: *mut Small, d: i32) { unsafe { (*s).a = (*s).a.wrapping_add(d as u8) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_callbacks() {
    let (x, c0) = (vp::u64(), vp::u8() as u64);
    unsafe {
        let mut c = c0;
        let r = cb_sum(Some(cb), &raw mut c as *mut ffi_11::c_void, 2);
        VP_CHECK!(c == c0 + 2 && r == mx(mx(0, mx(c0 + 1, 0)), mx(c0 + 2, 1)));
        let a = vp::u8();
        let mut s = Small { a, b: 1 };
        VP_CHECK!(use_cbs(&CBs { f: Some(fw), g: Some(gs) }, x, &raw mut s) == !x);
        VP_CHECK!(s.a == a.wrapping_add(4) && s.b == 1);
        VP_CHECK!(use_cbs(&CBs { f: None, g: None }, x, &raw mut s) == 2 && s.a == a.wrapping_add(4));
        let d = CBs::default();
        VP_CHECK!(d.f.is_none() && d.g.is_none());
        VP_CHECK!(get_fn(0).is_none());
        VP_CHECK!(get_fn(1).unwrap()(x) == x.wrapping_mul(3));
    }
}
