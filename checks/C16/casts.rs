use core::pin::Pin;
use cref::{CMut, CMutLike, CRef, CRefLike};
use forward_declare::{forward_declare, symbol, unsafe_define, CppCast, CppCoerce};
use oops::{Inherits, UnsafeUpcast, Upcast};

#[repr(C)]
pub struct Far { a: u32, b: u8 }
unsafe_define!(symbol!("ns::Far"), Far);
forward_declare!(Far1 = symbol!("ns::Far"));
forward_declare!(Far2 = symbol!("ns::Far"));
/// Not movable.
#[repr(C)]
pub struct Fix { a: u16, p: core::marker::PhantomPinned }
unsafe_define!(symbol!("ns::Fix"), Fix);
forward_declare!(Fix1 = symbol!("ns::Fix"));
forward_declare!(Other1 = symbol!("ns::Fa"));
forward_declare!(Other2 = symbol!("ns::far"));
forward_declare!(Other3 = symbol!("ns::Far "));
forward_declare!(Other4 = symbol!("raF::sn"));

macro_rules! casts { ($T:ty => $U:ty) => {{
    trait No { const Y: bool = false; }
    impl<X: ?Sized> No for X {}
    struct W<A>(core::marker::PhantomData<A>);
    #[allow(dead_code)]
    impl<A: CppCast<$U> + CppCoerce<$U>> W<A> { const Y: bool = true; }
    <W<$T>>::Y
}} }
fn table() -> [Far; 4] { core::array::from_fn(|_| Far { a: vp::u32(), b: vp::u8() }) }
fn at<T: ?Sized>(p: *const T) -> usize { p as *const u8 as usize }

#[unsafe(no_mangle)] pub extern "C" fn h_refs() {
    let mut m = table();
    let i = vp::pick(4);
    let (a, b) = (m[i].a, m[i].b);
    let r1: &Far1 = (&m[i]).cpp_cast();
    let r2: &Far2 = r1.cpp_cast();
    let p: Pin<&Far1> = r2.cpp_coerce();
    let q: &Far = p.cpp_cast();
    VP_CHECK!(at(r1) == at(&m[i]) && at(r2) == at(&m[i]) && core::ptr::eq(q, &m[i]) && q.a == a && q.b == b);
    let c1: *const Far1 = (&m[i] as *const Far).cpp_cast();
    let c: *const Far = c1.cpp_cast();
    let n1: *const Far2 = core::ptr::null::<Far>().cpp_cast();
    VP_CHECK!(core::ptr::eq(c, &m[i]) && n1.is_null());
    let v = vp::u32();
    let w1: Pin<&mut Far1> = (&mut m[i]).cpp_cast();
    let w2: Pin<&mut Far2> = w1.cpp_cast();
    let w: &mut Far = w2.cpp_cast();
    w.a = v;
    VP_CHECK!(m[i].a == v && m[i].b == b);
    let k1: *mut Far1 = (&mut m[i] as *mut Far).cpp_cast();
    let k: *mut Far = k1.cpp_coerce();
    unsafe { (*k).b = v as u8 };
    VP_CHECK!(m[i].a == v && m[i].b == v as u8);
    // Pointers to pointers.
    let mut z: *mut Far = k;
    let zz: *mut *mut Far1 = (&mut z as *mut *mut Far).cpp_cast();
    unsafe { *zz = (&mut m[3] as *mut Far).cpp_cast() };
    VP_CHECK!(core::ptr::eq(z, &m[3]));
}
#[unsafe(no_mangle)] pub extern "C" fn h_fixed() {
    let mut m = [Fix { a: vp::u16(), p: core::marker::PhantomPinned }, Fix { a: vp::u16(), p: core::marker::PhantomPinned }];
    let i = vp::pick(2);
    let was = at(&m[i]);
    let v = vp::u16();
    let w1: Pin<&mut Fix1> = unsafe { Pin::new_unchecked(&mut m[i]) }.cpp_cast();
    let w: Pin<&mut Fix> = w1.cpp_cast();
    VP_CHECK!(at(&*w) == was);
    unsafe { w.get_unchecked_mut().a = v };
    VP_CHECK!(m[i].a == v);
    let r: &Fix1 = (&m[i]).cpp_cast();
    let s: Pin<&Fix> = r.cpp_cast();
    VP_CHECK!(at(&*s) == was && s.a == v);
}
/// Slices, arrays and vectors of references keep address, length, order and storage.
#[unsafe(no_mangle)] pub extern "C" fn h_many() {
    let m = table();
    let (lo, hi) = (vp::pick(5), vp::pick(5));
    vp::assume(lo <= hi);
    let s = &m[lo..hi];
    let s1: &[Far1] = s.cpp_cast();
    let t: &[Far] = s1.cpp_cast();
    VP_CHECK!(s1.len() == hi - lo && at(s1) == at(s) && t.len() == hi - lo && t.as_ptr() == s.as_ptr());
    let p: *const [Far2] = (s as *const [Far]).cpp_cast();
    VP_CHECK!(at(p) == at(s) && p.len() == hi - lo);
    let arr: [&Far; 3] = [&m[3], &m[lo.min(3)], &m[0]];
    let a1: [&Far1; 3] = arr.cpp_cast();
    VP_CHECK!(at(a1[0]) == at(&m[3]) && at(a1[1]) == at(&m[lo.min(3)]) && at(a1[2]) == at(&m[0]));
    let whole: &[Far1; 4] = (&m).cpp_cast();
    VP_CHECK!(at(whole) == at(&m));
}
#[unsafe(no_mangle)] pub extern "C" fn h_vec() {
    let m = table();
    {
        let (n, cap) = (vp::pick(4), vp::pick(4));
        let mut v: Vec<&Far> = Vec::with_capacity(cap);
        for k in 0..n { v.push(&m[3 - k]); }
        let (p, c) = (v.as_ptr() as usize, v.capacity());
        let v1: Vec<&Far1> = v.cpp_cast();
        VP_CHECK!(v1.as_ptr() as usize == p && v1.capacity() == c && v1.len() == n);
        for k in 0..n { VP_CHECK!(at(v1[k]) == at(&m[3 - k])); }
        let back: Vec<&Far> = v1.cpp_coerce();
        for k in 0..n { VP_CHECK!(core::ptr::eq(back[k], &m[3 - k]) && back[k].a == m[3 - k].a); }
    }
    VP_CHECK!(vp::live_heap() == 0);
}
/// Which casts exist.
#[unsafe(no_mangle)] pub extern "C" fn h_who() {
    VP_CHECK!(casts!(&'static Far => &'static Far1) && casts!(&'static Far1 => &'static Far2) && casts!(&'static Far2 => &'static Far) && casts!(&'static Fix1 => Pin<&'static Fix>));
    VP_CHECK!(!casts!(&'static Far => &'static Other1) && !casts!(&'static Far => &'static Other2) && !casts!(&'static Far => &'static Other3) && !casts!(&'static Far => &'static Other4) && !casts!(&'static Far => &'static Fix1) && !casts!(&'static Far1 => &'static Fix1) && !casts!(&'static Other1 => &'static Other2));
    // A mutable reference never comes from a shared one or a pointer, nor a reference from a pointer.
    VP_CHECK!(!casts!(&'static Far => Pin<&'static mut Far1>) && !casts!(Pin<&'static Far> => &'static mut Far) && !casts!(*const Far => &'static Far1) && !casts!(*mut Far => Pin<&'static mut Far1>) && !casts!(*const Far => *mut Far1));
    // Nor an unpinned mutable reference to something not movable.
    VP_CHECK!(casts!(Pin<&'static mut Fix1> => Pin<&'static mut Fix>) && !casts!(Pin<&'static mut Fix1> => &'static mut Fix) && !casts!(Pin<&'static mut Far> => &'static mut Far1) && casts!(Pin<&'static mut Far1> => &'static mut Far));
    VP_CHECK!(!casts!([&'static Far; 2] => [&'static Far1; 3]) && casts!([&'static Far; 2] => [&'static Far1; 2]) && !casts!(&'static [Far] => &'static [Far1; 2]) && !casts!(&'static [Far] => &'static Far1));
    VP_CHECK!(casts!(Vec<&'static Far> => Vec<&'static Far1>) && !casts!(Vec<&'static Far> => Vec<&'static Other1>) && !casts!(*const *mut Far => *const *const Far1) && !casts!(&'static u32 => &'static Far1));
}
/// cref: every way in and out keeps the pointer (and length).
#[unsafe(no_mangle)] pub extern "C" fn h_cref() {
    let mut b: [u16; 4] = core::array::from_fn(|_| vp::u16());
    let old = b;
    let (lo, hi) = (vp::pick(5), vp::pick(5));
    vp::assume(lo <= hi);
    let want = &b[lo..hi] as *const [u16];
    let same = |p: *const [u16]| core::ptr::eq(p, want);
    fn cr<'a>(x: cref::CRefTo!('a, [u16])) -> *const [u16] { CRef::as_ptr(x.into_cref()) }
    fn cm<'a>(x: cref::CMutTo!('a, [u16])) -> *mut [u16] { CMut::as_mut_ptr(x.into_cmut()) }
    let r = CRef::from_ref(&b[lo..hi]);
    VP_CHECK!(same(CRef::as_ptr(r)) && same(CRef::as_ptr(r.clone())) && same(cr(r)) && same(cr(&b[lo..hi])) && same(cr(Pin::new(&b[lo..hi]))) && same(cr(&mut b[lo..hi])) && same(cr(Pin::new(&mut b[lo..hi]))));
    VP_CHECK!(same(CRef::as_ptr(CRef::from_pin(Pin::new(&b[lo..hi])))) && same(CRef::as_ptr(unsafe { CRef::from_ptr(want) })) && same(unsafe { CRef::unchanging(CRef::from_ref(&b[lo..hi])) }.get_ref()));
    let m = CMut::from_ref(&mut b[lo..hi]);
    VP_CHECK!(same(CMut::as_ptr(m)) && same(CMut::as_mut_ptr(m.clone())) && same(cm(m)) && same(cr(m)) && same(CRef::as_ptr(CMut::into_const(m))) && same(CMut::as_ptr(unsafe { CRef::const_cast(CMut::into_const(m)) })));
    VP_CHECK!(same(cm(&mut b[lo..hi])) && same(cm(Pin::new(&mut b[lo..hi]))) && same(CMut::as_ptr(CMut::from_pin(Pin::new(&mut b[lo..hi])))));
    let v = vp::u16();
    let m = unsafe { CMut::from_ptr(&mut b[lo..hi] as *mut [u16]) };
    VP_CHECK!(same(unsafe { CMut::unchanging(m) }.get_ref()));
    for x in unsafe { CMut::unique(m) }.get_mut() { *x ^= v; }
    for x in unsafe { CMut::unpin_unique(m) } { *x = x.wrapping_add(1); }
    for k in 0..4 { VP_CHECK!(b[k] == if lo <= k && k < hi { (old[k] ^ v).wrapping_add(1) } else { old[k] }); }
}
#[repr(C)]
pub struct Base(u32);
#[repr(C)]
pub struct Pinned(u8, core::marker::PhantomPinned);
#[repr(C)]
pub struct Derived { pre: u16, b: Base, mid: u8, p: Pinned }
impl Unpin for Derived {}
unsafe impl Inherits<Base> for Derived { unsafe fn upcast_ptr(d: *const Self) -> *const Base { unsafe { &raw const (*d).b } } }
unsafe impl Inherits<Pinned> for Derived { unsafe fn upcast_ptr(d: *const Self) -> *const Pinned { unsafe { &raw const (*d).p } } }
/// Upcasts reach the base subobject of the object they are given, and keep access rights.
#[unsafe(no_mangle)] pub extern "C" fn h_upcast() {
    let mut m: [Derived; 3] = core::array::from_fn(|_| Derived { pre: vp::u16(), b: Base(vp::u32()), mid: vp::u8(), p: Pinned(vp::u8(), core::marker::PhantomPinned) });
    let i = vp::pick(3);
    let (pre, b, mid, p) = (m[i].pre, m[i].b.0, m[i].mid, m[i].p.0);
    let (ab, ap, ad) = (at(&m[i].b), at(&m[i].p), at(&m[i]));
    let r: &Base = (&m[i]).upcast();
    let s: &Pinned = (&m[i]).upcast();
    let d: &Derived = (&m[i]).upcast();
    VP_CHECK!(at(r) == ab && r.0 == b && at(s) == ap && s.0 == p && at(d) == ad);
    let c: *const Base = unsafe { (&m[i] as *const Derived).unsafe_upcast() };
    let k: *mut Pinned = unsafe { (&mut m[i] as *mut Derived).unsafe_upcast() };
    VP_CHECK!(at(c) == ab && at(k) == ap);
    let (v, w, x) = (vp::u32(), vp::u8(), vp::u32());
    { let r: &mut Base = (&mut m[i]).upcast(); r.0 = v; }
    VP_CHECK!(m[i].b.0 == v);
    { let r: Pin<&mut Pinned> = (&mut m[i]).upcast(); unsafe { r.get_unchecked_mut().0 = w }; }
    { let r: Pin<&mut Base> = Pin::new(&mut m[i]).upcast(); r.get_mut().0 = x; }
    VP_CHECK!(m[i].pre == pre && m[i].b.0 == x && m[i].mid == mid && m[i].p.0 == w);
    unsafe { (*k).0 = p };
    VP_CHECK!(m[i].p.0 == p && m[i].b.0 == x);
}
