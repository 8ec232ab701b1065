use sample::*;
use core::mem::{align_of, offset_of, size_of};
use oops::{UnsafeUpcast, Upcast};
use std::pin::Pin;

fn words<const N: usize>() -> [u64; N] {
    let mut w = [0; N];
    for x in w.iter_mut() { *x = vp::u64(); }
    w
}
/// How a word is stored in a field, and read back.
trait Field { fn of(w: u64) -> Self; fn to(&self) -> u64; }
macro_rules! ints { ($($t:ty: $u:ty),*) => { $(impl Field for $t { fn of(w: u64) -> Self { w as $t } fn to(&self) -> u64 { *self as $u as u64 } })* } }
ints!(u8: u8, u16: u16, u32: u32, u64: u64, i8: u8, i16: u16, i32: u32);
impl Field for bool { fn of(w: u64) -> Self { w & 1 == 1 } fn to(&self) -> u64 { *self as u64 } }
impl Field for f32 { fn of(w: u64) -> Self { f32::from_bits(w as u32) } fn to(&self) -> u64 { self.to_bits() as u64 } }
impl Field for f64 { fn of(w: u64) -> Self { f64::from_bits(w) } fn to(&self) -> u64 { self.to_bits() } }
impl Field for Col { fn of(w: u64) -> Self { Col::from(w as u16) } fn to(&self) -> u64 { u16::from(*self) as u64 } }
impl Field for ffi_11::c_char { fn of(w: u64) -> Self { (w as u8).into() } fn to(&self) -> u64 { u8::from(*self) as u64 } }
impl Field for ffi_11::c_ulonglong { fn of(w: u64) -> Self { ffi_11::new_c_ulonglong(w) } fn to(&self) -> u64 { u64::from(*self) } }
impl<T> Field for *mut T { fn of(w: u64) -> Self { w as *mut T } fn to(&self) -> u64 { *self as u64 } }
impl<T> Field for *const T { fn of(w: u64) -> Self { w as *const T } fn to(&self) -> u64 { *self as u64 } }
fn of<T: Field>(_: &T, w: u64) -> T { T::of(w) }

/// Filled in C++ -> every field has its value in Rust; written field by field in Rust -> C++ reads the same.
macro_rules! both_ways {
    ($w:ident, $v:ident, $p:ident: $t:ty, $fill:ident, $read:ident, [$($f:expr),* $(,)?]) => {
        let mut $p = <$t>::default();
        unsafe { $fill(&mut $p, $w.as_ptr()) };
        let mut i = 0;
        $( VP_CHECK!($f.to() == of(&$f, $w[i]).to()); i += 1; )*
        let mut $p = <$t>::default();
        i = 0;
        $( $f = of(&$f, $v[i]); i += 1; )*
        let mut r = [!0u64; 16];
        unsafe { $read(&$p, r.as_mut_ptr()) };
        i = 0;
        $( VP_CHECK!(r[i] == of(&$f, $v[i]).to()); i += 1; )*
        let _ = i;
    };
}
macro_rules! lay {
    ($n:expr, $t:ty $(, $f:ident)*) => {
        VP_CHECK!(size_of::<$t>() as u64 == layout($n, 0));
        VP_CHECK!(align_of::<$t>() as u64 == layout($n, 1));
        let mut i = 2;
        $( VP_CHECK!(offset_of!($t, $f) as u64 == layout($n, i)); i += 1; )*
        let _ = i;
    };
}
/// Size, alignment and the offset of every public field agree.
#[unsafe(no_mangle)]
pub extern "C" fn h_layouts() {
    lay!(0, Pad, a, b, c, d, e);
    lay!(1, Kinds, f, col, r#in, fl, db, p, q, s, in2, sc, ch, ull);
    lay!(2, Bits, a, b, c, d);
    lay!(3, Priv, a, c);
    lay!(4, Arrays, a, b, c);
    lay!(5, Al, a, b);
    lay!(6, HasAl, x, al, y);
    lay!(7, U, a, b, c, f, r#in);
    lay!(8, UPad, a, b);
    lay!(9, HasU, t, u, z);
    lay!(10, Base1, p, q, s);
    lay!(11, Der, own, own2);
    lay!(12, Der2, last);
    lay!(13, Virt, n);
    lay!(14, VDer, k);
    lay!(15, E0);
    lay!(16, EmptyBase, v);
    lay!(17, Nua, v, t);
    lay!(18, Keyword, r#type, r#fn, self_, r#match);
    lay!(19, Nest, a, i, p);
    lay!(20, nest::Inner, x, y);
    lay!(21, ns::S, a, b);
    lay!(22, ns::T2, s, r#in, c);
    lay!(23, In, a, b);
    lay!(24, Base2, m);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_padded() {
    let (w, v) = (words::<5>(), words::<5>());
    both_ways!(w, v, p: Pad, fill_pad, read_pad, [p.a, p.b, p.c, p.d, p.e]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_kinds() {
    let (w, v) = (words::<14>(), words::<14>());
    both_ways!(w, v, p: Kinds, fill_kinds, read_kinds,
        [p.f, p.col, p.r#in.a, p.r#in.b, p.fl, p.db, p.p, p.q, p.s, p.in2.a, p.in2.b, p.sc, p.ch, p.ull]);
}
/// Ordinary fields next to bit-fields; the bit-fields survive copies and writes to the others.
#[unsafe(no_mangle)]
pub extern "C" fn h_bitfields() {
    let (w, v) = (words::<8>(), words::<4>());
    let mut p = Bits::default();
    unsafe { fill_bits(&mut p, w.as_ptr()) };
    VP_CHECK!(p.a == w[0] as u8);
    VP_CHECK!(p.b == w[3] as u16);
    VP_CHECK!(p.c == w[5] as u8);
    VP_CHECK!(p.d == w[7] as u32);
    let mut q = p;
    q.a = v[0] as u8;
    q.b = v[1] as u16;
    q.c = v[2] as u8;
    q.d = v[3] as u32;
    let mut r = [0u64; 8];
    unsafe { read_bits(&q, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == v[0] & 0xff && r[3] == v[1] & 0xffff && r[5] == v[2] & 0xff && r[7] == v[3] & 0xffffffff);
    VP_CHECK!(r[1] == w[1] & 7);
    VP_CHECK!(r[2] == w[2] & 0x1fff);
    VP_CHECK!(r[4] == (((w[4] as i64) << 59) >> 59) as u64);
    VP_CHECK!(r[6] == w[6] & 0xff_ffff_ffff);
    unsafe { read_bits(&p, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == w[0] & 0xff && r[1] == w[1] & 7 && r[7] == w[7] & 0xffffffff);
}
/// Private members are opaque but keep their value through Rust copies.
#[unsafe(no_mangle)]
pub extern "C" fn h_private() {
    let w = words::<4>();
    let mut p = Priv::default();
    VP_CHECK!(p.a == 0 && p.c == 0 && p.get() == 0);
    unsafe { fill_priv(&mut p, w.as_ptr()) };
    VP_CHECK!(p.a == w[0] as u8 && p.c == w[1]);
    p.set(w[2], w[3]);
    let mut q = p;
    q.a = 1;
    q.c = 2;
    VP_CHECK!(q.get() == (w[2] & 0xffffffff) << 24 | (w[3] & 0xffff) << 8 | (w[3] >> 16 & 0xff));
    VP_CHECK!(p.a == w[0] as u8 && p.c == w[1]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_arrays() {
    let (w, v) = (words::<10>(), words::<3>());
    let mut p = Arrays::default();
    unsafe { fill_arrays(&mut p, w.as_ptr()) };
    VP_CHECK!(p.a == w[0] as u8 && p.b == w[4] as u8 && p.c == w[9] as u32);
    let mut q = p;
    q.a = v[0] as u8;
    q.b = v[1] as u8;
    q.c = v[2] as u32;
    let mut r = [0u64; 10];
    unsafe { read_arrays(&q, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == v[0] & 0xff && r[4] == v[1] & 0xff && r[9] == v[2] & 0xffffffff);
    VP_CHECK!(r[1] == w[1] & 0xffff);
    VP_CHECK!(r[2] == w[2] & 0xffff);
    VP_CHECK!(r[3] == w[3] & 0xffff);
    VP_CHECK!(r[5] == w[5] & 0xffff);
    VP_CHECK!(r[6] == w[6] & 0xff);
    VP_CHECK!(r[7] == w[7] & 0xffff);
    VP_CHECK!(r[8] == w[8] & 0xff);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_alignment() {
    let (w, v) = (words::<4>(), words::<4>());
    both_ways!(w, v, p: HasAl, fill_hasal, read_hasal, [p.x, p.al.a, p.al.b, p.y]);
    let p = HasAl::default();
    VP_CHECK!(&raw const p as usize % 32 == 0 && &raw const p.al as usize % 32 == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_unions() {
    let (w, v) = (words::<3>(), words::<3>());
    let mut p = HasU::default();
    unsafe { fill_hasu(&mut p, w.as_ptr()) };
    unsafe {
        VP_CHECK!(p.t == w[0] as u8 && p.z == w[2] as u8);
        VP_CHECK!(p.u.a == w[1] as u8);
        VP_CHECK!(p.u.b == w[1]);
        VP_CHECK!(p.u.c == w[1] as u16);
        VP_CHECK!(p.u.f.to_bits() == w[1] as u32);
        VP_CHECK!(p.u.r#in.a == w[1] as u16 && p.u.r#in.b == (w[1] >> 16) as u8);
        p.t = v[0] as u8;
        p.u.b = v[1];
        p.u.r#in.b = 7;
        p.z = v[2] as u8;
        let mut r = [0u64; 3];
        read_hasu(&p, r.as_mut_ptr());
        VP_CHECK!(r[0] == v[0] & 0xff && r[2] == v[2] & 0xff);
        VP_CHECK!(r[1] & 0xffff == v[1] & 0xffff && r[1] >> 32 == v[1] >> 32);
        VP_CHECK!(r[1] >> 16 & 0xff == 7);
        let mut u = UPad::default();
        fill_upad(&mut u, w.as_ptr());
        VP_CHECK!(u.a == w[0] as u8 && u.b == w[0] as u32);
        let x = u;
        VP_CHECK!(core::ptr::read(&raw const x as *const u64) == w[0]);
    }
}
/// Upcasts give the address C++ gives, and reach the members of the base, also where a base's tail padding is used.
#[unsafe(no_mangle)]
pub extern "C" fn h_bases() {
    let (w, v) = (words::<7>(), words::<7>());
    let mut p = Der2::default();
    unsafe { fill_der2(&mut p, w.as_ptr()) };
    VP_CHECK!(p.last == w[6] as u16);
    {
        let b1: &Base1 = (&p).upcast();
        VP_CHECK!(b1.p == w[0] && b1.q == w[1] as u8 && b1.s == w[2] as u8);
        VP_CHECK!(addr_base1(b1) == b1 as *const Base1 as u64);
        let b2: &Base2 = (&p).upcast();
        VP_CHECK!(b2.m == w[3] as u32 && read_base2(b2) == w[3] & 0xffffffff);
        let d: &Der = (&p).upcast();
        VP_CHECK!(d.own == w[4] as u8 && d.own2 == w[5] as u32);
        let b2d: &Base2 = d.upcast();
        VP_CHECK!(core::ptr::eq(b2d, b2));
        VP_CHECK!(d as *const Der as usize == &raw const p as usize);
        VP_CHECK!(b2 as *const Base2 as usize - d as *const Der as usize == 12);
    }
    {
        let b1: &mut Base1 = (&mut p).upcast();
        b1.p = v[0];
        b1.q = v[1] as u8;
        b1.s = v[2] as u8;
    }
    { let b2: &mut Base2 = (&mut p).upcast(); b2.m = v[3] as u32; }
    { let d: &mut Der = (&mut p).upcast(); d.own = v[4] as u8; d.own2 = v[5] as u32; }
    p.last = v[6] as u16;
    let mut r = [0u64; 7];
    unsafe { read_der2(&p, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == v[0]);
    VP_CHECK!(r[1] == v[1] & 0xff && r[2] == v[2] & 0xff);
    VP_CHECK!(r[3] == v[3] & 0xffffffff);
    VP_CHECK!(r[4] == v[4] & 0xff && r[5] == v[5] & 0xffffffff && r[6] == v[6] & 0xffff);
    unsafe {
        let q: *mut Der2 = &raw mut p;
        let b2: *mut Base2 = q.unsafe_upcast();
        VP_CHECK!((*b2).m == v[3] as u32);
        let b1: *const Base1 = (q as *const Der2).unsafe_upcast();
        VP_CHECK!((*b1).p == v[0]);
    }
    let mut c = Der::default();
    unsafe { fill_der(&mut c, w.as_ptr()) };
    VP_CHECK!(c.own == w[4] as u8 && c.own2 == w[5] as u32);
    let e = c;
    unsafe { read_der(&e, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == w[0] && r[1] == w[1] & 0xff && r[2] == w[2] & 0xff);
    VP_CHECK!(r[3] == w[3] & 0xffffffff);
}
/// Polymorphic classes: the vtable pointer is accounted for.
#[unsafe(no_mangle)]
pub extern "C" fn h_polymorphic() {
    let (w, v) = (words::<3>(), words::<3>());
    let mut p = ctor::emplace!(<VDer as ctor::CtorNew<()>>::ctor_new(()));
    unsafe { fill_vder(p.as_mut(), w.as_ptr()) };
    VP_CHECK!(p.k == w[2] as u16);
    {
        let b2: &Base2 = (&*p).upcast();
        VP_CHECK!(b2.m == w[0] as u32 && read_base2(b2) == w[0] & 0xffffffff);
        VP_CHECK!(addr_base2(b2) == b2 as *const Base2 as u64);
        let vb: &Virt = (&*p).upcast();
        VP_CHECK!(vb.n == w[1] as u32);
        VP_CHECK!(addr_virt(vb) == vb as *const Virt as u64);
        let want = ((w[1] as u32).wrapping_mul(2) as u64).wrapping_add(w[2] & 0xffff);
        VP_CHECK!(p.v() as u32 == want as u32 && vb.v() as u32 == want as u32 && read_virt(vb) as u32 == want as u32);
    }
    {
        let vb: Pin<&mut Virt> = p.as_mut().upcast();
        unsafe { vb.get_unchecked_mut() }.n = v[1] as u32;
    }
    unsafe { p.as_mut().get_unchecked_mut() }.k = v[2] as u16;
    let mut r = [0u64; 3];
    unsafe { read_vder(&p, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == w[0] & 0xffffffff && r[1] == v[1] & 0xffffffff && r[2] == v[2] & 0xffff);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_empty_and_overlapping() {
    let (w, v) = (words::<5>(), words::<2>());
    let mut p = EmptyBase::default();
    unsafe { fill_eb(&mut p, w.as_ptr()) };
    VP_CHECK!(p.v == w[0] as u32);
    let e: &E0 = (&p).upcast();
    VP_CHECK!(e as *const E0 as usize == &raw const p as usize);
    let mut n = Nua::default();
    unsafe { fill_nua(&mut n, w.as_ptr()) };
    VP_CHECK!(n.v == w[3] as u32 && n.t == w[4] as u8);
    VP_CHECK!(n.b().p == w[0]);
    VP_CHECK!(n.b().q == w[1] as u8 && n.b().s == w[2] as u8);
    n.v = v[0] as u32;
    n.t = v[1] as u8;
    let m = n;
    let mut r = [0u64; 7];
    unsafe { read_nua(&m, r.as_mut_ptr()) };
    VP_CHECK!(r[0] == w[0] && r[1] == w[1] & 0xff && r[2] == w[2] & 0xff && r[3] == v[0] & 0xffffffff);
    VP_CHECK!(r[4] == v[1] & 0xff);
    VP_CHECK!(r[5] == m.e() as *const E0 as u64);
    VP_CHECK!(r[6] == m.b() as *const Base1 as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_keywords_and_nesting() {
    let (w, v) = (words::<5>(), words::<5>());
    { both_ways!(w, v, p: Keyword, fill_kw, read_kw, [p.r#type, p.r#fn, p.self_, p.r#match]); }
    { both_ways!(w, v, p: Nest, fill_nest, read_nest, [p.a, p.i.x, p.i.y, p.p]); }
    { both_ways!(w, v, p: ns::T2, fill_ns, read_ns, [p.s.a, p.s.b, p.r#in.a, p.r#in.b, p.c]); }
}
