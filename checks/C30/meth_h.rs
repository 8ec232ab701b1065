use sample::*;
use std::pin::Pin;
fn fo(h: u64, x: u64) -> u64 { h.rotate_left(7).wrapping_add(x) }
fn i(x: u32) -> i32 { x as i32 }
fn is(a: &Acc, v: u64, n: u8) -> bool { a.get() == v && a.count() == n }

#[unsafe(no_mangle)]
pub extern "C" fn h_constructors() {
    let (v, n) = (vp::u64(), vp::u8());
    VP_CHECK!(is(&Acc::default(), 17, 0));
    VP_CHECK!(is(&Acc::from(v), v, 1));
    VP_CHECK!(is(&Acc::from((v, n)), v, n));
    let (a, b) = (i(vp::u32()), vp::u16() as i16);
    VP_CHECK!(is(&Acc::from((a, b, v)), fo(fo(a as u64, b as u64), v), 3));
    VP_CHECK!(is(&Acc::make(v), v, 9));
    let x = Acc::from((v, n));
    let y = x;
    VP_CHECK!(is(&y, v, n) && is(&x, v, n) && is(&x.clone(), v, n));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_methods() {
    let (v, n, d) = (vp::u64(), vp::u8(), vp::u64());
    let mut x = Acc::from((v, n));
    let at = &raw const x;
    x.set(d);
    VP_CHECK!(is(&x, d, n));
    VP_CHECK!(core::ptr::eq(x.add(v), at));
    VP_CHECK!(is(&x, d.wrapping_add(v), n.wrapping_add(1)));
    x.add(1).add(2);
    VP_CHECK!(is(&x, d.wrapping_add(v).wrapping_add(3), n.wrapping_add(3)));
    *x.poke() = v;
    VP_CHECK!(*x.peek() == v && is(&x, v, n.wrapping_add(3)));
    VP_CHECK!(core::ptr::eq(x.peek(), at as *const u64));
    VP_CHECK!(x.lv() == fo(v, 1));
    VP_CHECK!(x.clv() == fo(v, 2));
    let y = Acc::from((d, n));
    VP_CHECK!(Acc::combine(v, n, &y) == fo(fo(fo(0, v), n as u64), d));
    let e = vp::u64();
    let c = i(vp::u32());
    VP_CHECK!(x.cmp(&y, Acc::from(e), c) == fo(fo(fo(v, d), e), c as u64));
    let mut z = y;
    x.swap_with(&mut z);
    VP_CHECK!(is(&x, d, n) && is(&z, v, n.wrapping_add(3)) && is(&y, d, n));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_comparisons() {
    let (v, d) = (vp::u64(), vp::u64());
    let (x, y) = (Acc::from((v, 1)), Acc::from((d, 2)));
    VP_CHECK!((x == y) == (v == d));
    VP_CHECK!((x != y) == (v != d));
    VP_CHECK!((x < y) == (v < d));
    VP_CHECK!((x > y) == (v > d));
    VP_CHECK!((x <= y) == (v <= d));
    VP_CHECK!((x >= y) == (v >= d));
    VP_CHECK!(x.partial_cmp(&y) == v.partial_cmp(&d));
    let (a, b) = (i(vp::u32()), i(vp::u32()));
    let (p, q) = (Q { a, b: 1 }, Q { a: b, b: 2 });
    VP_CHECK!((p == q) == (a == b));
    VP_CHECK!((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b));
    VP_CHECK!(p.partial_cmp(&q) == a.partial_cmp(&b));
    VP_CHECK!((p == x) == (a as i64 as u64 == v));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_operators() {
    let (v, d, n, m, k) = (vp::u64(), vp::u64(), vp::u8(), vp::u8(), i(vp::u32()));
    let (x, y) = (&Acc::from((v, n)), &Acc::from((d, m)));
    VP_CHECK!(is(&(x + y), v.wrapping_add(d << 1), n.wrapping_add(m.wrapping_mul(3))));
    VP_CHECK!(is(&(x - y), v.wrapping_sub(d), n.wrapping_mul(2).wrapping_add(m)));
    VP_CHECK!(is(&(x * d), v.wrapping_mul(3).wrapping_add(d), n));
    VP_CHECK!(is(&(x / k), fo(v, k as u64), 4));
    VP_CHECK!(is(&(x % y), fo(v, d), 5));
    VP_CHECK!(is(&(x & y), v & !d, 6));
    VP_CHECK!(is(&(x | y), v | (d << 1), 7));
    VP_CHECK!(is(&(x ^ y), v ^ (d << 1), 8));
    VP_CHECK!(is(&(x << k), v << (k & 63), 9));
    VP_CHECK!(is(&(x >> k), v >> (k & 63), 10));
    VP_CHECK!(is(&-x, !v, 11));
    VP_CHECK!(is(&!x, (v == 0) as u64, 12));
    VP_CHECK!(is(x, v, n) && is(y, d, m));
    let (a, b, c, e) = (i(vp::u32()), i(vp::u32()), i(vp::u32()), i(vp::u32()));
    let (p, q) = (Q { a, b }, Q { a: c, b: e });
    let s = &p + &q;
    VP_CHECK!(s.a == a ^ (c << 1) && s.b == b ^ (e << 2));
    let t = p - q;
    VP_CHECK!(t.a == a ^ (e << 1) && t.b == b);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_compound_assignment() {
    let (v, d, n, k) = (vp::u64(), vp::u64(), vp::u8(), i(vp::u32()));
    let y = Acc::from((d, 1));
    macro_rules! chk { ($op:tt, $rhs:expr, $v:expr, $n:expr) => {{ let mut x = Acc::from((v, n)); x $op $rhs; is(&x, $v, $n) && is(&y, d, 1) }} }
    VP_CHECK!(chk!(+=, &y, fo(v, d), 21));
    VP_CHECK!(chk!(-=, &y, v.wrapping_sub(d), n.wrapping_add(2)));
    VP_CHECK!(chk!(*=, d, v.wrapping_mul(5).wrapping_add(d), n));
    VP_CHECK!(chk!(/=, k, fo(v, k as u64), n));
    VP_CHECK!(chk!(%=, &y, fo(d, v), n));
    VP_CHECK!(chk!(&=, &y, v & !d, n));
    VP_CHECK!(chk!(|=, &y, v | (d << 1), n));
    VP_CHECK!(chk!(^=, &y, v ^ (d << 1), n));
    VP_CHECK!(chk!(<<=, k, v << (k & 63), n));
    VP_CHECK!(chk!(>>=, k, v >> (k & 63), n));
}
/// Virtual methods called from Rust reach the final overrider, also through a base.
#[unsafe(no_mangle)]
pub extern "C" fn h_virtual() {
    let (w, by) = (vp::u64(), vp::u64());
    let mut s = ctor::emplace!(<Shape as ctor::CtorNew<u64>>::ctor_new(w));
    let mut q = ctor::emplace!(<Square as ctor::CtorNew<u64>>::ctor_new(w));
    VP_CHECK!(s.area() == w.wrapping_mul(3) && s.twice() == w.wrapping_mul(6));
    s.as_mut().grow(by);
    VP_CHECK!(s.area() == w.wrapping_add(by).wrapping_mul(3));
    VP_CHECK!(q.area() == w ^ 5);
    q.as_mut().grow(by);
    let want = w.wrapping_add(by.wrapping_mul(2)) ^ 5 ^ by;
    VP_CHECK!(q.area() == want);
    let b: &Shape = oops::Upcast::upcast(&*q);
    VP_CHECK!(b.area() == want && b.twice() == want.wrapping_mul(2));
    let b: Pin<&mut Shape> = oops::Upcast::upcast(q.as_mut());
    b.grow(1);
    VP_CHECK!(q.area() == w.wrapping_add(by.wrapping_mul(2)).wrapping_add(2) ^ 5 ^ by ^ 1);
    let k = vp::u64();
    let (w1, e) = (w.wrapping_add(by.wrapping_mul(2)).wrapping_add(2), 5 ^ by ^ 1);
    VP_CHECK!(s.mark(k) == w.wrapping_add(by).wrapping_add(k));
    VP_CHECK!(q.mark(k) == w1 ^ (k << 3));
    let b: &Shape = oops::Upcast::upcast(&*q);
    VP_CHECK!(b.mark(k) == w1 ^ (k << 3));
    VP_CHECK!(s.as_mut().reset(k) == w.wrapping_add(by) && s.area() == k.wrapping_mul(3));
    let b: Pin<&mut Shape> = oops::Upcast::upcast(q.as_mut());
    VP_CHECK!(b.reset(k) == e.wrapping_add(w1));
    VP_CHECK!(q.area() == w1 ^ k);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_inherited() {
    let (p, q, r) = (vp::u64(), vp::u64(), vp::u64());
    let mut m = Mm::default();
    m.r = r;
    { let b: &mut M1 = oops::Upcast::upcast(&mut m); b.p = p; }
    { let b: &mut M2 = oops::Upcast::upcast(&mut m); b.set2(q); }
    VP_CHECK!(m.mm() == p ^ (q << 1) ^ (r << 2));
    let b1: &M1 = oops::Upcast::upcast(&m);
    VP_CHECK!(b1.m1() == p.wrapping_add(1));
    let b2: &M2 = oops::Upcast::upcast(&m);
    VP_CHECK!(b2.m2() == q.wrapping_mul(3));
    VP_CHECK!(core::ptr::eq(as_m2(&m), b2) && as_m2(&m).q == q);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_globals() {
    let (a, b, c) = (i(vp::u32()), vp::u64(), vp::u16());
    unsafe {
        VP_CHECK!(g_int == 11 && g_const == 0x123456789abcdef0 && g_inline == 77 && gl::g_ns == 5);
        VP_CHECK!((*(&raw const g_q)).a == 3 && (*(&raw const g_q)).b == 4);
        set_globals(a, b, c);
        VP_CHECK!(g_int == a && gl::g_ns == b && g_inline == c);
        VP_CHECK!((*(&raw const g_q)).a == a ^ 1 && (*(&raw const g_q)).b == a ^ 2);
        g_int = 7;
        gl::g_ns = 9;
        g_inline = 0xffff;
        g_q = Q { a: i(c as u32), b: a };
    }
    VP_CHECK!(globals() == fo(fo(fo(fo(fo(0, 7), 0xffff), 9), c as u64), a as u64));
    VP_CHECK!(kNeg == -5 && kByte == 200 && kBig == 0xfedcba9876543210 && kTrue && kMin == i64::MIN && gl::kNs == -9);
    VP_CHECK!(uniq(c as u8) == !((c & 0xff) as u64));
}

/// Accessors read and write exactly their field.
#[unsafe(no_mangle)]
pub extern "C" fn h_accessors() {
    let mut p = Props::default();
    let (a, c, s, b, u, l, f, d) = (vp::u8(), vp::u8(), vp::u16(), vp::bool(), vp::u32(), vp::u64(), vp::u32(), vp::u64());
    VP_CHECK!(p.all() == 0);
    p.set_d(f64::from_bits(d));
    p.set_c(ffi_11::c_char::from(c));
    p.set_b(b);
    p.set_s(s as i16);
    p.set_u32(u);
    p.set_f(f32::from_bits(f));
    p.set_u8(a);
    p.set_l(ffi_11::new_c_long(l as i64));
    VP_CHECK!(p.u8() == a && p.b() == b && u8::from(p.c()) == c && p.s() == s as i16 && p.u32() == u && i64::from(p.l()) == l as i64);
    VP_CHECK!(p.f().to_bits() == f && p.d().to_bits() == d);
    let mut h = 0;
    for x in [a as u64, b as u64, c as u64, u as u64, s as u64, l, d, f as u64] { h = fo(h, x); }
    VP_CHECK!(p.all() == h);
    VP_CHECK!(p.narrow() == u as u16);
    p.widen(a);
    VP_CHECK!(p.u32() == a as u32 && *p.r#ref() == a as u32);
    *p.r#ref() = 5;
    VP_CHECK!(p.u32() == 5 && p.u8() == a && p.s() == s as i16);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_accessors_pinned() {
    let mut p = ctor::emplace!(<Fixed as ctor::CtorNew<()>>::ctor_new(()));
    VP_CHECK!(p.x() == 3 && p.y() == 4 && p.z() == 5);
    let (x, y, z, l) = (vp::u16(), vp::u8(), vp::u64(), vp::u64());
    p.as_mut().set_x(x);
    p.as_mut().set_y(y);
    p.as_mut().set_z(z);
    VP_CHECK!(p.x() == x && p.y() == y && p.z() == z);
    VP_CHECK!(p.xyz() == fo(fo(x as u64, y as u64), z));
    let b: Pin<&mut Props> = oops::Upcast::upcast(p.as_mut());
    b.get_mut().set_l(ffi_11::new_c_long(l as i64));
    let b: &Props = oops::Upcast::upcast(&*p);
    VP_CHECK!(i64::from(b.l()) == l as i64 && b.u32() == 0);
    VP_CHECK!(p.x() == x && p.y() == y && p.z() == z);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_inequality_only() {
    let (a, b) = (i(vp::u32()), i(vp::u32()));
    let (x, y) = (Ne { v: a }, Ne { v: b });
    VP_CHECK!((x != y) == (a != b));
    VP_CHECK!((x == y) == (a == b));
    let (x, y) = (NeFree { v: a }, NeFree { v: b });
    VP_CHECK!((x != y) == (a != b));
    VP_CHECK!((x == y) == (a == b));
}
