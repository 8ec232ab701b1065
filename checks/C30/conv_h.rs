use sample::*;
use ctor::CtorNew;
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(11).wrapping_add(x) }
fn i(x: u32) -> i32 { x as i32 }
fn s(x: i32) -> u64 { x as i64 as u64 }
fn k16() -> i16 { vp::u16() as i16 }

#[unsafe(no_mangle)]
pub extern "C" fn h_convert_const() {
    let v = vp::u64();
    let c = Conv::from(v);
    let p: Plain = (&c).into();
    VP_CHECK!(p.a == v as i32 && p.b == (v >> 32) as i16);
    let q = Plain::from(&c);
    VP_CHECK!(q.a == p.a && q.b == p.b && c.v == v && c.n == 0);
    let h: u16 = (&c).into();
    VP_CHECK!(h == (v >> 3) as u16);
    let b: bool = (&c).into();
    VP_CHECK!(b == (v & 1 == 1));
    {
        let f = ctor::emplace!(<Fixed as CtorNew<&Conv>>::ctor_new(&c));
        VP_CHECK!(f.w == v ^ 0x55 && f.me() == &raw const *f as u64);
    }
    let a = Alone { v };
    let x: i64 = (&a).into();
    VP_CHECK!(x == v.wrapping_sub(7) as i64 && alone_ref(&a) == x && a.v == v);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_convert_mut() {
    let (v, k, w) = (vp::u64(), i(vp::u32()), vp::u64());
    let mut c = Conv::from(v);
    let d: f64 = (&mut c).into();
    VP_CHECK!(d == v as u32 as f64 && c.n == 1 && c.v == v);
    { let r: cref::CRef<'_, u64> = (&c).into(); let r = cref::CRef::as_ptr(r); VP_CHECK!(r == &raw const c.v && unsafe { *r } == v); }
    { let r: cref::CMut<'_, i32> = (&mut c).into(); unsafe { *cref::CMut::as_mut_ptr(r) = k; } }
    VP_CHECK!(c.n == k && c.v == v);
    let p: *mut u64 = (&mut c).into();
    VP_CHECK!(p == &raw mut c.v);
    unsafe { *p = w; }
    VP_CHECK!(c.v == w && c.n == k);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_renamed() {
    let (a, b, c, k) = (i(vp::u32()), i(vp::u32()), k16(), i(vp::u32()));
    let r = Renamed { first: a, f1: b };
    VP_CHECK!(r.get_sum(k) == mx(mx(s(a), s(b)), s(k)));
    VP_CHECK!(add_named(r) == mx(mx(s(a), s(b)), s(b)));
    VP_CHECK!(Renamed::stat(c as u8) == 3 * (c as u8 as u64));
    VP_CHECK!(add_small(a, c) == mx(s(a), s(c as i32)));
    let (x, y) = (vp::u64(), vp::u64());
    VP_CHECK!(add_big(x, y) == mx(x, y) ^ 1);
    VP_CHECK!(ns_cc::inner_fn(x) == x.wrapping_mul(5));
    let p = vp::bool();
    VP_CHECK!(pick_color(p) == if p { ns_cc::Colour::kBlue } else { ns_cc::Colour::kRed });
    let (l, m) = (Level::from(vp::u8() as i8), Level::from(vp::u8() as i8));
    VP_CHECK!(unsafe { up(l, &m) } == if l == Level::lo { m } else { l });
    unsafe {
        plain_c = a; plain_cc = b; ns_cc::deep = k;
        let w: Wide = widen(x);
        VP_CHECK!(w == x.wrapping_mul(3));
        VP_CHECK!(plain_c == a.wrapping_add(1) && plain_cc == b.wrapping_add(2) && ns_cc::deep == k.wrapping_add(3));
    }
    VP_CHECK!(u32::from(pick_color(p)) == if p { 77 } else { 1 });
}
// `unsafe` where the header asks for it, and only there
#[unsafe(no_mangle)]
pub extern "C" fn h_safety() {
    let r: unsafe fn(i32) -> u64 = risky;
    let f: fn(*const u64, i32) -> u64 = fine;
    let t: unsafe fn(Risk, i32) -> u64 = take_risk;
    let h: fn(Held) -> u64 = take_held;
    let (a, k, mut w) = (i(vp::u32()), i(vp::u32()), vp::u64());
    VP_CHECK!(unsafe { r(a) } == mx(1, s(a)));
    VP_CHECK!(f(&w, k) == w && f(core::ptr::null(), k) == s(k));
    VP_CHECK!(unsafe { t(Risk { a }, k) } == mx(s(a), s(k)));
    VP_CHECK!(h(Held { p: &mut w }) == w);
    fn shared<T: Send + Sync>(_: &T) {}
    let c = Counter::default();
    shared(&c);
    VP_CHECK!(c.get() == 0);
    VP_CHECK!(c.add(k) == s(k) && c.add(a) == s(k).wrapping_add(s(a)) && c.get() == s(k).wrapping_add(s(a)));
    let d = c.clone();
    VP_CHECK!(d.add(1) == s(k).wrapping_add(s(a)).wrapping_add(1) && c.get() == s(k).wrapping_add(s(a)));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_noreturn() {
    let k = i(vp::u32());
    vp::expect_abort(true);
    give_up(k);
    VP_CHECK!(false); // VP_MAYBE
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owned() {
    let (v, w, k) = (vp::u64(), vp::u64(), i(vp::u32()));
    {
        let a = make_owned(v);
        VP_CHECK!(live() == 1);
        let b = make_other(w, k);
        VP_CHECK!(live() == 101);
        match vp::pick(4) {
            0 => { VP_CHECK!(unsafe { use_owned(a) } == v && live() == 100); }
            1 => { VP_CHECK!(unsafe { use_two(k, b, a) } == mx(mx(s(k), mx(w, s(k))), v) && live() == 0); }
            2 => { drop(a); VP_CHECK!(live() == 100); }
            _ => { drop(b); VP_CHECK!(live() == 1); }
        }
    }
    VP_CHECK!(live() == 0 && vp::live_heap() == 0);
    let r: *mut RawThing = make_raw(v);
    unsafe { VP_CHECK!(peek(r) == v && live() == 1); (*r).Close(); }
    VP_CHECK!(live() == 0 && vp::live_heap() == 0 && size_of::<OwnedThing>() == 8 && size_of::<Option<OwnedThing>>() == 8);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_qualified() {
    let (v, k) = (vp::u64(), i(vp::u32()));
    let mut q = Quals { v };
    VP_CHECK!(q.cl(k) == mx(v, s(k)));
    VP_CHECK!(q.lv(k) == v.wrapping_add(s(k)) && q.v == v.wrapping_add(s(k)));
    let r = ctor::RvalueReference(core::pin::Pin::new(&mut q));
    VP_CHECK!(r.rv(k) == mx(v.wrapping_add(s(k)), s(k)));
    VP_CHECK!(q.v == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_value_operators() {
    use units::*;
    let (v, w, k) = (vp::u64(), vp::u64(), i(vp::u32()));
    let (a, mut b) = (M { v }, M { v: w });
    VP_CHECK!((a == b) == (v == w) && (a != b) == (v != w) && (a < b) == (v < w) && (a >= b) == (v >= w));
    VP_CHECK!((a + b).v == v.wrapping_add(w.wrapping_mul(2)) && (&a - &b).v == v.wrapping_mul(3).wrapping_sub(w));
    VP_CHECK!(a ^ k == mx(v, s(k)));
    b += a;
    VP_CHECK!(b.v == w.wrapping_add(v.wrapping_mul(5)) && a.v == v);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cloned_operands() {
    use units::*;
    let (v, w, k) = (vp::u64(), vp::u64(), i(vp::u32()));
    {
        let (a, b) = (Tok::from(v), Tok::from(w));
        VP_CHECK!((a == b) == (v == w));
        VP_CHECK!((a < b) == (v < w));
        VP_CHECK!((a > b) == (v > w));
        VP_CHECK!(a.v() == v && b.v() == w && vp::live_heap() == 2);
        VP_CHECK!(a.clone() % &b == mx(v, w));
        VP_CHECK!(vp::live_heap() == 2);
        let c = a / k;
        VP_CHECK!(c.v() == mx(v, s(k)) && b.v() == w && vp::live_heap() == 2);
    }
    VP_CHECK!(vp::live_heap() == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pinned_operand() {
    use units::*;
    let (v, w) = (vp::u64(), vp::u64());
    let d = live_n();
    {
        let a = ctor::emplace!(<N as CtorNew<u64>>::ctor_new(v));
        let mut b = ctor::emplace!(<N as CtorNew<u64>>::ctor_new(w));
        VP_CHECK!(&*a | ctor::mov!(b) == mx(v, w));
        VP_CHECK!(a.v == v);
        let t = ctor::emplace!(<Stuck as CtorNew<u64>>::ctor_new(v));
        VP_CHECK!(t.get() == v);
    }
    VP_CHECK!(live_n() == d + 3);
}
