use sample::*;
use ffi_11::*;
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
macro_rules! mix { ($s:expr; $($e:expr),*) => {{ let mut h: u64 = $s; $(h = mx(h, $e as u64);)* h }} }
fn i(x: u32) -> i32 { x as i32 }

#[unsafe(no_mangle)]
pub extern "C" fn h_scalars() {
    let (a, b, c, d, e, f) = (vp::bool(), vp::u8(), vp::u8() as i8, vp::u8(), vp::u16() as i16, vp::u16());
    let r = scalars1(a, c_char::from(b), c, d, e, f);
    VP_CHECK!(r == mix!(2; a, b as i8, c, d, e, f));
    let (g, h, j, k, l, m) = (i(vp::u32()), vp::u32(), vp::u64() as i64, vp::u64(), vp::u64() as i64, vp::u64());
    VP_CHECK!(scalars2(g, h, new_c_long(j), new_c_ulong(k), new_c_longlong(l), new_c_ulonglong(m)) == mix!(3; g, h, j, k, l, m));
    VP_CHECK!(scalars3(c, e, g, j, d, f, h, k) == mix!(1; c, e, g, j, d, f, h, k));
    VP_CHECK!(scalars4(k as usize, j as isize, l as isize, m as usize, f, h) == mix!(4; k, j, l, m, f, h));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_floats() {
    let (a, b) = (f32::from_bits(vp::u32()), f64::from_bits(vp::u64()));
    VP_CHECK!(pick_float(a, b, true).to_bits() == a.to_bits() );
    VP_CHECK!(pick_double(a, b, false).to_bits() == b.to_bits());
    let (c, d, f, g, h, x, j) = (vp::u8(), vp::u64() as i64, vp::u16() as i16, vp::u32(), vp::bool(), vp::u64() as i64, vp::u16());
    let k = i(vp::u32());
    VP_CHECK!(many(k, b, c, new_c_long(d), a, f, g, h, new_c_longlong(x), j) == mix!(5; k, b.to_bits(), c, d, a.to_bits(), f, g, h, x, j));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_returns() {
    let x = i(vp::u32());
    VP_CHECK!(ret_bool(x) == (x > 3));
    VP_CHECK!(u8::from(ret_char(x)) == x as u8);
    VP_CHECK!(ret_schar(x) == x as i8);
    VP_CHECK!(ret_uchar(x) == x as u8);
    VP_CHECK!(ret_short(x) == x as i16);
    VP_CHECK!(ret_ushort(x) == x as u16);
    let y = vp::u64() as i64;
    VP_CHECK!(ret_uint(new_c_longlong(y)) == y as u32);
    VP_CHECK!(i64::from(ret_long(x)) == (x as i64) << 31);
    VP_CHECK!(u64::from(ret_ull(x)) == x as i64 as u64);
    VP_CHECK!(ret_c16(x) == x as u16);
    VP_CHECK!(no_discard(5) == 4);
    VP_CHECK!(default_args(x & 0xffff, 3) == (x & 0xffff) * 31 + 3);
    VP_CHECK!(const_expr(x) == x ^ 0x1234);
    VP_CHECK!(no_except(x >> 1) == -(x >> 1));
    let z = i(vp::u32());
    VP_CHECK!(keywords(x, z, 3, x ^ 1) == mix!(0; x, z, 3, x ^ 1) as i32);
    VP_CHECK!(r#fn(x) == x);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pointers() {
    let mut a = i(vp::u32());
    let v = i(vp::u32());
    let p: *mut i32 = if vp::bool() { &raw mut a } else { core::ptr::null_mut() };
    unsafe {
        VP_CHECK!(pass_ptr(p) == p);
        VP_CHECK!(pass_cptr(p) == p as *const i32);
        VP_CHECK!(pass_void(p as *mut c_void) == p as *mut c_void);
        let mut q = p;
        VP_CHECK!(pp(&raw mut q) == &raw mut q);
        VP_CHECK!(q == p);
    }
    VP_CHECK!(read_ref(&a) == a);
    write_ref(&mut a, v);
    VP_CHECK!(a == v);
    let at = &raw const a;
    VP_CHECK!(core::ptr::eq(cref_id(&a), at));
    let r = ref_id(&mut a);
    VP_CHECK!(core::ptr::eq(r, at));
    *r = 9;
    VP_CHECK!(a == 9);
    let w = new_c_ulonglong(vp::u64());
    unsafe {
        VP_CHECK!(read_ptr(&w) == w);
        VP_CHECK!(u64::from(read_ptr(core::ptr::null())) == 42);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_enums() {
    let (s, d) = (vp::u8(), i(vp::u32()) & 0xff);
    VP_CHECK!(u8::from(enum_small(Small::from(s), d)) == (s as i32 + d) as u8);
    VP_CHECK!(enum_small(Small::kB, 0) == Small::kB);
    VP_CHECK!(u8::from(Small::kA) == 0 && u8::from(Small::kB) == 7 && u8::from(Small::kC) == 255);
    let w = vp::u64() as i64;
    let r = enum_wide(Wide::from(new_c_longlong(w)));
    VP_CHECK!(i64::from(c_longlong::from(r)) == if w == i64::MIN { i64::MAX } else { w });
    VP_CHECK!(enum_wide(Wide::kMin) == Wide::kMax && enum_wide(Wide::kZero) == Wide::kZero);
    let p = vp::u32() & 7;
    VP_CHECK!(enum_plain(Plain::from(p)) == if p == 5 { Plain::kP2 } else { Plain::kP0 });
    VP_CHECK!(u32::from(Plain::kP2) == 6 && u32::from(Plain::kP1) == 5);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_structs() {
    let (x, y) = (i(vp::u32()), i(vp::u32()));
    let p = P2 { x, y };
    let q = swap2(p);
    VP_CHECK!(q.x == y && q.y == x && p.x == x);
    let r = add2(p, &q);
    VP_CHECK!(r.x == x ^ (y << 1) && r.y == y ^ x);
    let (c, d, s, v, z) = (vp::u8(), vp::u64(), vp::u16() as i16, vp::u8(), vp::bool());
    let m = make_mixed(c_char::from(c), f64::from_bits(d), s);
    VP_CHECK!(u8::from(m.c) == c && m.d.to_bits() == d && m.s == s);
    let w = vp::u64();
    let b = make_big(w, One { v });
    VP_CHECK!(b.b == w.wrapping_add(2) && b.c == w.wrapping_add(3) && b.d == v as u64);
    unsafe { mixed(x, m, One { v }, Empty::default(), b, z) };
    let want = [x as u64, c as i8 as u64, d, s as u64, v as u64, w, w.wrapping_add(1), b.b, b.d, z as u64];
    for k in 0..10 {
        VP_CHECK!(got(k as i32) == want[k]);
    }
    VP_CHECK!(one(One { v }).v == v.wrapping_add(1));
    let f = Fl { a: f32::from_bits(vp::u32()), b: f32::from_bits(vp::u32()), c: f32::from_bits(vp::u32()) };
    let g = rotf(f);
    VP_CHECK!(g.a.to_bits() == f.b.to_bits() && g.b.to_bits() == f.c.to_bits() && g.c.to_bits() == f.a.to_bits());
    empty(Empty::default());
    let mut b2 = b;
    unsafe { big_set(&mut b2, d) };
    VP_CHECK!(b2.c == !d && b2.b == b.b && b2.d == b.d && b.c == w.wrapping_add(3));
    unsafe { mixed(1, m, One { v }, Empty::default(), b2, z) };
    VP_CHECK!(got(0) == 1 && got(5) == w && got(6) == d && got(7) == b.b);
    VP_CHECK!(unsafe { big_ptr(&raw mut b2) } == &raw mut b2);
    let zero = P2::default();
    VP_CHECK!(zero.x == 0 && zero.y == 0);
}
extern "C" fn cb(a: i32, b: i16) -> i32 { a.wrapping_mul(3) ^ (b as i32) }
unsafe extern "C" fn cbp(_: *mut i32) {}
#[unsafe(no_mangle)]
pub extern "C" fn h_fn_pointers() {
    let (a, b) = (i(vp::u32()), vp::u16() as i16);
    VP_CHECK!(call_fn(Some(cb), a, b) == cb(a, b));
    VP_CHECK!(call_fn(None, a, b) == -1);
    VP_CHECK!(unsafe { call_null(None) } == 1);
    VP_CHECK!(unsafe { call_null(Some(cbp)) } == 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_names() {
    let (a, b) = (i(vp::u32()), vp::u8());
    VP_CHECK!(c_linkage(a, b) == a ^ ((b as i32) << 8));
    let (c, d) = (vp::u64(), vp::u64());
    VP_CHECK!(c_inline(c, d) == mx(c, d));
    VP_CHECK!(sample::mx(c, d) == mx(c, d));
    VP_CHECK!(outer::same_name(a) == a ^ 0x7f);
    let t = a & 0xffff;
    VP_CHECK!(outer::inner::same_name(t) == t * 3 + 1);
    VP_CHECK!(outer::inner::counted(c as u32) == c as u32 >> 1);
    VP_CHECK!(outer::reopened(a) == a ^ 0x0f);
    VP_CHECK!(outer::later(a) == a ^ 0x0f ^ 0x55);
    VP_CHECK!(same_name(c) == !c);
}
/// Every call happens once, in program order.
#[unsafe(no_mangle)]
pub extern "C" fn h_effects() {
    let (a, b, c) = (vp::u64(), vp::u64(), vp::u64());
    let t0 = trace();
    let t1 = mx(t0, a);
    VP_CHECK!(tick(a) == t1);
    tock(b);
    let t2 = mx(t1, !b);
    VP_CHECK!(trace() == t2);
    VP_CHECK!(scalars3(0, 0, 0, tick(c) as i64, 0, 0, 0, tick(a)) == mix!(1; 0, 0, 0, mx(t2, c), 0, 0, 0, mx(mx(t2, c), a)));
    VP_CHECK!(trace() == mx(mx(t2, c), a));
}
