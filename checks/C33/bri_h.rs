// Rust callers of functions whose C++ signatures mention bridged types.
use sample::*;

fn opt<T>(x: T) -> Option<T> {
    if vp::bool() { Some(x) } else { None }
}

fn f32_() -> f32 {
    f32::from_bits(vp::u32())
}

fn f64_() -> f64 {
    f64::from_bits(vp::u64())
}

fn plain() -> Plain {
    Plain { a: vp::u8(), b: vp::u32() as i32 }
}

fn peq(x: &Plain, y: &Plain) -> bool {
    x.a == y.a && x.b == y.b
}

#[unsafe(no_mangle)]
pub extern "C" fn h_opt_ints() {
    let x = opt(vp::u8());
    let r = opt_u8(x);
    VP_CHECK!(r == match x { None => Some(7), Some(v) => if v & 1 == 1 { Some(v ^ 0x55) } else { None } });
    let x = opt(vp::u16() as i16);
    let r = opt_i16(x);
    VP_CHECK!(r == match x { None => Some(-7), Some(v) => if v < 0 { Some(v ^ 0x5555) } else { None } });
    let x = opt(vp::u32());
    let r = opt_u32(x);
    VP_CHECK!(r == match x { None => Some(77), Some(v) => if v & 1 == 1 { Some(!v) } else { None } });
    let x = opt(vp::u64() as i64);
    let r = opt_i64(x);
    VP_CHECK!(r == match x { None => Some(-777), Some(v) => if v < 0 { Some(!v) } else { None } });
}

#[unsafe(no_mangle)]
pub extern "C" fn h_opt_bool_float() {
    let x = opt(vp::bool());
    let r = opt_bool(x);
    VP_CHECK!(r == match x { None => Some(true), Some(true) => Some(false), Some(false) => None });
    let x = opt(f32_());
    let r = opt_f32(x);
    let w = match x { None => Some(1.5f32), Some(v) => if v == 0.0 { None } else { Some(-v) } };
    VP_CHECK!(r.map(f32::to_bits) == w.map(f32::to_bits));
    let x = opt(f64_());
    let r = opt_f64(x);
    let w = match x { None => Some(2.5f64), Some(v) => if v == 0.0 { None } else { Some(-v) } };
    VP_CHECK!(r.map(f64::to_bits) == w.map(f64::to_bits));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_opt_enum_struct() {
    let x = opt(vp::u8());
    let r = opt_color(x.map(Color::from));
    let w = match x { None => Some(8u8), Some(7) => None, Some(v) => Some(v ^ 0x0f) };
    VP_CHECK!(r.map(u8::from) == w);
    let x = opt(plain());
    let r = opt_plain(x);
    match x {
        None => VP_CHECK!(matches!(r, Some(Plain { a: 1, b: -2 }))),
        Some(p) if p.a == 9 => VP_CHECK!(r.is_none()),
        Some(p) => VP_CHECK!(r.is_some_and(|q| q.a == p.b as u8 && q.b == p.a as i32 - 1)),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_opt_nested() {
    let x = opt(opt(vp::u16()));
    let r = opt_opt(x);
    VP_CHECK!(r == match x {
        None => Some(Some(5)),
        Some(None) => None,
        Some(Some(3)) => Some(None),
        Some(Some(v)) => Some(Some(v ^ 0x0ff0)),
    });
}

#[unsafe(no_mangle)]
pub extern "C" fn h_opt_own() {
    let live = vp::live_heap();
    let v = vp::u32();
    let some = vp::bool();
    {
        let x = if some { Some(Own::from(v)) } else { None };
        let r = opt_own(x);
        VP_CHECK!(vp::live_heap() == live + r.is_some() as i32);
        if !some {
            VP_CHECK!(r.as_ref().is_some_and(|o| o.get() == 11));
        } else if v & 1 == 1 {
            VP_CHECK!(r.is_none());
        } else {
            VP_CHECK!(r.as_ref().is_some_and(|o| o.get() == v + 1));
        }
    }
    VP_CHECK!(vp::live_heap() == live);
    let x = if some { Some(Own::from(v)) } else { None };
    VP_CHECK!(opt_own_take(x) == if some { v } else { 1 });
    VP_CHECK!(vp::live_heap() == live);
    let r = opt_own_make(some, v);
    VP_CHECK!(r.is_some() == some);
    VP_CHECK!(vp::live_heap() == live + some as i32);
    if let Some(o) = &r {
        VP_CHECK!(o.get() == v);
    }
    drop(r);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pair_prims() {
    let (a, b) = (vp::u8(), vp::u64());
    let (c, d) = pair_swap((a, b));
    VP_CHECK!(c == b.wrapping_add(1));
    VP_CHECK!(d == a.wrapping_add(2));
    let (a, b) = (vp::bool(), vp::u16() as i16);
    let (c, d) = pair_bi((a, b));
    VP_CHECK!(c == !a);
    VP_CHECK!(d == if a { b } else { !b });
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pair_struct_nest() {
    let p = plain();
    let c = vp::u8();
    let (q, d) = pair_pc((p, Color::from(c)));
    VP_CHECK!(q.a == c);
    VP_CHECK!(q.b == p.b ^ 1);
    VP_CHECK!(u8::from(d) == p.a);
    let (a, b, c) = (vp::u8(), vp::u32(), vp::u16());
    let r = pair_nest((a, (b, c)));
    VP_CHECK!(r == ((a.wrapping_add(1), b.wrapping_add(2)), c.wrapping_add(3)));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pair_opt() {
    let x = opt((vp::u8(), vp::u64()));
    let y = opt(vp::u16());
    let r = pair_opt((x, y));
    VP_CHECK!(r.0 == y);
    VP_CHECK!(r.1 == x);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pair_own() {
    let live = vp::live_heap();
    let (a, v) = (vp::u8(), vp::u32());
    {
        let (o, b) = pair_own((a, Own::from(v)));
        VP_CHECK!(vp::live_heap() == live + 1);
        VP_CHECK!(o.get() == v.wrapping_add(a as u32));
        VP_CHECK!(b == a.wrapping_add(1));
    }
    VP_CHECK!(vp::live_heap() == live);
    let w = vp::u32();
    {
        let (o, p) = pair_owns((Own::from(v), Own::from(w)));
        VP_CHECK!(vp::live_heap() == live + 2);
        VP_CHECK!(o.get() == w);
        VP_CHECK!(p.get() == v);
    }
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pair_opt_own() {
    let live = vp::live_heap();
    let (s, t) = (vp::bool(), vp::bool());
    let (v, w) = (vp::u32(), vp::u32());
    {
        let x = if s { Some(Own::from(v)) } else { None };
        let y = if t { Some(Own::from(w)) } else { None };
        let (o, p) = pair_opt_own((x, y));
        VP_CHECK!(o.is_some() == t);
        VP_CHECK!(p.is_some() == s);
        VP_CHECK!(vp::live_heap() == live + s as i32 + t as i32);
        if let Some(o) = &o {
            VP_CHECK!(o.get() == w);
        }
        if let Some(p) = &p {
            VP_CHECK!(p.get() == v);
        }
    }
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_vec3() {
    let (x, y, z) = (vp::u16(), vp::u16(), vp::u16());
    let r = vec3_rot(Vec3 { x, y, z });
    VP_CHECK!(r.x == y);
    VP_CHECK!(r.y == z);
    VP_CHECK!(r.z == x);
    let (p, q, s) = (plain(), plain(), plain());
    let r = vec3_plain(p, q, s);
    VP_CHECK!(peq(&r.x, &s));
    VP_CHECK!(peq(&r.y, &p));
    VP_CHECK!(peq(&r.z, &q));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_vec3_opt() {
    let (x, y, z, k) = (vp::u32(), vp::u32(), vp::u32(), vp::u32());
    let some = vp::bool();
    let r = vec3_opt(if some { Some(Vec3 { x, y, z }) } else { None }, k);
    if !some {
        VP_CHECK!(r.is_some_and(|r| r.x == k && r.y == k.wrapping_add(1) && r.z == k.wrapping_add(2)));
    } else if y == k {
        VP_CHECK!(r.is_none());
    } else {
        VP_CHECK!(r.is_some_and(|r| r.x == z ^ k && r.y == x && r.z == y));
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_vec3_nest() {
    let (a, b, c) = (opt(vp::u8()), opt(vp::u8()), opt(vp::u8()));
    let r = vec3_opts(Vec3 { x: a, y: b, z: c });
    VP_CHECK!(r.x == c);
    VP_CHECK!(r.y == a);
    VP_CHECK!(r.z == b);
    let m: [u8; 9] = [vp::u8(), vp::u8(), vp::u8(), vp::u8(), vp::u8(), vp::u8(), vp::u8(), vp::u8(), vp::u8()];
    let row = |i: usize| Vec3 { x: m[i], y: m[i + 1], z: m[i + 2] };
    let r = vec3_nest(Vec3 { x: row(0), y: row(3), z: row(6) });
    VP_CHECK!((r.x.x, r.x.y, r.x.z) == (m[0], m[3], m[6]));
    VP_CHECK!((r.y.x, r.y.y, r.y.z) == (m[1], m[4], m[7]));
    VP_CHECK!((r.z.x, r.z.y, r.z.z) == (m[2], m[5], m[8]));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_vec3_own() {
    let live = vp::live_heap();
    let (a, b, c) = (vp::u32(), vp::u32(), vp::u32());
    {
        let r = vec3_own(Vec3 { x: Own::from(a), y: Own::from(b), z: Own::from(c) });
        VP_CHECK!(vp::live_heap() == live + 3);
        VP_CHECK!(r.x.get() == c);
        VP_CHECK!(r.y.get() == a);
        VP_CHECK!(r.z.get() == b);
    }
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_either() {
    let (a, b) = (vp::u64(), vp::u8());
    let left = vp::bool();
    let r = either_map(if left { Either::Left(a) } else { Either::Right(b) });
    match r {
        Either::Left(v) => VP_CHECK!(!left && v == b.wrapping_add(2)),
        Either::Right(v) => VP_CHECK!(left && v == a.wrapping_add(1)),
    }
    let (x, y, z, f, n) = (vp::u8(), vp::u8(), vp::u8(), vp::bool(), vp::u32());
    let r = either_mix(if left { Either::Left(Vec3 { x, y, z }) } else { Either::Right((f, n)) });
    match r {
        Either::Left(v) => VP_CHECK!(!left && v == (!f, n.wrapping_add(1))),
        Either::Right(v) => VP_CHECK!(left && v.x == z && v.y == y && v.z == x),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_angle() {
    // degrees on the Rust side, quarter turns on the C++ side
    let (a, b) = (vp::u8(), vp::u8());
    let r = angle_add(Degrees(a as u16 * 90), Degrees(b as u16 * 90));
    VP_CHECK!(r.0 == (a as u16 + b as u16) % 4 * 90);
    let x = opt(vp::u8());
    let r = angle_opt(x.map(|v| Degrees(v as u16 * 90)));
    VP_CHECK!(r.map(|d| d.0) == match x { None => Some(90), Some(2) => None, Some(v) => Some(v.wrapping_add(1) as u16 * 90) });
    let n = vp::u32();
    let (d, m) = angle_pair((n, Degrees(a as u16 * 90)));
    VP_CHECK!(d.0 == a.wrapping_add(1) as u16 * 90);
    VP_CHECK!(m == n.wrapping_sub(1));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_many() {
    let (a, b, c, d, e, f) = (vp::u8(), opt(vp::u16()), vp::u32(), (vp::u8(), vp::bool()), (vp::u8(), vp::u8(), vp::u8()), vp::u64());
    let r = many(a, b, c, d, Vec3 { x: e.0, y: e.1, z: e.2 }, f);
    let mut w = a as u64;
    w = (w << 16) | b.unwrap_or(0xabcd) as u64;
    w = (w << 8) | d.0 as u64;
    w = (w << 1) | d.1 as u64;
    w = (w << 8) | e.0 as u64;
    w = (w << 8) | e.1 as u64;
    w = (w << 8) | e.2 as u64;
    VP_CHECK!(r == w ^ ((c as u64) << 32) ^ f);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_members() {
    let x = opt(vp::u32());
    let y = opt(vp::u32());
    let mut b = Box::from(x);
    VP_CHECK!(b.get() == x);
    VP_CHECK!(b.replace(y) == x);
    VP_CHECK!(b.get() == y);
    let (p, q) = (vp::u32(), vp::u8());
    VP_CHECK!(Box::make((p, q)) == (q.wrapping_add(1), p.wrapping_add(2)));
    let f = vp::bool();
    let r = b.both((f, x));
    VP_CHECK!(r == if f { (y, x.is_none()) } else { (x, y.is_none()) });
}
