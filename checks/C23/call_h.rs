// Rust closures handed to C++ as rs_std::DynCallable, called, moved, kept and given back.
use core::sync::atomic::{AtomicU32, Ordering};
use sample::*;

static CALLS: AtomicU32 = AtomicU32::new(0);
static DROPS: AtomicU32 = AtomicU32::new(0);

struct Cap {
    cell: Box<u32>,
}

impl Cap {
    fn new(v: u32) -> Self {
        Cap { cell: Box::new(v) }
    }
    fn get(&self) -> u32 {
        CALLS.fetch_add(1, Ordering::Relaxed);
        *self.cell
    }
}

impl Drop for Cap {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Ordering::Relaxed);
    }
}

fn calls() -> u32 {
    CALLS.load(Ordering::Relaxed)
}

fn drops() -> u32 {
    DROPS.load(Ordering::Relaxed)
}

type F = Box<dyn Fn(u32) -> u32 + Send + Sync + 'static>;
type O = Box<dyn FnOnce(u32) -> u32 + Send + Sync + 'static>;

// x -> x ^ k, with k on the heap
fn fun(k: u32) -> F {
    let c = Cap::new(k);
    Box::new(move |x| x ^ c.get())
}

fn once(k: u32) -> O {
    let c = Cap::new(k);
    Box::new(move |x| {
        let r = x ^ c.get();
        drop(c);
        r
    })
}

fn pack(a: u32, b: u32) -> u64 {
    (a as u64) << 32 | b as u64
}

#[unsafe(no_mangle)]
pub extern "C" fn h_fn_call() {
    let live = vp::live_heap();
    let (k, x, y) = (vp::u32(), vp::u32(), vp::u32());
    VP_CHECK!(fn_call(fun(k), x) == x ^ k);
    VP_CHECK!(calls() == 1 && drops() == 1);
    VP_CHECK!(vp::live_heap() == live);
    VP_CHECK!(fn_twice(fun(k), x, y) == pack(x ^ k, y ^ k));
    VP_CHECK!(calls() == 3 && drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
    VP_CHECK!(mut_twice(fun(k), x, y) == pack(x ^ k, y ^ k));
    VP_CHECK!(calls() == 5 && drops() == 3);
    VP_CHECK!(vp::live_heap() == live);
}

// state kept by the closure, no captures at all, and function items
#[unsafe(no_mangle)]
pub extern "C" fn h_fn_kinds() {
    static N: AtomicU32 = AtomicU32::new(5);
    let live = vp::live_heap();
    let (x, y) = (vp::u32(), vp::u32());
    VP_CHECK!(mut_twice(Box::new(|v| N.fetch_add(v, Ordering::Relaxed)), x, y) == pack(5, x.wrapping_add(5)));
    VP_CHECK!(N.load(Ordering::Relaxed) == 5u32.wrapping_add(x).wrapping_add(y));
    fn item(x: u32) -> u32 {
        x.rotate_left(3)
    }
    VP_CHECK!(fn_call(Box::new(item), x) == x.rotate_left(3));
    let p: fn(u32) -> u32 = item;
    VP_CHECK!(fn_twice(Box::new(p), x, y) == pack(x.rotate_left(3), y.rotate_left(3)));
    VP_CHECK!(once_call(Box::new(item), y) == y.rotate_left(3));
    VP_CHECK!(vp::live_heap() == live);
    let a = AtomicU32::new(x);
    VP_CHECK!(mut_twice(Box::new(move |v| a.swap(v, Ordering::Relaxed)), y, 1) == pack(x, y));
    VP_CHECK!(vp::live_heap() == live);
    // a closure wider than two words
    let (p, q, r, s) = (vp::u64(), vp::u32(), vp::u8(), vp::u64());
    VP_CHECK!(fn_call(Box::new(move |v| (p ^ s) as u32 ^ q ^ r as u32 ^ v), x) == (p ^ s) as u32 ^ q ^ r as u32 ^ x);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_once_call() {
    let live = vp::live_heap();
    let (k, x) = (vp::u32(), vp::u32());
    VP_CHECK!(once_call(once(k), x) == x ^ k);
    VP_CHECK!(calls() == 1 && drops() == 1);
    VP_CHECK!(vp::live_heap() == live);
    static SEEN: AtomicU32 = AtomicU32::new(0);
    let c = Cap::new(k);
    once_void(Box::new(move || SEEN.store(c.get(), Ordering::Relaxed)));
    VP_CHECK!(SEEN.load(Ordering::Relaxed) == k);
    VP_CHECK!(calls() == 2 && drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_never() {
    let live = vp::live_heap();
    let k = vp::u32();
    VP_CHECK!(fn_never(fun(k)));
    VP_CHECK!(calls() == 0 && drops() == 1);
    VP_CHECK!(once_never(once(k)));
    VP_CHECK!(calls() == 0 && drops() == 2);
    VP_CHECK!(fn_never(Box::new(|x| x)));
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_two() {
    let live = vp::live_heap();
    let (j, k, x) = (vp::u32(), vp::u32(), vp::u8());
    VP_CHECK!(two(Box::new(move |v| v.wrapping_add(j)), x, once(k)) == (x as u32 ^ k).wrapping_add(j));
    VP_CHECK!(calls() == 1 && drops() == 1);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_moved() {
    let live = vp::live_heap();
    let (k, x) = (vp::u32(), vp::u32());
    let how = vp::pick(8) as u8;
    VP_CHECK!(fn_moved(fun(k), how, x) == x ^ k);
    VP_CHECK!(calls() == 1 && drops() == 1);
    VP_CHECK!(mut_moved(fun(k), how, x) == x ^ k);
    VP_CHECK!(calls() == 2 && drops() == 2);
    VP_CHECK!(once_moved(once(k), how, x) == x ^ k);
    VP_CHECK!(calls() == 3 && drops() == 3);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_swap_assign() {
    let live = vp::live_heap();
    let (j, k, x) = (vp::u32(), vp::u32(), vp::u32());
    let how = vp::pick(4) as u8;
    let (a, b) = if how < 3 { (k, j) } else { (j, k) };
    VP_CHECK!(fn_swap(fun(j), fun(k), how, x) == pack(x ^ a, x ^ b));
    VP_CHECK!(calls() == 2 && drops() == 2);
    VP_CHECK!(fn_assign(fun(j), fun(k), x) == x ^ k);
    VP_CHECK!(calls() == 3 && drops() == 4);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_any_invocable() {
    let live = vp::live_heap();
    let (k, x, call) = (vp::u32(), vp::u32(), vp::bool());
    VP_CHECK!(fn_any(fun(k), x, call) == if call { x ^ k } else { 3 });
    VP_CHECK!(calls() == call as u32 && drops() == 1);
    VP_CHECK!(once_any(once(k), x, call) == if call { x ^ k } else { 3 });
    VP_CHECK!(calls() == 2 * call as u32 && drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_types() {
    let live = vp::live_heap();
    let (a, b, k) = (vp::u8(), vp::u32() as i32, vp::u32());
    let c = Cap::new(k);
    let r = map_plain(Box::new(move |p| Plain { a: p.b as u8, b: (p.a as u32 ^ c.get()) as i32 }), Plain { a, b });
    VP_CHECK!(r.a == b as u8);
    VP_CHECK!(r.b == (a as u32 ^ k) as i32);
    let x = if vp::bool() { Some(vp::u16()) } else { None };
    let r = map_opt(Box::new(|o| match o { None => Some(9), Some(1) => None, Some(v) => Some(!v) }), x);
    VP_CHECK!(r == match x { None => Some(9), Some(1) => None, Some(v) => Some(!v) });
    let (m, n) = (vp::u64(), vp::u8());
    VP_CHECK!(map_pair(Box::new(|(m, n)| (n.wrapping_add(1), !m)), (m, n)) == (n.wrapping_add(1), !m));
    VP_CHECK!(u8::from(map_color(Box::new(|c| Color::from(!u8::from(c))), Color::from(n))) == !n);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_many() {
    let (a, p, c, d, e, g) = (vp::u8(), Plain { a: vp::u8(), b: vp::u32() as i32 }, vp::u16(), if vp::bool() { Some(vp::u8()) } else { None }, vp::bool(), vp::u64());
    fn mix(a: u8, p: Plain, c: u16, d: Option<u8>, e: bool, g: u64) -> u64 {
        let mut r = a as u64;
        r = r << 8 | p.a as u64;
        r = r << 16 | c as u64;
        r = r << 8 | d.unwrap_or(0xa5) as u64;
        r = r << 1 | d.is_some() as u64;
        r = r << 1 | e as u64;
        r ^ (p.b as u32 as u64) << 32 ^ g
    }
    VP_CHECK!(map_many(Box::new(mix), a, p, c, d, e, g) == mix(a, p, c, d, e, g));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_float() {
    let (x, y) = (f32::from_bits(vp::u32()), f64::from_bits(vp::u64()));
    let live = vp::live_heap();
    let c = vp::bool();
    let r = map_float(Box::new(move |x, y| if c { x as f64 } else { -y }), x, y);
    let w = if c { x as f64 } else { -y };
    VP_CHECK!(r == w || (r != r && w != w));
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_own() {
    let live = vp::live_heap();
    let (v, k) = (vp::u32(), vp::u32());
    {
        let c = Cap::new(k);
        let r = map_own(Box::new(move |o| if o.get() & 1 == 1 { Own::from(o.get() ^ c.get()) } else { o }), v);
        VP_CHECK!(r.get() == if v & 1 == 1 { v ^ k } else { v });
        VP_CHECK!(drops() == 1);
        VP_CHECK!(vp::live_heap() == live + 1);
    }
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_back() {
    let live = vp::live_heap();
    let (k, x, y) = (vp::u32(), vp::u32(), vp::u32());
    {
        let f = fn_back(fun(k));
        VP_CHECK!(drops() == 0);
        VP_CHECK!(f(x) == x ^ k);
        VP_CHECK!(f(y) == y ^ k);
        let f = fn_back(fn_back(f));
        VP_CHECK!(f(y) == y ^ k);
        VP_CHECK!(drops() == 0);
        VP_CHECK!(vp::live_heap() == live + 2);
    }
    VP_CHECK!(drops() == 1);
    {
        let call = vp::bool();
        let n = AtomicU32::new(7);
        let f = mut_back(Box::new(move |v| n.fetch_add(v, Ordering::Relaxed)), call, x);
        VP_CHECK!(f(y) == if call { x.wrapping_add(7) } else { 7 });
    }
    VP_CHECK!(vp::live_heap() == live);
    {
        let f = once_back(once(k));
        VP_CHECK!(drops() == 1);
        if vp::bool() {
            VP_CHECK!(f(x) == x ^ k);
        }
    }
    VP_CHECK!(drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_pick() {
    let live = vp::live_heap();
    let (j, k, x, first) = (vp::u32(), vp::u32(), vp::u32(), vp::bool());
    {
        let f = fn_pick(fun(j), fun(k), first);
        VP_CHECK!(drops() == 1);
        VP_CHECK!(f(x) == x ^ if first { j } else { k });
        VP_CHECK!(fn_twice(f, x, j) == if first { pack(x ^ j, 0) } else { pack(x ^ k, j ^ k) });
    }
    VP_CHECK!(drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
}

// an empty callable becomes one that only panics: dropping it, or passing it on, is harmless
#[unsafe(no_mangle)]
pub extern "C" fn h_empty_drop() {
    let live = vp::live_heap();
    let k = vp::u32();
    {
        let f = fn_empty(vp::bool(), fun(k));
        VP_CHECK!(drops() == 1);
        VP_CHECK!(vp::live_heap() == live);
        let f = fn_back(f);
        VP_CHECK!(fn_never(f));
    }
    VP_CHECK!(drops() == 1 && calls() == 0);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_empty_call() {
    let f = fn_empty(vp::bool(), fun(vp::u32()));
    vp::expect_abort(true);
    f(vp::u32());
}

// a callable used up in C++ is not run, or dropped, a second time
#[unsafe(no_mangle)]
pub extern "C" fn h_used_drop() {
    let live = vp::live_heap();
    let f = once_used(once(vp::u32()), vp::u32());
    VP_CHECK!(calls() == 1 && drops() == 1);
    drop(f);
    VP_CHECK!(calls() == 1 && drops() == 1);
    VP_CHECK!(vp::live_heap() == live);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_used_call() {
    let f = once_used(once(vp::u32()), vp::u32());
    vp::expect_abort(true);
    f(vp::u32());
}

#[unsafe(no_mangle)]
pub extern "C" fn h_kept() {
    let live = vp::live_heap();
    let (j, k, x, y) = (vp::u32(), vp::u32(), vp::u32(), vp::u32());
    VP_CHECK!(!kept());
    keep(fun(j));
    VP_CHECK!(kept());
    VP_CHECK!(fire(x) == x ^ j);
    VP_CHECK!(fire(y) == y ^ j);
    VP_CHECK!(drops() == 0);
    keep(fun(k));
    VP_CHECK!(drops() == 1);
    VP_CHECK!(fire(x) == x ^ k);
    let f = give();
    VP_CHECK!(!kept());
    VP_CHECK!(f(y) == y ^ k);
    VP_CHECK!(drops() == 1);
    drop(f);
    VP_CHECK!(drops() == 2);
    VP_CHECK!(vp::live_heap() == live);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_references() {
    let (a, b, y, k) = (vp::u8(), vp::u32() as i32, vp::u32(), vp::u32());
    let (mut x, mut z) = (Plain::default(), Plain::default());
    (x.a, x.b, z.a, z.b) = (a, b, a ^ 1, b);
    let r = unsafe {
        map_ref(Box::new(move |p: *const Plain, q: *mut u32| { let r = unsafe { ((*p).a as u64) << 8 | ((*p).b as u32 as u64) << 20 }; unsafe { *q ^= k; } r }), x, y)
    };
    VP_CHECK!(r == ((a as u64) << 8 | (b as u32 as u64) << 20) ^ ((y ^ k) as u64) << 16 ^ a as u64);
    let heap = vp::live_heap();
    let r = unsafe { map_rref(Box::new(move |p: *mut Own| { let mut o = Own::from(k); unsafe { core::mem::swap(&mut o, &mut *p); } o.get() }), y) };
    VP_CHECK!(r == y as u64 ^ (k as u64) << 32);
    VP_CHECK!(vp::live_heap() == heap);
    let null = vp::bool();
    let mut calls = 0;
    let seen = &raw mut calls as usize;
    let r = unsafe {
        map_ptr(Box::new(move |p: *mut Plain, q: *const u32| unsafe {
            *(seen as *mut i32) += 1;
            (*p).b = k as i32;
            if q.is_null() { (*p).a as u32 } else { *q }
        }), x, y, null)
    };
    VP_CHECK!(calls == 1 && r == (if null { a as u32 } else { y }) as u64 ^ (k as u64) << 32);
    let first = vp::bool();
    let g = unsafe { map_pick(Box::new(move |p: *const Plain, q: *const Plain| if first { p } else { q }), &x, &z) };
    VP_CHECK!(core::ptr::eq(g, if first { &x } else { &z }));
}
