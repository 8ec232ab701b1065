use sample::*;
use cc_std::std::{unique_ptr, vector, virtual_unique_ptr};
use core::pin::Pin;
use core::sync::atomic::{AtomicI32, AtomicPtr, AtomicU64, AtomicU8, Ordering};
use ctor::CtorNew;
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(11).wrapping_add(x) }
fn i(x: u32) -> i32 { x as i32 }
fn s(x: i32) -> u64 { x as i64 as u64 }
fn total(v: &[i32]) -> u64 { v.iter().fold(v.len() as u64, |h, x| mx(h, s(*x))) }

#[unsafe(no_mangle)]
pub extern "C" fn h_return_numbers() {
    let (from, n) = (i(vp::u32()), vp::pick(5) as u8);
    let heap = vp::live_heap();
    {
        let v = iota(from, n);
        VP_CHECK!(v.len() == n as usize && v.is_empty() == (n == 0) && v.capacity() >= n as usize);
        for k in 0..n as usize { VP_CHECK!(v[k] == from.wrapping_add(3 * k as i32)); }
        let t = total(v.as_slice());
        VP_CHECK!(sum_ref(&v) == t && v.len() == n as usize);
        VP_CHECK!(sum(v) == t);
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pass_numbers() {
    let (a, b, c) = (i(vp::u32()), i(vp::u32()), i(vp::u32()));
    let heap = vp::live_heap();
    {
        let mut v = vector::new();
        VP_CHECK!(sum_ref(&v) == 0);
        v.push(a);
        push(&mut v, b);
        v.push(c);
        push(&mut v, a);
        VP_CHECK!(v.as_slice() == [a, b, c, a]);
        VP_CHECK!(sum_ref(&v) == total(&[a, b, c, a]));
        let r = &raw mut v;
        let w = same(&mut v);
        VP_CHECK!(&raw mut *w == r && w.len() == 3);
        VP_CHECK!(w.pop() == Some(c) && v.as_slice() == [a, b]);
        VP_CHECK!(*at(&v, 1) == b && at(&v, 0) as *const i32 == v.as_ptr());
        let k = v.clone();
        VP_CHECK!(k.as_ptr() != v.as_ptr());
        VP_CHECK!(sum(v) == total(&[a, b]) && k.as_slice() == [a, b]);
        VP_CHECK!(sum(vector::from(&[c, a, b])) == total(&[c, a, b]));
        VP_CHECK!(sum(k.into_vec().into()) == total(&[a, b]));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_move_numbers() {
    let (a, b, n) = (i(vp::u32()), i(vp::u32()), vp::pick(3) as u8);
    let heap = vp::live_heap();
    {
        let (mut from, mut to) = (iota(a, n), iota(b, 2));
        let p = from.as_ptr();
        unsafe { take_over(ctor::RvalueReference(Pin::new(&mut from)), &mut to) };
        VP_CHECK!(to.len() == n as usize && from.len() == 0);
        if n > 0 { VP_CHECK!(to.as_ptr() == p && to[0] == a && to[n as usize - 1] == a.wrapping_add(3 * (n as i32 - 1))); }
        core::mem::swap(&mut from, &mut to);
        push(&mut from, b);
        push(&mut to, a);
        VP_CHECK!(from.len() == n as usize + 1 && from[n as usize] == b && to.as_slice() == [a]);
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bytes() {
    let mut buf = [0u8; 3];
    for x in buf.iter_mut() { *x = vp::u8(); }
    let (n, m) = (vp::pick(4), vp::pick(4));
    let heap = vp::live_heap();
    {
        let a = unsafe { bytes(buf.as_ptr(), n as i32) };
        VP_CHECK!(a.as_slice() == &buf[..n as usize] && a.as_ptr() != buf.as_ptr());
        let mut b = vector::from(&buf[..m as usize]);
        VP_CHECK!(equal(&a, b.clone()) == (n == m) && (a == b) == (n == m));
        if m > 0 {
            b[0] ^= 1;
            VP_CHECK!(!equal(&a, b) && a.as_slice() == &buf[..n as usize]);
        }
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_structs() {
    let (x, y, n, k) = (i(vp::u32()), vp::u16() as i16, vp::pick(4) as u8, i(vp::u32()));
    let heap = vp::live_heap();
    {
        let mut v = points(x, y, n);
        VP_CHECK!(v.len() == n as usize);
        for j in 0..n as usize { VP_CHECK!(v[j].x == x && v[j].y == y ^ j as i16); }
        v.push(Pt { x: k, y: 9 });
        if n > 1 { v[1].x = 5; }
        let t = v.iter().fold(s(k).wrapping_add(n as u64 + 1), |h, p| mx(mx(h, s(p.x)), p.y as i64 as u64));
        VP_CHECK!(sum_points(v, k) == t);
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owners() {
    let (a, b, c) = (vp::u64(), vp::u64(), vp::u64());
    let heap = vp::live_heap();
    {
        let mut v = toks(a, b);
        VP_CHECK!(v.len() == 2 && v[0].v() == a && v[1].v() == b && vp::live_heap() == heap + 3);
        VP_CHECK!(unsafe { peek_toks(&v) } == mx(mx(2, a), b));
        v.push(Tok::from(c));
        let w = v.clone();
        VP_CHECK!(w.len() == 3 && w[2].v() == c && vp::live_heap() == heap + 8);
        let t = v.remove(0);
        VP_CHECK!(t.v() == a && v.len() == 2);
        drop(t);
        VP_CHECK!(sum_toks(v) == mx(mx(2, b), c) && vp::live_heap() == heap + 4);
        VP_CHECK!(sum_toks(w) == mx(mx(mx(3, a), b), c));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_rows() {
    let (a, b, c) = (i(vp::u32()), i(vp::u32()), i(vp::u32()));
    let heap = vp::live_heap();
    {
        let mut v = rows(a, b);
        VP_CHECK!(v.len() == 3 && v[0].as_slice() == [a] && v[1].is_empty() && v[2].as_slice() == [b, a]);
        v[1].push(c);
        VP_CHECK!(sum_rows(&v) == mx(mx(mx(3, total(&[a])), total(&[c])), total(&[b, a])));
        let r = v.swap_remove(0);
        VP_CHECK!(sum(r) == total(&[a]));
        v.push(iota(c, 1));
        VP_CHECK!(sum_rows(&v) == mx(mx(mx(3, total(&[b, a])), total(&[c])), total(&[c])));
    }
    VP_CHECK!(vp::live_heap() == heap);
    let (mut x, mut y) = (1.0, 2.0);
    let (p, q): (*mut f64, *mut f64) = (&mut x, &mut y);
    let v = unsafe { ptrs(p, q) };
    VP_CHECK!(v.as_slice() == [p, q]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owning_numbers() {
    let (x, y, full) = (i(vp::u32()), i(vp::u32()), vp::bool());
    let heap = vp::live_heap();
    {
        let mut p = box_int(x, full);
        VP_CHECK!(p.get().is_null() == !full && vp::live_heap() == heap + full as i32);
        VP_CHECK!(p.as_ref().copied() == if full { Some(x) } else { None });
        if let Some(r) = p.as_mut() { *r = y; }
        if vp::bool() {
            VP_CHECK!(unbox_int(p) == if full { mx(1, s(y)) } else { 0 });
        } else {
            let raw = p.release();
            VP_CHECK!(p.get().is_null() && unbox_int(p) == 0);
            VP_CHECK!(vp::live_heap() == heap + full as i32);
            drop(unsafe { unique_ptr::new(raw) });
        }
        VP_CHECK!(vp::live_heap() == heap);
        drop(box_int(x, full));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owning_owner() {
    let (x, k, keep) = (vp::u64(), i(vp::u32()), vp::bool());
    let heap = vp::live_heap();
    {
        let mut p = box_tok(x);
        VP_CHECK!(p.as_ref().unwrap().v() == x && vp::live_heap() == heap + 2);
        *p.as_mut().unwrap() = Tok::from(x ^ 1);
        VP_CHECK!(vp::live_heap() == heap + 2);
        if keep { VP_CHECK!(unbox_tok(p, k) == mx(x ^ 1, s(k))); }
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owning_pinned() {
    let (x, y) = (vp::u64(), vp::u64());
    let (heap, n) = (vp::live_heap(), live_fixed());
    {
        let mut p = box_fixed(x);
        let a = p.get();
        VP_CHECK!(live_fixed() == n + 1 && p.as_pin().unwrap().v() == x && p.as_pin().unwrap().me() == a as u64 && read_fixed(&p) == x);
        let at = &raw mut p;
        let q = swap_fixed(&mut p, y);
        VP_CHECK!(&raw mut *q == at && read_fixed(q) == y && live_fixed() == n + 1);
        unsafe { p.as_pin().unwrap().get_unchecked_mut().v_ = x ^ y; }
        VP_CHECK!(read_fixed(&p) == x ^ y);
        let moved = p;
        VP_CHECK!(read_fixed(&moved) == x ^ y && live_fixed() == n + 1);
    }
    VP_CHECK!(vp::live_heap() == heap && live_fixed() == n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_owning_virtual() {
    let (x, derived, how) = (vp::u64(), vp::bool(), vp::pick(3));
    let heap = vp::live_heap();
    died();
    let value = if derived { x.wrapping_add(x ^ 5) } else { x };
    {
        let mut p: virtual_unique_ptr<Base> = box_base(x, derived);
        VP_CHECK!(read_base(&mut p) == value && p.as_ref().unwrap().v() == value && vp::live_heap() == heap + 1 + derived as i32 && died() == 0);
        if how == 0 {
            VP_CHECK!(unbox_base(p) == value.wrapping_add(1));
        } else if how == 1 {
            let raw = p.release();
            VP_CHECK!(unbox_base(p) == 2 && died() == 0);
            drop(unsafe { virtual_unique_ptr::new(raw) });
        }
    }
    VP_CHECK!(vp::live_heap() == heap && died() == if derived { 1001 } else { 1 });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_vector_of_owning() {
    let (a, b, c) = (i(vp::u32()), i(vp::u32()), i(vp::u32()));
    let heap = vp::live_heap();
    {
        let mut v = boxes(a, b);
        VP_CHECK!(v.len() == 3 && v[0].as_ref() == Some(&a) && v[1].as_ref() == None && v[2].as_ref() == Some(&b));
        let p = v.swap_remove(0);
        VP_CHECK!(v.len() == 2 && unbox_int(p) == mx(1, s(a)));
        v.push(box_int(c, true));
        VP_CHECK!(sum_boxes(v) == mx(mx(mx(3, s(b)), 9), s(c)));
        VP_CHECK!(vp::live_heap() == heap);
        drop(boxes(b, c));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_atomics() {
    let (x, k) = (i(vp::u32()), i(vp::u32()));
    let mut a = AtomicI32::new(x);
    bump(&mut a, k);
    VP_CHECK!(a.load(Ordering::SeqCst) == x.wrapping_add(k));
    let (b, w) = (vp::u8(), vp::u64());
    let (c, mut d) = (AtomicU8::new(b), AtomicU64::new(w));
    VP_CHECK!(unsafe { load8(&c, &mut d) } == b as u64);
    VP_CHECK!(d.load(Ordering::SeqCst) == w.wrapping_add(b as u64) && c.load(Ordering::SeqCst) == b);
    let mut n = 4;
    let mut p = AtomicPtr::new(core::ptr::null_mut());
    unsafe { point(&mut p, &mut n) };
    VP_CHECK!(p.load(Ordering::SeqCst) == &raw mut n);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_members() {
    let (a, b, c, full) = (i(vp::u32()), i(vp::u32()), i(vp::u32()), vp::bool());
    let heap = vp::live_heap();
    {
        let mut h = ctor::emplace!(<Holder as CtorNew<(vector<i32>, unique_ptr<i32>)>>::ctor_new((iota(a, 2), box_int(b, full))));
        VP_CHECK!(h.vals.len() == 2 && h.vals[0] == a && h.one.get().is_null() == !full && h.count.load(Ordering::Relaxed) == 4);
        VP_CHECK!(h.view().as_slice() == [a, a.wrapping_add(3)] && core::ptr::eq(h.view(), &*h.vals));
        unsafe { h.as_mut().get_unchecked_mut().vals.push(c); }
        h.count.store(c, Ordering::Relaxed);
        VP_CHECK!(h.total() == mx(mx(total(&[a, a.wrapping_add(3), c]), if full { s(b) } else { 8 }), s(c)));
        let v = h.as_mut().take();
        VP_CHECK!(v.len() == 3 && v[2] == c && h.vals.is_empty());
        if vp::bool() { h.as_mut().give(box_int(c, true)); }
        else {
            let p = h.as_mut().drop_one();
            VP_CHECK!(unbox_int(p) == if full { mx(1, s(b)) } else { 0 } && h.one.get().is_null());
        }
    }
    VP_CHECK!(vp::live_heap() == heap);
}
