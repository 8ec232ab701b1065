include!("../../../../rt/vp.rs");
use crate::optional_rs::optional;
use crate::shared_ptr_rs::shared_ptr;
use crate::unique_ptr_rs::{unique_ptr, virtual_unique_ptr, Delete};
use core::mem::ManuallyDrop as MD;
use core::pin::Pin;
use std::sync::Arc;
type Sp<T> = MD<shared_ptr<T>>;

extern "C" { fn c27_own_new(v: u32) -> *mut u32; fn c27_own_del(p: *mut u32); fn c27_died(v: u32); fn c27_base_delete(p: *mut Base); fn c27_base_id(p: *const Base) -> u32; }
/// An owner of a C++ allocation whose death is counted; C++ has the same type.
#[repr(C)] pub struct Own { p: *mut u32, pub k: u8 }
impl Own { pub fn mk(v: u32, k: u8) -> Own { Own { p: unsafe { c27_own_new(v) }, k } } pub fn v(&self) -> u32 { unsafe { *self.p } } }
impl Drop for Own { fn drop(&mut self) { unsafe { c27_died(*self.p); c27_own_del(self.p) } } }
/// The same with an alignment that plain `operator new` does not give.
#[repr(C, align(64))] pub struct Big { o: Own, pad: [u64; 3] }
#[repr(C)] pub struct Base { vtable: *const (), id: u32 }
unsafe impl Delete for Base { unsafe fn delete(p: *mut Self) { c27_base_delete(p) } }

macro_rules! uniq { ($T:ty: $get:ident $rel:ident $drop:ident $id:ident $read:ident $write:ident $mk:ident = $new:expr, |$x:ident| $val:expr, $set:expr) => {
    #[no_mangle] pub unsafe extern "C" fn $get(p: &unique_ptr<$T>) -> *mut $T { p.get() }
    #[no_mangle] pub unsafe extern "C" fn $rel(p: &mut unique_ptr<$T>) -> *mut $T { p.release() }
    #[no_mangle] pub unsafe extern "C" fn $drop(p: *mut unique_ptr<$T>) { drop(core::ptr::read(p)); core::ptr::write(p, unique_ptr::new(core::ptr::null_mut())) }
    /// Moves the pointer through Rust values.
    #[no_mangle] pub unsafe extern "C" fn $id(p: *mut unique_ptr<$T>, q: *mut unique_ptr<$T>) {
        let v = vec![core::ptr::read(p)];
        let mut o = v.into_iter().next();
        core::ptr::write(p, unique_ptr::new(core::ptr::null_mut()));
        core::ptr::write(q, o.take().unwrap());
    }
    #[no_mangle] pub unsafe extern "C" fn $read(p: &mut unique_ptr<$T>) -> u64 { match p.as_ref() { None => 1 << 40, Some($x) => $val as u64 } }
    #[no_mangle] pub unsafe extern "C" fn $write(p: &mut unique_ptr<$T>, v: u32, pin: bool) { if pin { if let Some(x) = p.as_pin() { ($set)(x.get_mut(), v) } } else if let Some(x) = p.as_mut() { ($set)(x, v) } }
    #[no_mangle] pub unsafe extern "C" fn $mk(q: *mut unique_ptr<$T>, v: u32) {
        let p = crate::crubit_cc_std_internal::std_allocator::cpp_new(core::mem::size_of::<$T>(), core::mem::align_of::<$T>()) as *mut $T;
        p.write(($new)(v));
        core::ptr::write(q, unique_ptr::new(p))
    }
} }
uniq!(Own: own_get own_rel own_drop own_id own_read own_write own_mk = |v| Own::mk(v, 3), |x| x.v(), |x: &mut Own, v| *x = Own::mk(v, x.k));
uniq!(Big: big_get big_rel big_drop big_id big_read big_write big_mk = |v| Big { o: Own::mk(v, 3), pad: [5, 6, 7] }, |x| x.o.v(), |x: &mut Big, v| *x = Big { o: Own::mk(v, x.o.k), pad: x.pad });
#[no_mangle] pub unsafe extern "C" fn virt_drop(p: *mut virtual_unique_ptr<Base>) { drop(core::ptr::read(p)); core::ptr::write(p, virtual_unique_ptr::new(core::ptr::null_mut())) }
#[no_mangle] pub unsafe extern "C" fn virt_use(p: &mut virtual_unique_ptr<Base>) -> u64 {
    if p.get().is_null() != p.as_ref().is_none() || p.as_ref().is_none() != p.as_pin().is_none() { return 1 << 50 }
    match p.as_mut() { None => 1 << 40, Some(b) => { b.id ^= 1; c27_base_id(b) as u64 } }
}
#[no_mangle] pub unsafe extern "C" fn virt_rel(p: &mut virtual_unique_ptr<Base>) -> *mut Base { p.release() }

#[no_mangle] pub unsafe extern "C" fn sp_new(q: *mut Sp<Own>, v: u32, k: u8) { q.write(MD::new(shared_ptr::new(Own::mk(v, k)))) }
#[no_mangle] pub unsafe extern "C" fn sp_box(q: *mut Sp<Own>, v: u32, k: u8) { q.write(MD::new(shared_ptr::from_box(Box::new(Own::mk(v, k))))) }
#[no_mangle] pub unsafe extern "C" fn sp_pin(q: *mut Sp<Own>, v: u32, k: u8) { q.write(MD::new(shared_ptr::from_pinned_box(Box::pin(Own::mk(v, k))))) }
#[no_mangle] pub unsafe extern "C" fn sp_arc(q: *mut Sp<Own>, v: u32, k: u8) { q.write(MD::new(shared_ptr::from_arc(Arc::new(Own::mk(v, k))))) }
#[no_mangle] pub unsafe extern "C" fn sp_del(q: *mut Sp<Own>, v: u32, k: u8) {
    let extra = Box::new(v);
    let p = Box::into_raw(Box::new(Own::mk(v, k)));
    q.write(MD::new(shared_ptr::from_ptr_and_deleter(p, move |p| { VP_CHECK!((*p).v() == *extra); drop(Box::from_raw(p)) })))
}
#[no_mangle] pub unsafe extern "C" fn sp_del_null(q: *mut Sp<Own>, v: u32) {
    let extra = Box::new(v);
    q.write(MD::new(shared_ptr::from_ptr_and_deleter(core::ptr::null_mut(), move |p| { VP_CHECK!(p.is_null()); c27_died(*extra) })))
}
#[no_mangle] pub unsafe extern "C" fn sp_clone(p: &Sp<Own>, q: *mut Sp<Own>) { q.write(MD::new((**p).clone())) }
#[no_mangle] pub unsafe extern "C" fn sp_drop(p: *mut Sp<Own>) { MD::drop(&mut *p); p.write(MD::new(shared_ptr::from_raw_parts(core::ptr::null(), core::ptr::null_mut()))) }
#[no_mangle] pub unsafe extern "C" fn sp_move(p: &mut Sp<Own>, q: *mut Sp<Own>) { let (a, c) = shared_ptr::release(p); q.write(MD::new(shared_ptr::from_raw_parts(a, c))) }
#[no_mangle] pub unsafe extern "C" fn sp_into(p: *mut Sp<Own>, q: *mut Sp<Own>) { let (a, c) = shared_ptr::into_raw_parts(MD::into_inner(p.read())); p.write(MD::new(shared_ptr::from_raw_parts(core::ptr::null(), core::ptr::null_mut()))); q.write(MD::new(shared_ptr::from_raw_parts(a, c))) }
/// Turns a handle on a whole value into a handle on a part of it.
#[no_mangle] pub unsafe extern "C" fn sp_project(p: *mut Sp<Own>, q: *mut Sp<u8>) { let s = MD::into_inner(p.read()); p.write(MD::new(shared_ptr::from_raw_parts(core::ptr::null(), core::ptr::null_mut()))); q.write(MD::new(shared_ptr::project(s, |o| &o.k))) }
#[no_mangle] pub unsafe extern "C" fn sp_part(p: &Sp<u8>) -> u64 { match shared_ptr::try_as_ref(p) { None => 1 << 40, Some(k) => *k as u64 } }
#[no_mangle] pub unsafe extern "C" fn sp_part_drop(p: *mut Sp<u8>) { MD::drop(&mut *p) }
#[no_mangle] pub unsafe extern "C" fn sp_read(p: &Sp<Own>) -> u64 {
    if shared_ptr::is_null(p) != shared_ptr::as_ptr(p).is_null() { return 1 << 50 }
    match shared_ptr::try_as_ref(p) { None => 1 << 40, Some(o) => o.v() as u64 }
}
#[no_mangle] pub unsafe extern "C" fn sp_count(p: &Sp<Own>) -> usize { shared_ptr::use_count(p) }
#[no_mangle] pub unsafe extern "C" fn sp_same(p: &Sp<Own>, q: &Sp<Own>) -> bool { shared_ptr::owner_equal(p, q) }
#[no_mangle] pub unsafe extern "C" fn sp_same_part(p: &Sp<Own>, q: &Sp<u8>) -> bool { shared_ptr::owner_equal(p, q) }

#[no_mangle] pub unsafe extern "C" fn opt_drop(p: *mut optional<Own>) { core::ptr::drop_in_place(p) }
#[no_mangle] pub unsafe extern "C" fn opt_move(p: *const optional<Own>, q: *mut optional<Own>) { core::ptr::write(q, core::ptr::read(p)) }
#[no_mangle] pub extern "C" fn opt_size() -> usize { core::mem::size_of::<optional<Own>>() * 64 + core::mem::align_of::<optional<Own>>() }
#[no_mangle] pub extern "C" fn opt_size8() -> usize { core::mem::size_of::<optional<u8>>() * 64 + core::mem::align_of::<optional<u8>>() }
