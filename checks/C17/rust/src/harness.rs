include!("../../../../rt/vp.rs");
use crate::std::vector;
use core::hash::{Hash, Hasher};
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(13).wrapping_add(x) }

/// A plain value, an owner of a C++ allocation and an over-aligned value; the C++ side has the same three.
pub type E0 = u32;
#[repr(C)] pub struct E1 { p: *mut u32 }
#[repr(C, align(32))] #[derive(Clone, Copy)] pub struct E2 { v: u64 }
extern "C" { fn c17_own_new(v: u32) -> *mut u32; fn c17_own_del(p: *mut u32); }
impl Drop for E1 { fn drop(&mut self) { unsafe { c17_own_del(self.p) } } }
impl Clone for E1 { fn clone(&self) -> Self { E1::mk(self.v()) } }
pub trait El: Clone + Unpin + PartialEq + Ord + Hash { fn mk(v: u32) -> Self; fn v(&self) -> u32; }
impl El for E0 { fn mk(v: u32) -> Self { v } fn v(&self) -> u32 { *self } }
impl El for E1 { fn mk(v: u32) -> Self { E1 { p: unsafe { c17_own_new(v) } } } fn v(&self) -> u32 { unsafe { *self.p } } }
impl El for E2 { fn mk(v: u32) -> Self { E2 { v: v as u64 } } fn v(&self) -> u32 { self.v as u32 } }
macro_rules! cmp { ($($t:ty)*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.v() == o.v() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.v().cmp(&o.v()) } }
    impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { self.v().hash(h) } }
)* } }
cmp!(E1 E2);
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mx(self.0, *x as u64) } }
}
fn dg<T: El>(s: &[T]) -> u64 { let mut h = s.len() as u64; for x in s { h = mx(h, x.v() as u64) } h }

macro_rules! ops { ($T:ident; $($name:ident $n0:ident $n1:ident $n2:ident ($v:ident $a:ident $b:ident $o:ident) $body:block)*) => { $(
    fn $name<$T: El>($v: &mut vector<$T>, $a: usize, $b: u32, $o: &mut vector<$T>) -> u64 $body
    #[no_mangle] pub unsafe extern "C" fn $n0(v: &mut vector<E0>, a: usize, b: u32, o: &mut vector<E0>) -> u64 { $name(v, a, b, o) }
    #[no_mangle] pub unsafe extern "C" fn $n1(v: &mut vector<E1>, a: usize, b: u32, o: &mut vector<E1>) -> u64 { $name(v, a, b, o) }
    #[no_mangle] pub unsafe extern "C" fn $n2(v: &mut vector<E2>, a: usize, b: u32, o: &mut vector<E2>) -> u64 { $name(v, a, b, o) }
)* } }
// Each operation works on `v` (and sometimes `o`), vectors that C++ made, with an index or count `a`
// and a value `b`; what it returns is compared with what the C++ model says.
ops! { T;
    len len_0 len_1 len_2 (v a b o) { (v.len() * 100 + v.is_empty() as usize * 10) as u64 }
    cap cap_0 cap_1 cap_2 (v a b o) { v.capacity() as u64 }
    read read_0 read_1 read_2 (v a b o) { let mut h = 0; for x in v.iter() { h = mx(h, x.v() as u64) } for x in &*v { h = mx(h, x.v() as u64) } mx(mx(h, dg(v.as_slice())), dg(&v[..])) }
    index index_0 index_1 index_2 (v a b o) { v[a].v() as u64 }
    write write_0 write_1 write_2 (v a b o) { for x in v.iter_mut() { *x = T::mk(x.v() ^ b) } for x in &mut *v { *x = T::mk(x.v() ^ 1) } v.as_mut_slice().swap(0, a); v[a] = T::mk(b); 0 }
    push push_0 push_1 push_2 (v a b o) { v.push(T::mk(b)); 0 }
    insert insert_0 insert_1 insert_2 (v a b o) { v.insert(a, T::mk(b)); 0 }
    remove remove_0 remove_1 remove_2 (v a b o) { v.remove(a).v() as u64 }
    swap_remove swap_remove_0 swap_remove_1 swap_remove_2 (v a b o) { v.swap_remove(a).v() as u64 }
    pop pop_0 pop_1 pop_2 (v a b o) { match v.pop() { None => 1 << 40, Some(x) => x.v() as u64 } }
    clear clear_0 clear_1 clear_2 (v a b o) { v.clear(); 0 }
    truncate truncate_0 truncate_1 truncate_2 (v a b o) { v.truncate(a); 0 }
    reserve reserve_0 reserve_1 reserve_2 (v a b o) { v.reserve(a); (v.capacity() >= v.len() + a) as u64 }
    reserve_exact reserve_exact_0 reserve_exact_1 reserve_exact_2 (v a b o) { v.reserve_exact(a); (v.capacity() >= v.len() + a) as u64 }
    try_reserve try_reserve_0 try_reserve_1 try_reserve_2 (v a b o) { let ok = v.try_reserve(a).is_ok(); let big = v.try_reserve(usize::MAX).is_err(); let big2 = v.try_reserve_exact(usize::MAX / 2).is_err(); (ok && big && big2 && v.capacity() >= v.len() + a) as u64 }
    shrink_to_fit shrink_to_fit_0 shrink_to_fit_1 shrink_to_fit_2 (v a b o) { v.shrink_to_fit(); (v.capacity() == v.len()) as u64 }
    shrink_to shrink_to_0 shrink_to_1 shrink_to_2 (v a b o) { let c = v.capacity(); v.shrink_to(a); (v.capacity() >= v.len() && v.capacity() >= a.min(c) && v.capacity() <= c) as u64 }
    extend_from_slice efs_0 efs_1 efs_2 (v a b o) { v.extend_from_slice(o.as_slice()); 0 }
    extend_from_within efw_0 efw_1 efw_2 (v a b o) { v.extend_from_within(a..); 0 }
    extend extend_0 extend_1 extend_2 (v a b o) { v.extend((0..a).map(|i| T::mk(b.wrapping_add(i as u32)))); 0 }
    resize resize_0 resize_1 resize_2 (v a b o) { v.resize(a, T::mk(b)); 0 }
    resize_with resize_with_0 resize_with_1 resize_with_2 (v a b o) { let mut i = b; v.resize_with(a, || { i = i.wrapping_add(1); T::mk(i) }); 0 }
    dedup dedup_0 dedup_1 dedup_2 (v a b o) { v.dedup(); 0 }
    dedup_by_key dedup_by_key_0 dedup_by_key_1 dedup_by_key_2 (v a b o) { v.dedup_by_key(|x| x.v() & 1); 0 }
    retain retain_0 retain_1 retain_2 (v a b o) { v.retain(|x| x.v() > b); 0 }
    retain_mut retain_mut_0 retain_mut_1 retain_mut_2 (v a b o) { v.retain_mut(|x| { let k = x.v() > b; *x = T::mk(x.v() ^ b); k }); 0 }
    split_off split_off_0 split_off_1 split_off_2 (v a b o) { *o = v.split_off(a); 0 }
    append append_0 append_1 append_2 (v a b o) { v.append(o); 0 }
    clone clone_0 clone_1 clone_2 (v a b o) { *o = v.clone(); 0 }
    take_vec take_vec_0 take_vec_1 take_vec_2 (v a b o) { let w = core::mem::take(v).into_vec(); let h = dg(&w); *o = vector::from(w); h }
    from_into from_into_0 from_into_1 from_into_2 (v a b o) { let mut w: Vec<T> = core::mem::take(v).into(); w.push(T::mk(b)); *o = w.into_iter().collect(); 0 }
    to_vec to_vec_0 to_vec_1 to_vec_2 (v a b o) { let w = v.to_vec(); *o = vector::from(w.as_slice()); dg(&w) }
    new_from new_from_0 new_from_1 new_from_2 (v a b o) { let arr = [T::mk(b), T::mk(7)]; *o = vector::from(arr.clone()); let e = *o == arr; o.push(T::mk(9)); *v = vector::with_capacity(a); (e && v.capacity() >= a && v.is_empty()) as u64 }
    into_iter into_iter_0 into_iter_1 into_iter_2 (v a b o) {
        let mut it = core::mem::take(v).into_iter();
        let mut h = it.len() as u64;
        for i in 0..a { let x = if (b >> i) & 1 == 0 { it.next() } else { it.next_back() }; h = mx(h, match x { None => 1 << 40, Some(x) => x.v() as u64 }) }
        h = mx(h, dg(it.as_slice()));
        for x in it.as_mut_slice() { *x = T::mk(x.v() ^ 1) }
        let (lo, hi) = it.size_hint();
        mx(mx(h, (hi == Some(lo)) as u64), it.count() as u64)
    }
    compare compare_0 compare_1 compare_2 (v a b o) {
        let (p, q) = (&*v, &*o);
        let mut h = (p == q) as u64 | ((p == p) as u64) << 1 | ((p != q) as u64) << 2 | (p.eq(q.as_slice()) as u64) << 3;
        h |= ((p.cmp(q) as i8 + 1) as u64) << 8 | ((p.partial_cmp(q).unwrap() as i8 + 1) as u64) << 16;
        h |= ((p < q) as u64) << 24;
        h
    }
    from_alloc from_alloc_0 from_alloc_1 from_alloc_2 (v a b o) {
        let mut w = Vec::with_capacity_in(a, crate::crubit_cc_std_internal::std_allocator::StdAllocator {});
        while let Some(x) = v.pop() { w.push(x) }
        *o = vector::from(w);
        0
    }
    collect_some collect_some_0 collect_some_1 collect_some_2 (v a b o) { *o = v.iter().filter(|x| x.v() > b).cloned().collect(); v.extend(o.iter().cloned().filter(|x| x.v() & 1 == 0)); 0 }
    dedup_by dedup_by_0 dedup_by_1 dedup_by_2 (v a b o) { v.dedup_by(|x, y| { let k = x.v() > y.v(); if k { *y = T::mk(y.v() ^ b) } k }); 0 }
    views views_0 views_1 views_2 (v a b o) {
        use core::borrow::{Borrow, BorrowMut};
        let n = v.len();
        let mut h = dg::<T>(AsRef::<[T]>::as_ref(v));
        h = mx(h, dg::<T>(AsRef::<vector<T>>::as_ref(v).as_slice()));
        h = mx(h, dg::<T>(Borrow::<[T]>::borrow(v)));
        if a < n {
            AsMut::<[T]>::as_mut(v)[a] = T::mk(b);
            BorrowMut::<[T]>::borrow_mut(v)[n - 1] = T::mk(b ^ 1);
            AsMut::<vector<T>>::as_mut(v).swap(0, a);
            v[a..].reverse();
            h = mx(h, dg(&v[..a]));
            h = mx(h, unsafe { (*v.as_ptr().add(a)).v() as u64 });
            unsafe { *v.as_mut_ptr().add(a) = T::mk(b.wrapping_add(5)) }
        }
        h
    }
    from_refs from_refs_0 from_refs_1 from_refs_2 (v a b o) {
        let mut arr = [T::mk(b), T::mk(7)];
        *o = vector::from(&mut arr);
        o.append(&mut vector::from(&arr));
        if a > 0 { *o = vector::from(v.as_mut_slice()) }
        if a > 1 { *o = vector::default() }
        (*o == v.as_slice()) as u64
    }
    hash hash_0 hash_1 hash_2 (v a b o) { let (mut x, mut y) = (Mix(0), Mix(0)); v.hash(&mut x); v.to_vec().hash(&mut y); (x.0 == y.0) as u64 }
    drop_it drop_it_0 drop_it_1 drop_it_2 (v a b o) { unsafe { core::ptr::drop_in_place(v); core::ptr::write(v, vector::new()) } 0 }
    swap swap_0 swap_1 swap_2 (v a b o) { core::mem::swap(v, o); 0 }
    set_len set_len_0 set_len_1 set_len_2 (v a b o) { unsafe { v.reserve(a); v.prepare_to_write_into_tail(); let n = v.len(); for i in 0..a { v.as_mut_ptr().add(n + i).write(T::mk(b)) } v.set_len(n + a) } 0 }
}
