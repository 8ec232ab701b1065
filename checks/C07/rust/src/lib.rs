include!("../../../../rt/vp.rs");
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
pub struct P { a: u8, b: u32, c: u16 }
impl P { fn w(&self) -> u64 { (self.a as u64) << 48 ^ (self.b as u64) << 16 ^ self.c as u64 } }
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(13).wrapping_add(x) }
macro_rules! sl { ($t:ty, $len:ident, $fold:ident, $get:ident, $eq:ident, $rev:ident, $tail:ident, $raw:ident, $mraw:ident, $f:expr) => {
    #[no_mangle] pub extern "C" fn $len(s: &[$t]) -> usize { s.len() }
    #[no_mangle] pub extern "C" fn $fold(s: &[$t]) -> u64 { let mut h = 0; for x in s { h = mx(h, $f(x)) } mx(h, s.len() as u64) }
    #[no_mangle] pub extern "C" fn $get(s: &[$t], i: usize) -> u64 { match s.get(i) { Some(x) => $f(x), None => u64::MAX } }
    #[no_mangle] pub extern "C" fn $eq(a: &[$t], b: &[$t]) -> bool { a == b }
    #[no_mangle] pub extern "C" fn $rev(s: &mut [$t]) { s.reverse() }
    #[no_mangle] pub extern "C" fn $tail(s: &[$t], k: usize) -> &[$t] { &s[k.min(s.len())..] }
    #[no_mangle] pub extern "C" fn $raw(s: &[$t]) -> *const $t { s.as_ptr() }
    #[no_mangle] pub extern "C" fn $mraw(s: &mut [$t], k: usize) -> &mut [$t] { let n = s.len(); &mut s[..n - k.min(n)] }
} }
sl!(u8, len_u8, fold_u8, get_u8, eq_u8, rev_u8, tail_u8, raw_u8, head_u8, |x: &u8| *x as u64);
sl!(i16, len_i16, fold_i16, get_i16, eq_i16, rev_i16, tail_i16, raw_i16, head_i16, |x: &i16| *x as u16 as u64);
sl!(u32, len_u32, fold_u32, get_u32, eq_u32, rev_u32, tail_u32, raw_u32, head_u32, |x: &u32| *x as u64);
sl!(u64, len_u64, fold_u64, get_u64, eq_u64, rev_u64, tail_u64, raw_u64, head_u64, |x: &u64| *x);
sl!(P, len_p, fold_p, get_p, eq_p, rev_p, tail_p, raw_p, head_p, P::w);
#[no_mangle] pub extern "C" fn str_len(s: &str) -> usize { s.len() }
#[no_mangle] pub extern "C" fn str_fold(s: &str) -> u64 { let mut h = 0; for x in s.bytes() { h = mx(h, x as u64) } mx(h, s.len() as u64) }
#[no_mangle] pub extern "C" fn str_raw(s: &str) -> *const u8 { s.as_ptr() }
#[no_mangle] pub extern "C" fn str_cmp(a: &str, b: &str) -> i32 { a.cmp(b) as i32 }
#[no_mangle] pub extern "C" fn str_eq(a: &str, b: &str) -> bool { a == b }
#[no_mangle] pub extern "C" fn str_tail(s: &str, k: usize) -> &str { &s[k.min(s.len())..] }
#[no_mangle] pub unsafe extern "C" fn bytes_cmp(a: *const u8, n: usize, b: *const u8, m: usize) -> i32 { core::slice::from_raw_parts(a, n).cmp(core::slice::from_raw_parts(b, m)) as i32 }
