include!("../../../../rt/vp.rs");
use core::cmp::Ordering;
use core::ffi::CStr;
use core::sync::atomic::Ordering::Relaxed;
use ffi_11::*;

fn any<T: Copy>() -> T {
    let mut x = core::mem::MaybeUninit::<T>::uninit();
    unsafe { raw::vp_sym_bytes(x.as_mut_ptr() as *mut u8, size_of::<T>()); x.assume_init() }
}
struct Fnv(u64);
impl core::hash::Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(8) ^ *x as u64 ^ 0x55; } }
}
fn hash<T: core::hash::Hash>(x: T) -> u64 { let mut h = Fnv(7); x.hash(&mut h); h.0 }
/// What an operation gives, or that it panics: the same for the wrapper (either side or both) as for what it wraps.
macro_rules! arith { ($T:ident, $U:ident, $new:ident, $op:tt, $as:tt, $checked:ident, $name:ident) => {
    #[unsafe(no_mangle)] pub extern "C" fn $name() { // VP_MAYBE
        let (a, b) = (any::<$U>(), any::<$U>());
        let want = a.$checked(b);
        vp::expect_abort(want.is_none());
        let (x, y) = ($new(a), $new(b));
        match vp::pick(6) {
            0 => { let r: $T = x $op y; VP_CHECK!(Some(r.into()) == want); }
            1 => { let r: $U = x $op b; VP_CHECK!(Some(r) == want); }
            2 => { let r: $U = a $op y; VP_CHECK!(Some(r) == want); }
            3 => { let mut r = x; r $as y; VP_CHECK!(Some(r.into()) == want); }
            4 => { let mut r = x; r $as b; VP_CHECK!(Some(r.into()) == want); }
            _ => { let mut r = a; r $as y; VP_CHECK!(Some(r) == want); }
        }
    }
} }
macro_rules! ty { ($T:ident, $U:ident, $new:ident, [$($P:ident)*], [$($Q:ident)*], $n:ident $add:ident $sub:ident $mul:ident $div:ident) => {
    arith!($T, $U, $new, +, +=, checked_add, $add);
    arith!($T, $U, $new, -, -=, checked_sub, $sub);
    arith!($T, $U, $new, *, *=, checked_mul, $mul);
    arith!($T, $U, $new, /, /=, checked_div, $div);
    #[unsafe(no_mangle)] pub extern "C" fn $n() {
        let (a, b) = (any::<$U>(), any::<$U>());
        let (x, y) = ($new(a), $new(b));
        VP_CHECK!($U::from(x) == a && $T::from(a) == x && size_of::<$T>() == size_of::<$U>() && align_of::<$T>() == align_of::<$U>());
        VP_CHECK!(unsafe { core::mem::transmute::<$T, $U>(x) } == a);
        VP_CHECK!((x == y) == (a == b) && (x == b) == (a == b) && (a == y) == (a == b) && (x != y) == (a != b) && (x != b) == (a != b) && (a != y) == (a != b));
        VP_CHECK!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && x.partial_cmp(&b) == Some(a.cmp(&b)) && a.partial_cmp(&y) == Some(a.cmp(&b)));
        VP_CHECK!((x < y) == (a < b) && (x < b) == (a < b) && (a < y) == (a < b) && (x >= y) == (a >= b) && (x >= b) == (a >= b) && (a >= y) == (a >= b));
        VP_CHECK!(x.max(y) == a.max(b) && x.min(y) == a.min(b) && hash(x) == hash(a) && $T::default() == 0 && x.clone() == a);
        // Conversions keep the number.
        $({ let p: $P = x.into(); VP_CHECK!(p == a as $P); })*
        $({ let q = any::<$Q>(); let t: $T = q.into(); VP_CHECK!($U::from(t) == q as $U); })*
    }
} }
ty!(c_char, u8, new_c_char, [u8 i16 u16 i32 u32 i64 u64 i128 u128 usize], [u8], h_char h_char_add h_char_sub h_char_mul h_char_div);
ty!(c_char8_t, u8, new_c_char8_t, [u8 i16 u16 i32 u32 i64 u64 i128 u128 usize], [u8], h_char8 h_char8_add h_char8_sub h_char8_mul h_char8_div);
ty!(c_char16_t, u16, new_c_char16_t, [u16 i32 u32 i64 u64 i128 u128 usize], [u8 u16], h_char16 h_char16_add h_char16_sub h_char16_mul h_char16_div);
ty!(c_char32_t, u32, new_c_char32_t, [u32 i64 u64 i128 u128], [u8 u16 u32], h_char32 h_char32_add h_char32_sub h_t_char32_mul h_t_char32_div);
ty!(c_wchar_t, u32, new_c_wchar_t, [u32 i64 u64 i128 u128], [u8 u16 u32], h_wchar h_wchar_add h_wchar_sub h_t_wchar_mul h_t_wchar_div);
ty!(c_longlong, i64, new_c_longlong, [i64 i128], [u8 i8 i16 i32 i64], h_longlong h_longlong_add h_longlong_sub h_t_longlong_mul h_t_longlong_div);
ty!(c_ulonglong, u64, new_c_ulonglong, [u64 u128], [u8 u16 u32 u64], h_ulonglong h_ulonglong_add h_ulonglong_sub h_t_ulonglong_mul h_t_ulonglong_div);
/// Conversions between wrappers, and of char to and from signed bytes.
#[unsafe(no_mangle)] pub extern "C" fn h_between() {
    let c = new_c_char(any()); let n = u8::from(c);
    VP_CHECK!(c_char8_t::from(c) == n && c_char16_t::from(c) == n as u16 && c_char32_t::from(c) == n as u32 && c_wchar_t::from(c) == n as u32);
    let d = new_c_char8_t(any()); let n = u8::from(d);
    VP_CHECK!(c_char16_t::from(d) == n as u16 && c_char32_t::from(d) == n as u32 && c_wchar_t::from(d) == n as u32);
    let e = new_c_char16_t(any()); let n = u16::from(e);
    VP_CHECK!(c_char32_t::from(e) == n as u32 && c_wchar_t::from(e) == n as u32);
    let f = new_c_char32_t(any()); let n = u32::from(f);
    VP_CHECK!(c_wchar_t::from(f) == n && c_char32_t::from(c_wchar_t::from(f)) == f);
    let i = any::<i8>();
    VP_CHECK!(i8::from(c_char::from(i)) == i && u8::from(c_char::from(i)) == i as u8 && c_char::from(i8::from(c)) == c && c_char::new(i as u8) == c_char::from(i));
}
/// The aliases are what they alias, on this platform; atomics hold what they are given.
#[unsafe(no_mangle)] pub extern "C" fn h_alias() {
    let (a, b, c, d, e, f, g, h) = (any::<i8>(), any::<u8>(), any::<i16>(), any::<u16>(), any::<i32>(), any::<u32>(), any::<i64>(), any::<u64>());
    VP_CHECK!(new_c_schar(a) == a && new_c_uchar(b) == b && new_c_short(c) == c && new_c_ushort(d) == d && new_c_int(e) == e && new_c_uint(f) == f && new_c_long(g) == g && new_c_ulong(h) == h);
    VP_CHECK!(new_c_float(f32::from_bits(f)).to_bits() == f && new_c_double(f64::from_bits(h)).to_bits() == h);
    let x = new_c_char(b);
    let at = c_atomic_char::new(x);
    VP_CHECK!(at.load(Relaxed) == b && at.swap(a as u8, Relaxed) == b && at.load(Relaxed) == a as u8 && c_atomic_char::default().load(Relaxed) == 0);
    let n = c_nullptr_t::default();
    VP_CHECK!(unsafe { core::mem::transmute::<c_nullptr_t, usize>(n) } == 0 && size_of::<c_nullptr_t>() == 8);
}
/// C strings keep their address and content through the pointer conversions.
#[unsafe(no_mangle)] pub extern "C" fn h_cstr() {
    let mut b: [u8; 4] = any();
    b[3] = 0;
    let s = CStr::from_bytes_until_nul(&b).unwrap();
    let p: *const c_char = s.as_ffi_11_ptr();
    VP_CHECK!(p as usize == b.as_ptr() as usize && p.cast_ffi_11() as usize == p as usize && p.cast_ffi_11().cast_ffi_11() == p);
    let t: &CStr = unsafe { CStrExt::from_ffi_11_ptr(p) };
    let n = b.iter().position(|x| *x == 0).unwrap();
    VP_CHECK!(t.as_ptr() as usize == p as usize && t.to_bytes() == &b[..n] && t == s);
    for i in 0..n { VP_CHECK!(unsafe { *p.add(i) } == b[i]); }
}
