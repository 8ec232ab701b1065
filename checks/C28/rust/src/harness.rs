include!("../../../../rt/vp.rs");
use crate::std::{raw_string_view, string_view, string_wrapper, new_string, BoxedCppStringAbi};
use bridge_rust::{internal, CrubitAbi};
use core::fmt::Write;
use core::hash::{Hash, Hasher};
use ctor::{emplace, CtorNew};
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(13).wrapping_add(x) }
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mx(self.0, *x as u64) } }
}
fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = Mix(7); x.hash(&mut h); h.0 }
/// A fixed-size text sink.
struct Out { b: [u8; 64], n: usize }
impl Out { fn new() -> Out { Out { b: [0; 64], n: 0 } } fn s(&self) -> &[u8] { &self.b[..self.n] } }
impl Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.as_bytes() { self.b[self.n] = *c; self.n += 1 } Ok(()) } }

// ---- string_view
#[no_mangle] pub unsafe extern "C" fn sv_len(v: string_view<'static>) -> usize { v.len() }
#[no_mangle] pub unsafe extern "C" fn sv_bytes(v: string_view<'static>, n: &mut usize) -> *const u8 { let s = v.as_bytes(); *n = s.len(); s.as_ptr() }
/// Bits: empty, whether `to_str` works, whether the copies agree, `contains`, the derefs.
#[no_mangle] pub unsafe extern "C" fn sv_read(v: string_view<'static>, x: u8) -> u64 {
    let s = v.as_bytes();
    let mut r = v.is_empty() as u64 | (v.to_str().is_ok() as u64) << 1 | (v.contains(&x) as u64) << 2;
    VP_CHECK!(v.to_vec() == s && v.as_slice() == s && &*v == s && v.as_ref() == s);
    VP_CHECK!(v.as_os_str().as_encoded_bytes() == s && v.to_os_string().as_encoded_bytes() == s);
    VP_CHECK!(v.to_string().ok().as_deref().map(str::as_bytes) == v.to_str().ok().map(str::as_bytes));
    VP_CHECK!(v.to_str().is_err() || v.to_str().unwrap().as_bytes() == s);
    VP_CHECK!(v.to_str().is_ok() == v.as_raw().to_str().is_ok());
    VP_CHECK!(hash(&v) == hash(s) && v == *s && *s == v);
    r |= (v.utf8_chunks().all(|c| c.invalid().is_empty()) as u64) << 3;
    r
}
#[no_mangle] pub unsafe extern "C" fn sv_cmp(a: string_view<'static>, b: string_view<'static>) -> u64 {
    VP_CHECK!((a == b) == (a.cmp(&b) == core::cmp::Ordering::Equal) && a.partial_cmp(&b) == Some(a.cmp(&b)) && (a < b) == (a.cmp(&b) == core::cmp::Ordering::Less));
    if let Ok(s) = b.to_str() { VP_CHECK!((a == *s) == (a == b) && (*s == a) == (a == b)); }
    (a.cmp(&b) as i8 + 1) as u64
}
#[no_mangle] pub unsafe extern "C" fn sv_from(p: *const u8, n: usize, how: u8) -> raw_string_view {
    let s = core::slice::from_raw_parts(p, n);
    match how {
        0 => string_view::from(s).into_raw(),
        1 => raw_string_view::from(s),
        2 => match core::str::from_utf8(s) { Ok(t) => string_view::from(t).into_raw(), Err(_) => raw_string_view::from(s as *const [u8]) },
        3 => match core::str::from_utf8(s) { Ok(t) => raw_string_view::from(t), Err(_) => raw_string_view::from(s) },
        4 => match <&[u8; 3]>::try_from(s) { Ok(t) => string_view::from(t).into_raw(), Err(_) => string_view::from(s).into_raw() },
        5 => match <&[u8; 3]>::try_from(s) { Ok(t) => raw_string_view::from(t), Err(_) => raw_string_view::from(s) },
        _ => *string_view::from(s).as_ptr(),
    }
}
#[no_mangle] pub unsafe extern "C" fn sv_cstr(p: *const core::ffi::c_char) -> raw_string_view {
    let c = core::ffi::CStr::from_ptr(p);
    let r = raw_string_view::from(c);
    VP_CHECK!(r.as_live().as_bytes() == string_view::from(c).as_bytes());
    r
}
#[no_mangle] pub unsafe extern "C" fn sv_display(v: string_view<'static>) {
    let mut o = Out::new();
    VP_CHECK!(write!(o, "{}", v.display()).is_ok());
    VP_CHECK!(o.s() == String::from_utf8_lossy(v.as_bytes()).as_bytes());
}
/// Reads back what `Debug` wrote; a quoted string in which every escape names its bytes.
fn undebug(t: &[u8]) -> Out {
    let mut o = Out::new();
    VP_CHECK!(t.len() >= 2 && t[0] == b'"' && t[t.len() - 1] == b'"');
    let mut i = 1;
    let hex = |c: u8| (c as char).to_digit(16).unwrap();
    while i < t.len() - 1 {
        let c = t[i];
        VP_CHECK!(c != b'"');
        if c != b'\\' { o.b[o.n] = c; o.n += 1; i += 1; continue }
        let e = t[i + 1];
        i += 2;
        let one = match e {
            b'0' => 0, b'n' => 10, b'r' => 13, b't' => 9, b'\\' | b'\'' | b'"' => e,
            b'x' => { i += 2; (hex(t[i - 2]) * 16 + hex(t[i - 1])) as u8 }
            b'u' => {
                let mut x = 0;
                i += 1;
                while t[i] != b'}' { x = x * 16 + hex(t[i]); i += 1 }
                i += 1;
                o.write_char(char::from_u32(x).unwrap()).unwrap();
                continue
            }
            _ => { VP_CHECK!(false); 0 } // VP_MAYBE
        };
        o.b[o.n] = one; o.n += 1;
    }
    o
}
#[no_mangle] pub unsafe extern "C" fn sv_debug(v: string_view<'static>) {
    let mut o = Out::new();
    VP_CHECK!(write!(o, "{:?}", v).is_ok());
    VP_CHECK!(undebug(o.s()).s() == v.as_bytes());
    VP_CHECK!(core::str::from_utf8(o.s()).is_ok());
}

// ---- string_wrapper
#[no_mangle] pub unsafe extern "C" fn sw_from(q: *mut string_wrapper, p: *const u8, n: usize, how: u8) {
    let s = core::slice::from_raw_parts(p, n);
    q.write(match how {
        0 => string_wrapper::from(s),
        1 => string_wrapper::from(&s.to_vec()),
        2 => match core::str::from_utf8(s) { Ok(t) => string_wrapper::from(t), Err(_) => string_wrapper::from(s) },
        3 => match core::str::from_utf8(s) { Ok(t) => string_wrapper::from(String::from(t)), Err(_) => string_wrapper::from(s) },
        4 => match core::str::from_utf8(s) { Ok(t) => string_wrapper::from(&String::from(t)), Err(_) => string_wrapper::from(s) },
        _ => if n == 0 { string_wrapper::default() } else { string_wrapper::from(s) },
    })
}
#[no_mangle] pub unsafe extern "C" fn sw_drop(p: *mut string_wrapper) { core::ptr::drop_in_place(p) }
#[no_mangle] pub unsafe extern "C" fn sw_read(w: &string_wrapper, n: &mut usize) -> *const u8 {
    let s: &[u8] = w;
    VP_CHECK!(w.as_slice() == s && w.to_vec() == s && w.as_ref() == s);
    VP_CHECK!(w.to_str().ok().map(str::as_bytes) == core::str::from_utf8(s).ok().map(str::as_bytes));
    VP_CHECK!(w.to_string().ok().as_deref() == w.to_str().ok());
    VP_CHECK!(w.as_os_str().as_encoded_bytes() == s && w.to_os_string().as_encoded_bytes() == s);
    *n = s.len();
    s.as_ptr()
}
#[no_mangle] pub unsafe extern "C" fn sw_clone(w: &string_wrapper, q: *mut string_wrapper) { q.write(w.clone()) }
#[no_mangle] pub unsafe extern "C" fn sw_eq(a: &string_wrapper, b: &string_wrapper) -> bool { a == b }
#[no_mangle] pub unsafe extern "C" fn sw_ptr(a: &mut string_wrapper) -> *mut core::ffi::c_void { VP_CHECK!(a.as_void_ptr() == a.as_mut_void_ptr() as *const _); a.as_mut_void_ptr() }
#[no_mangle] pub unsafe extern "C" fn sw_decode(buf: *const u8, q: *mut string_wrapper) { q.write(internal::decode::<BoxedCppStringAbi>(Default::default(), buf)) }
#[no_mangle] pub unsafe extern "C" fn sw_encode(p: *const string_wrapper, buf: *mut u8) -> usize { internal::encode::<BoxedCppStringAbi>(Default::default(), buf, p.read()); BoxedCppStringAbi::SIZE }
#[no_mangle] pub unsafe extern "C" fn sw_display(w: &string_wrapper) {
    let mut o = Out::new();
    VP_CHECK!(write!(o, "{}", w.display()).is_ok());
    VP_CHECK!(o.s() == String::from_utf8_lossy(w).as_bytes());
}
// What generated code does around the converters.
#[no_mangle] pub unsafe extern "C" fn sw_return(p: *const string_wrapper, out: *mut core::ffi::c_void) { crate::string_rs::rust_string_to_cpp_string(core::ptr::from_ref(&p.read()) as *const core::ffi::c_void, out) }
#[no_mangle] pub unsafe extern "C" fn sw_param(cpp: *mut core::ffi::c_void, q: *mut string_wrapper) {
    let v = { let mut t = core::mem::MaybeUninit::<string_wrapper>::uninit(); crate::string_rs::cpp_string_to_rust_string(cpp, t.as_mut_ptr() as *mut core::ffi::c_void); t.assume_init() };
    q.write(v)
}

// ---- new_string
#[no_mangle] pub extern "C" fn ns_size() -> usize { core::mem::size_of::<new_string>() * 64 + core::mem::align_of::<new_string>() }
#[no_mangle] pub unsafe extern "C" fn ns_check(p: &new_string, q: &new_string, n: &mut usize) -> *const u8 {
    let (a, b): (&[u8], &[u8]) = (p, q);
    VP_CHECK!(p.as_slice() == a && p.to_vec() == a && p.as_ref() == a && p.as_ptr() == p as *const _);
    VP_CHECK!(p.to_str().ok().map(str::as_bytes) == core::str::from_utf8(a).ok().map(str::as_bytes) && p.to_string().ok().as_deref() == p.to_str().ok());
    VP_CHECK!((p == q) == (a == b) && p.cmp(q) == a.cmp(b) && p.partial_cmp(q) == Some(a.cmp(b)) && hash(p) == hash(a));
    VP_CHECK!((*p == *b) == (a == b) && (*p == b) == (a == b) && (*p == string_view::from(b)) == (a == b));
    if let Ok(t) = core::str::from_utf8(b) { VP_CHECK!((*p == *t) == (a == b) && (*p == t) == (a == b)); }
    *n = a.len();
    a.as_ptr()
}
extern "C" { fn ns_touch(p: *mut new_string, x: u8); }
/// Makes strings in place from Rust, lets C++ change one, and reads them back.
#[no_mangle] pub unsafe extern "C" fn ns_life(p: *const u8, n: usize, x: u8, how: u8) {
    let s = core::slice::from_raw_parts(p, n);
    match how {
        0 => { let e = emplace!(new_string::ctor_new(())); VP_CHECK!(e.is_empty()); }
        1 => { let e = emplace!(new_string::ctor_new(s)); VP_CHECK!(**e == *s); }
        2 => {
            let e = emplace!(new_string::ctor_new(s));
            let mut f = emplace!(new_string::ctor_new(&*e));
            VP_CHECK!(*e == *f);
            ns_touch(f.as_mut().as_mut_ptr(), x);
            VP_CHECK!(**e == *s && f.len() == n + 1 && f[..n] == *s && f[n] == x);
            for c in f.as_mut().as_mut_slice() { *c ^= 1 }
            VP_CHECK!(f[n] == x ^ 1 && **e == *s);
        }
        3 => {
            let mut e = emplace!(new_string::ctor_new(s));
            let f = emplace!(new_string::ctor_new(ctor::mov!(e)));
            VP_CHECK!(**f == *s);
        }
        _ => match core::str::from_utf8(s) {
            Ok(t) => { let b = Box::emplace_it(new_string::ctor_new(t)); VP_CHECK!(*b == *t); }
            Err(_) => {}
        }
    }
}
trait EmplaceIt { fn emplace_it(c: impl ctor::Ctor<Output = new_string, Error = ctor::Infallible>) -> core::pin::Pin<Box<new_string>>; }
impl EmplaceIt for Box<new_string> { fn emplace_it(c: impl ctor::Ctor<Output = new_string, Error = ctor::Infallible>) -> core::pin::Pin<Box<new_string>> { ctor::Emplace::emplace(c) } }
