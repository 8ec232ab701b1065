include!("../../../../rt/vp.rs");

#[no_mangle]
pub extern "C" fn ref_from_u32(c: u32) -> bool { char::from_u32(c).is_some() }
#[no_mangle]
pub extern "C" fn ref_len_utf8(c: char) -> usize { c.len_utf8() }
#[no_mangle]
pub unsafe extern "C" fn ref_encode(c: char, out: *mut u8) -> usize {
    let s = core::slice::from_raw_parts_mut(out, 4);
    c.encode_utf8(s).len()
}
#[no_mangle]
pub extern "C" fn ref_cmp(a: char, b: char) -> i32 { a.cmp(&b) as i32 }
#[no_mangle]
pub extern "C" fn ref_max() -> char { char::MAX }
#[no_mangle]
pub extern "C" fn ref_default() -> char { char::default() }
#[no_mangle]
pub extern "C" fn ref_char_roundtrip(c: char) -> char { c }
#[no_mangle]
pub unsafe extern "C" fn ref_str_is_char(p: *const u8, n: usize, c: char) -> bool {
    let s = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
    let mut it = s.chars();
    it.next() == Some(c) && it.next().is_none()
}
#[no_mangle]
pub extern "C" fn ref_ucmp(a: usize, b: usize) -> i32 { a.cmp(&b) as i32 }
#[no_mangle]
pub extern "C" fn ref_icmp(a: isize, b: isize) -> i32 { a.cmp(&b) as i32 }
#[no_mangle]
pub extern "C" fn ref_uadd(a: usize, b: usize) -> usize { a.wrapping_add(b) }
#[no_mangle]
pub extern "C" fn ref_usub(a: usize, b: usize) -> usize { a.wrapping_sub(b) }
#[no_mangle]
pub extern "C" fn ref_iadd(a: isize, b: isize, o: &mut bool) -> isize { let r = a.overflowing_add(b); *o = r.1; r.0 }
#[no_mangle]
pub extern "C" fn ref_isub(a: isize, b: isize, o: &mut bool) -> isize { let r = a.overflowing_sub(b); *o = r.1; r.0 }
#[no_mangle]
pub extern "C" fn ref_usize_id(a: usize) -> usize { a }
#[no_mangle]
pub extern "C" fn ref_isize_id(a: isize) -> isize { a }
