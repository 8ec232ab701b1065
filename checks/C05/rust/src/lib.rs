include!("../../../../rt/vp.rs");

#[no_mangle]
pub unsafe extern "C" fn ref_from_utf8(p: *const u8, n: usize) -> bool {
    core::str::from_utf8(core::slice::from_raw_parts(p, n)).is_ok()
}
