//! Crate whose bindings the C01 harnesses call: free functions of every supported parameter shape.
#![allow(unused)]
#[inline]
pub(crate) fn mx(h: u64, x: u64) -> u64 {
    h.rotate_left(9).wrapping_add(x)
}

pub mod prim {
    use super::mx;
    pub fn mix_ints(a: u8, b: i64, c: u16, d: i32, e: u64, f: i8, g: u32, h: i16) -> u64 {
        let mut s = mx(0, a as u64);
        s = mx(s, b as u64);
        s = mx(s, c as u64);
        s = mx(s, d as u64);
        s = mx(s, e);
        s = mx(s, f as u64);
        s = mx(s, g as u64);
        mx(s, h as u64)
    }
    pub fn mix_float(a: f32, b: i32, c: f64, d: u8, e: f32, f: f64) -> u64 {
        let mut s = mx(0, a.to_bits() as u64);
        s = mx(s, b as u64);
        s = mx(s, c.to_bits());
        s = mx(s, d as u64);
        s = mx(s, e.to_bits() as u64);
        mx(s, f.to_bits())
    }
    pub fn sel_f64(c: bool, a: f64, b: f64) -> f64 {
        if c { a } else { b }
    }
    pub fn sel_f32(a: f32, c: bool, b: f32) -> f32 {
        if c { a } else { b }
    }
    pub fn logic(a: bool, b: bool, c: bool) -> bool {
        (a && !b) || (c && b)
    }
    pub fn ret_u8(x: u8) -> u8 { x ^ 0x55 }
    pub fn ret_i8(x: i8) -> i8 { x.wrapping_neg() }
    pub fn ret_u16(x: u16) -> u16 { x.swap_bytes() }
    pub fn ret_i16(x: i16) -> i16 { x.wrapping_add(-7) }
    pub fn ret_u32(x: u32) -> u32 { x.swap_bytes() }
    pub fn ret_i32(x: i32) -> i32 { x.wrapping_neg() }
    pub fn ret_u64(x: u64) -> u64 { x.swap_bytes() }
    pub fn ret_i64(x: i64) -> i64 { x.wrapping_neg() }
    pub fn ret_usize(x: usize, y: usize) -> usize { x.rotate_left(3) ^ y }
    pub fn ret_isize(x: isize, y: isize) -> isize { x.wrapping_sub(y) }
    pub fn chars(a: char, b: char) -> char {
        if (a as u32) < (b as u32) { a } else { b }
    }
    pub fn char_code(a: u8, c: char, b: u8) -> u32 { (c as u32) ^ ((a as u32) << 24) ^ ((b as u32) << 16) }
    pub fn opt_char(x: u32) -> u32 { char::from_u32(x).map(|c| c as u32 + 1).unwrap_or(0) }
    pub fn dup_names(x: i32, y: i32, _: i32, _: i32) -> i32 { x.wrapping_sub(y) }
    pub fn unused_args(_a: u64, b: u8, _c: u64) -> u8 { b }
    pub fn unit(_x: u8) {}
    pub fn early(x: u32) -> u32 {
        if x == 77 { return 1; }
        x / 3
    }
}

pub mod abi {
    use super::mx;
    #[unsafe(no_mangle)]
    pub extern "C" fn vp_c_add(a: i16, b: i64, c: u8) -> i64 { (a as i64).wrapping_add(b) ^ c as i64 }
    #[unsafe(export_name = "vp_c_exported_with_name")]
    pub extern "C" fn exported(a: u64, b: u32) -> u64 { a.wrapping_sub(b as u64) }
    #[unsafe(no_mangle)]
    pub fn vp_rust_abi_nomangle(a: u32, b: u8, c: u64) -> u64 { mx(mx(a as u64, b as u64), c) }
    #[unsafe(export_name = "vp_rust_exported_with_name")]
    pub fn rust_exported(a: u8, b: u32) -> u32 { (a as u32) ^ b }
    pub extern "C" fn c_mangled(a: u32, b: u32) -> u32 { a.wrapping_sub(b) }
    pub unsafe fn unsafe_fn(a: u32, b: u32) -> u32 { a.wrapping_sub(b).rotate_left(1) }
    #[must_use]
    pub fn must_use_fn(a: u32, b: u16) -> u32 { a ^ ((b as u32) << 7) }
    #[deprecated]
    pub fn deprecated_fn(a: u32) -> u32 { !a }
}

pub mod refs {
    pub fn pick_ref<'a>(a: &'a i32, b: &'a i32) -> &'a i32 { if *a < *b { a } else { b } }
    pub fn mut_set(a: &mut u64, b: u32, c: &mut u16) -> u64 {
        let old = *a;
        *a = b as u64 + 1;
        *c = c.wrapping_add(b as u16);
        old
    }
    pub fn mut_ref_ret<'a>(a: &'a mut u32, add: u32) -> &'a mut u32 {
        *a = a.wrapping_add(add);
        a
    }
    pub unsafe fn ptr_sum(p: *const u32, q: *mut u32, n: u8) -> *mut u32 {
        unsafe {
            *q = (*p).wrapping_add(n as u32);
        }
        q
    }
    pub fn ptr_pass(a: *const u8, b: *mut u64, c: *const *const i32) -> *const u8 {
        let _ = (b, c);
        a
    }
    pub fn ptr_ptr(c: *mut *mut i32) -> *mut *mut i32 { c }
    pub fn void_ptr(p: *const std::ffi::c_void, q: *mut std::ffi::c_void, w: bool) -> *const std::ffi::c_void {
        if w { p } else { q as *const _ }
    }
    pub fn call_fp(f: extern "C" fn(u32, u8) -> u64, a: u32, b: u8) -> u64 { f(a ^ 1, b).wrapping_add(5) }
    pub fn call_fp2(a: u8, f: extern "C" fn(u8), g: unsafe extern "C" fn(i16, u64) -> i16, b: i16) -> i16 {
        f(a);
        unsafe { g(b, 9) }
    }
    pub fn ret_fp(w: bool) -> extern "C" fn(u32) -> u32 {
        extern "C" fn x(a: u32) -> u32 { a ^ 0xff }
        extern "C" fn y(a: u32) -> u32 { a.wrapping_mul(2) }
        if w { x } else { y }
    }
    pub fn arr_ref(a: &[u16; 3]) -> u32 { a[0] as u32 ^ ((a[1] as u32) << 8) ^ ((a[2] as u32) << 16) }
    pub fn arr_mut(a: &mut [u8; 4], i: u8, v: u8) { a[(i & 3) as usize] = v; }
    pub fn c_types(a: std::ffi::c_char, b: std::ffi::c_long, c: std::ffi::c_ulonglong, d: std::ffi::c_short,
                   e: std::ffi::c_uchar, f: std::ffi::c_uint) -> std::ffi::c_long {
        let mut s = super::mx(0, a as u64);
        s = super::mx(s, b as u64);
        s = super::mx(s, c);
        s = super::mx(s, d as u64);
        s = super::mx(s, e as u64);
        super::mx(s, f as u64) as i64
    }
}

pub mod slices {
    pub fn sum_bytes(x: &[u8]) -> u32 {
        let mut s = 0u32;
        for b in x { s = s.rotate_left(3) ^ *b as u32; }
        s
    }
    pub fn two_slices(a: &[u32], k: u8, b: &[u16]) -> u64 {
        let mut s = (a.len() as u64) << 32 | b.len() as u64;
        for x in a { s = s.rotate_left(5).wrapping_add(*x as u64); }
        for x in b { s = s.rotate_left(5).wrapping_add(*x as u64); }
        s ^ ((k as u64) << 56)
    }
    pub fn write_slice(a: &mut [u16], v: u16) {
        for (i, x) in a.iter_mut().enumerate() { *x = x.wrapping_add(v).wrapping_add(i as u16); }
    }
    pub fn sub_slice<'a>(a: &'a [u8], i: usize, j: usize) -> &'a [u8] {
        if i <= j && j <= a.len() { &a[i..j] } else { &[] }
    }
    pub fn tail_mut<'a>(a: &'a mut [u32]) -> &'a mut [u32] {
        if a.len() > 1 { &mut a[1..] } else { a }
    }
    pub fn raw_slice_len(a: *const [u32]) -> usize { unsafe { (&*a).len() } }
    pub fn str_len(s: &str) -> usize { s.len() }
    pub fn str_byte(s: &str, i: usize) -> u8 { if i < s.len() { s.as_bytes()[i] } else { 0 } }
    pub fn str_tail<'a>(s: &'a str) -> &'a str {
        let mut it = s.chars();
        it.next();
        it.as_str()
    }
    pub fn strs(a: &str, b: &str) -> bool { a == b }
    pub fn const_str(w: bool) -> &'static str { if w { "h\u{e9}llo" } else { "" } }
}

pub mod r#while {
    pub fn r#for(x: u32) -> u32 { x ^ 3 }
    pub fn template(typename: u32, operator: u32) -> u32 { typename.wrapping_sub(operator) }
    pub fn and_eq(alignas: u8, int: u8) -> u8 { alignas & !int }
}
pub mod outer {
    pub mod inner {
        pub mod deep { pub fn f(x: u32) -> u32 { x.wrapping_add(1) } }
        pub fn f(x: u32) -> u32 { x.wrapping_add(2) }
    }
    pub fn f(x: u32) -> u32 { x.wrapping_add(3) }
}
mod hidden {
    pub fn from_hidden(x: u32, y: u8) -> u32 { x.rotate_left(y as u32 & 31) }
    pub fn renamed_src(x: u32, y: u32) -> u32 { x.wrapping_sub(y) }
}
pub use hidden::from_hidden;
pub use hidden::renamed_src as renamed_dst;
pub use outer::inner::deep as deep_alias;
pub type Alias = u16;
pub type AliasOfAlias = Alias;
pub fn alias_fn(a: Alias, b: AliasOfAlias) -> AliasOfAlias { a.wrapping_sub(b) }

/// CRUBIT_ANNOTATE: cpp_name=renamed_in_cpp
pub fn original_name(a: u32, b: u32) -> u32 { a.wrapping_sub(b) ^ 0xabc }

pub mod consts {
    pub const I: i32 = -123456;
    pub const U: u64 = 0xfedc_ba98_7654_3210;
    pub const I64MIN: i64 = i64::MIN;
    pub const I8MIN: i8 = i8::MIN;
    pub const B: bool = true;
    pub const U8: u8 = 255;
    pub const I16: i16 = -32768;
    pub const U32: u32 = 4000000000;
    pub const I32MIN: i32 = i32::MIN;
    pub const F: f64 = 1.5;
    pub const F32: f32 = -0.25;
    pub const FNEGZ: f64 = -0.0;
    pub const FMIN: f64 = 5e-324;
    pub const FMAX: f32 = f32::MAX;
    pub const FTENTH: f64 = 0.1;
    pub const FTENTH32: f32 = 0.1;
    pub const FBIG: f64 = 1e300;
    pub const SZ: usize = 0x1_0000_0001;
    pub const ISZ: isize = -0x1_0000_0001;
    pub const FONE: f32 = 1.0;
    pub const FNEGZ32: f32 = -0.0;
    pub const FSUB: f32 = 1e-45;
    pub const FTWO53: f64 = 9007199254740993.0;
    pub const U16: u16 = 40000;
    pub const U15: u16 = 32767;
    pub const U64S: u64 = 32766;
    pub const I64MAX: i64 = i64::MAX;
    pub const FALSE: bool = false;
    pub const C: char = '\u{10abc}';
    pub const CQ: char = '\'';
}
/// Integer constants around every boundary of the formats a literal can take.
pub mod lits {
    pub const K_U8_0: u8 = 0;
    pub const K_U8_1: u8 = 1;
    pub const K_U8_2: u8 = 126;
    pub const K_U8_3: u8 = 127;
    pub const K_U8_4: u8 = 128;
    pub const K_U8_5: u8 = 254;
    pub const K_U8_6: u8 = 255;
    pub const K_U16_0: u16 = 0;
    pub const K_U16_1: u16 = 1;
    pub const K_U16_2: u16 = 126;
    pub const K_U16_3: u16 = 127;
    pub const K_U16_4: u16 = 128;
    pub const K_U16_5: u16 = 254;
    pub const K_U16_6: u16 = 255;
    pub const K_U16_7: u16 = 256;
    pub const K_U16_8: u16 = 32765;
    pub const K_U16_9: u16 = 32766;
    pub const K_U16_10: u16 = 32767;
    pub const K_U16_11: u16 = 32768;
    pub const K_U16_12: u16 = 40000;
    pub const K_U16_13: u16 = 65534;
    pub const K_U16_14: u16 = 65535;
    pub const K_U32_0: u32 = 0;
    pub const K_U32_1: u32 = 1;
    pub const K_U32_2: u32 = 126;
    pub const K_U32_3: u32 = 127;
    pub const K_U32_4: u32 = 128;
    pub const K_U32_5: u32 = 254;
    pub const K_U32_6: u32 = 255;
    pub const K_U32_7: u32 = 256;
    pub const K_U32_8: u32 = 32765;
    pub const K_U32_9: u32 = 32766;
    pub const K_U32_10: u32 = 32767;
    pub const K_U32_11: u32 = 32768;
    pub const K_U32_12: u32 = 40000;
    pub const K_U32_13: u32 = 65534;
    pub const K_U32_14: u32 = 65535;
    pub const K_U32_15: u32 = 65536;
    pub const K_U32_16: u32 = 100000;
    pub const K_U32_17: u32 = 2147483647;
    pub const K_U32_18: u32 = 2147483648;
    pub const K_U32_19: u32 = 2147483649;
    pub const K_U32_20: u32 = 4294967295;
    pub const K_U64_0: u64 = 0;
    pub const K_U64_1: u64 = 1;
    pub const K_U64_2: u64 = 126;
    pub const K_U64_3: u64 = 127;
    pub const K_U64_4: u64 = 128;
    pub const K_U64_5: u64 = 254;
    pub const K_U64_6: u64 = 255;
    pub const K_U64_7: u64 = 256;
    pub const K_U64_8: u64 = 32765;
    pub const K_U64_9: u64 = 32766;
    pub const K_U64_10: u64 = 32767;
    pub const K_U64_11: u64 = 32768;
    pub const K_U64_12: u64 = 40000;
    pub const K_U64_13: u64 = 65534;
    pub const K_U64_14: u64 = 65535;
    pub const K_U64_15: u64 = 65536;
    pub const K_U64_16: u64 = 100000;
    pub const K_U64_17: u64 = 2147483647;
    pub const K_U64_18: u64 = 2147483648;
    pub const K_U64_19: u64 = 2147483649;
    pub const K_U64_20: u64 = 4294967295;
    pub const K_U64_21: u64 = 4294967296;
    pub const K_U64_22: u64 = 9223372036854775807;
    pub const K_U64_23: u64 = 9223372036854775808;
    pub const K_U64_24: u64 = 18446744073709551615;
    pub const K_USIZE_0: usize = 0;
    pub const K_USIZE_1: usize = 1;
    pub const K_USIZE_2: usize = 126;
    pub const K_USIZE_3: usize = 127;
    pub const K_USIZE_4: usize = 128;
    pub const K_USIZE_5: usize = 254;
    pub const K_USIZE_6: usize = 255;
    pub const K_USIZE_7: usize = 256;
    pub const K_USIZE_8: usize = 32765;
    pub const K_USIZE_9: usize = 32766;
    pub const K_USIZE_10: usize = 32767;
    pub const K_USIZE_11: usize = 32768;
    pub const K_USIZE_12: usize = 40000;
    pub const K_USIZE_13: usize = 65534;
    pub const K_USIZE_14: usize = 65535;
    pub const K_USIZE_15: usize = 65536;
    pub const K_USIZE_16: usize = 100000;
    pub const K_USIZE_17: usize = 2147483647;
    pub const K_USIZE_18: usize = 2147483648;
    pub const K_USIZE_19: usize = 2147483649;
    pub const K_USIZE_20: usize = 4294967295;
    pub const K_USIZE_21: usize = 4294967296;
    pub const K_USIZE_22: usize = 9223372036854775807;
    pub const K_USIZE_23: usize = 9223372036854775808;
    pub const K_USIZE_24: usize = 18446744073709551615;
    pub const K_I8_0: i8 = 0;
    pub const K_I8_1: i8 = 1;
    pub const K_I8_2: i8 = 127;
    pub const K_I8_3: i8 = -1;
    pub const K_I8_4: i8 = -127;
    pub const K_I8_5: i8 = -128;
    pub const K_I16_0: i16 = 0;
    pub const K_I16_1: i16 = 1;
    pub const K_I16_2: i16 = 127;
    pub const K_I16_3: i16 = 128;
    pub const K_I16_4: i16 = 255;
    pub const K_I16_5: i16 = 256;
    pub const K_I16_6: i16 = 32766;
    pub const K_I16_7: i16 = 32767;
    pub const K_I16_8: i16 = -1;
    pub const K_I16_9: i16 = -127;
    pub const K_I16_10: i16 = -128;
    pub const K_I16_11: i16 = -255;
    pub const K_I16_12: i16 = -256;
    pub const K_I16_13: i16 = -32766;
    pub const K_I16_14: i16 = -32767;
    pub const K_I16_15: i16 = -32768;
    pub const K_I32_0: i32 = 0;
    pub const K_I32_1: i32 = 1;
    pub const K_I32_2: i32 = 127;
    pub const K_I32_3: i32 = 128;
    pub const K_I32_4: i32 = 255;
    pub const K_I32_5: i32 = 256;
    pub const K_I32_6: i32 = 32766;
    pub const K_I32_7: i32 = 32767;
    pub const K_I32_8: i32 = 32768;
    pub const K_I32_9: i32 = 40000;
    pub const K_I32_10: i32 = 65534;
    pub const K_I32_11: i32 = 65535;
    pub const K_I32_12: i32 = 65536;
    pub const K_I32_13: i32 = 2147483647;
    pub const K_I32_14: i32 = -1;
    pub const K_I32_15: i32 = -127;
    pub const K_I32_16: i32 = -128;
    pub const K_I32_17: i32 = -255;
    pub const K_I32_18: i32 = -256;
    pub const K_I32_19: i32 = -32766;
    pub const K_I32_20: i32 = -32767;
    pub const K_I32_21: i32 = -32768;
    pub const K_I32_22: i32 = -40000;
    pub const K_I32_23: i32 = -65534;
    pub const K_I32_24: i32 = -65535;
    pub const K_I32_25: i32 = -65536;
    pub const K_I32_26: i32 = -100000;
    pub const K_I32_27: i32 = -2147483647;
    pub const K_I32_28: i32 = -2147483648;
    pub const K_I64_0: i64 = 0;
    pub const K_I64_1: i64 = 1;
    pub const K_I64_2: i64 = 127;
    pub const K_I64_3: i64 = 128;
    pub const K_I64_4: i64 = 255;
    pub const K_I64_5: i64 = 256;
    pub const K_I64_6: i64 = 32766;
    pub const K_I64_7: i64 = 32767;
    pub const K_I64_8: i64 = 32768;
    pub const K_I64_9: i64 = 40000;
    pub const K_I64_10: i64 = 65534;
    pub const K_I64_11: i64 = 65535;
    pub const K_I64_12: i64 = 65536;
    pub const K_I64_13: i64 = 2147483647;
    pub const K_I64_14: i64 = 2147483648;
    pub const K_I64_15: i64 = 2147483649;
    pub const K_I64_16: i64 = 4294967295;
    pub const K_I64_17: i64 = 4294967296;
    pub const K_I64_18: i64 = 9223372036854775807;
    pub const K_I64_19: i64 = -1;
    pub const K_I64_20: i64 = -127;
    pub const K_I64_21: i64 = -128;
    pub const K_I64_22: i64 = -255;
    pub const K_I64_23: i64 = -256;
    pub const K_I64_24: i64 = -32766;
    pub const K_I64_25: i64 = -32767;
    pub const K_I64_26: i64 = -32768;
    pub const K_I64_27: i64 = -40000;
    pub const K_I64_28: i64 = -65534;
    pub const K_I64_29: i64 = -65535;
    pub const K_I64_30: i64 = -65536;
    pub const K_I64_31: i64 = -100000;
    pub const K_I64_32: i64 = -2147483647;
    pub const K_I64_33: i64 = -2147483648;
    pub const K_I64_34: i64 = -2147483649;
    pub const K_I64_35: i64 = -4294967295;
    pub const K_I64_36: i64 = -4294967296;
    pub const K_I64_37: i64 = -9223372036854775807;
    pub const K_I64_38: i64 = -9223372036854775808;
    pub const K_ISIZE_0: isize = 0;
    pub const K_ISIZE_1: isize = 1;
    pub const K_ISIZE_2: isize = 127;
    pub const K_ISIZE_3: isize = 128;
    pub const K_ISIZE_4: isize = 255;
    pub const K_ISIZE_5: isize = 256;
    pub const K_ISIZE_6: isize = 32766;
    pub const K_ISIZE_7: isize = 32767;
    pub const K_ISIZE_8: isize = 32768;
    pub const K_ISIZE_9: isize = 40000;
    pub const K_ISIZE_10: isize = 65534;
    pub const K_ISIZE_11: isize = 65535;
    pub const K_ISIZE_12: isize = 65536;
    pub const K_ISIZE_13: isize = 2147483647;
    pub const K_ISIZE_14: isize = 2147483648;
    pub const K_ISIZE_15: isize = 2147483649;
    pub const K_ISIZE_16: isize = 4294967295;
    pub const K_ISIZE_17: isize = 4294967296;
    pub const K_ISIZE_18: isize = 9223372036854775807;
    pub const K_ISIZE_19: isize = -1;
    pub const K_ISIZE_20: isize = -127;
    pub const K_ISIZE_21: isize = -128;
    pub const K_ISIZE_22: isize = -255;
    pub const K_ISIZE_23: isize = -256;
    pub const K_ISIZE_24: isize = -32766;
    pub const K_ISIZE_25: isize = -32767;
    pub const K_ISIZE_26: isize = -32768;
    pub const K_ISIZE_27: isize = -40000;
    pub const K_ISIZE_28: isize = -65534;
    pub const K_ISIZE_29: isize = -65535;
    pub const K_ISIZE_30: isize = -65536;
    pub const K_ISIZE_31: isize = -100000;
    pub const K_ISIZE_32: isize = -2147483647;
    pub const K_ISIZE_33: isize = -2147483648;
    pub const K_ISIZE_34: isize = -2147483649;
    pub const K_ISIZE_35: isize = -4294967295;
    pub const K_ISIZE_36: isize = -4294967296;
    pub const K_ISIZE_37: isize = -9223372036854775807;
    pub const K_ISIZE_38: isize = -9223372036854775808;
}
