// Oracle: the same functions called directly from Rust.
use funcs::*;
macro_rules! fwd { ($($r:ident = $($p:ident)::+ ( $($a:ident : $t:ty),* ) -> $o:ty;)*) => { $(
    #[unsafe(no_mangle)] pub extern "C" fn $r($($a: $t),*) -> $o { #[allow(unused_unsafe)] unsafe { $($p)::+($($a),*) } })* } }
fwd! {
    ref_mix_ints = prim::mix_ints(a: u8, b: i64, c: u16, d: i32, e: u64, f: i8, g: u32, h: i16) -> u64;
    ref_mix_float = prim::mix_float(a: f32, b: i32, c: f64, d: u8, e: f32, f: f64) -> u64;
    ref_sel_f64 = prim::sel_f64(c: bool, a: f64, b: f64) -> f64;
    ref_sel_f32 = prim::sel_f32(a: f32, c: bool, b: f32) -> f32;
    ref_logic = prim::logic(a: bool, b: bool, c: bool) -> bool;
    ref_u8 = prim::ret_u8(x: u8) -> u8;
    ref_i8 = prim::ret_i8(x: i8) -> i8;
    ref_u16 = prim::ret_u16(x: u16) -> u16;
    ref_i16 = prim::ret_i16(x: i16) -> i16;
    ref_u32 = prim::ret_u32(x: u32) -> u32;
    ref_i32 = prim::ret_i32(x: i32) -> i32;
    ref_u64 = prim::ret_u64(x: u64) -> u64;
    ref_i64 = prim::ret_i64(x: i64) -> i64;
    ref_usize = prim::ret_usize(x: usize, y: usize) -> usize;
    ref_isize = prim::ret_isize(x: isize, y: isize) -> isize;
    ref_dup = prim::dup_names(a: i32, b: i32, c: i32, d: i32) -> i32;
    ref_unused = prim::unused_args(a: u64, b: u8, c: u64) -> u8;
    ref_opt_char = prim::opt_char(x: u32) -> u32;
    ref_early = prim::early(x: u32) -> u32;
    ref_c_add = abi::vp_c_add(a: i16, b: i64, c: u8) -> i64;
    ref_exported = abi::exported(a: u64, b: u32) -> u64;
    ref_nomangle = abi::vp_rust_abi_nomangle(a: u32, b: u8, c: u64) -> u64;
    ref_rust_exported = abi::rust_exported(a: u8, b: u32) -> u32;
    ref_c_mangled = abi::c_mangled(a: u32, b: u32) -> u32;
    ref_unsafe = abi::unsafe_fn(a: u32, b: u32) -> u32;
    ref_must_use = abi::must_use_fn(a: u32, b: u16) -> u32;
    ref_deprecated = abi::deprecated_fn(a: u32) -> u32;
    ref_for = r#while::r#for(a: u32) -> u32;
    ref_template = r#while::template(a: u32, b: u32) -> u32;
    ref_and_eq = r#while::and_eq(a: u8, b: u8) -> u8;
    ref_deep = outer::inner::deep::f(a: u32) -> u32;
    ref_inner = outer::inner::f(a: u32) -> u32;
    ref_outer = outer::f(a: u32) -> u32;
    ref_hidden = from_hidden(a: u32, b: u8) -> u32;
    ref_renamed = renamed_dst(a: u32, b: u32) -> u32;
    ref_alias = alias_fn(a: u16, b: u16) -> u16;
    ref_original = original_name(a: u32, b: u32) -> u32;
    ref_c_types = refs::c_types(a: i8, b: i64, c: u64, d: i16, e: u8, f: u32) -> i64;
}
#[unsafe(no_mangle)]
pub extern "C" fn ref_chars(a: u32, b: u32) -> u32 {
    prim::chars(char::from_u32(a).unwrap(), char::from_u32(b).unwrap()) as u32
}
#[unsafe(no_mangle)]
pub extern "C" fn ref_char_code(a: u8, c: u32, b: u8) -> u32 { prim::char_code(a, char::from_u32(c).unwrap(), b) }
#[unsafe(no_mangle)]
pub extern "C" fn ref_arr(p: *const u16) -> u32 { unsafe { refs::arr_ref(&*(p as *const [u16; 3])) } }
#[unsafe(no_mangle)]
pub extern "C" fn ref_sum_bytes(p: *const u8, n: usize) -> u32 { slices::sum_bytes(unsafe { std::slice::from_raw_parts(p, n) }) }
#[unsafe(no_mangle)]
pub extern "C" fn ref_two(p: *const u32, n: usize, k: u8, q: *const u16, m: usize) -> u64 {
    unsafe { slices::two_slices(std::slice::from_raw_parts(p, n), k, std::slice::from_raw_parts(q, m)) }
}
fn s<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) } }
#[unsafe(no_mangle)]
pub extern "C" fn ref_valid(p: *const u8, n: usize) -> bool { std::str::from_utf8(unsafe { std::slice::from_raw_parts(p, n) }).is_ok() }
#[unsafe(no_mangle)]
pub extern "C" fn ref_str_byte(p: *const u8, n: usize, i: usize) -> u8 { slices::str_byte(s(p, n), i) }
#[unsafe(no_mangle)]
pub extern "C" fn ref_str_tail(p: *const u8, n: usize, out: &mut usize) -> *const u8 {
    let t = slices::str_tail(s(p, n));
    *out = t.len();
    t.as_ptr()
}
#[unsafe(no_mangle)]
pub extern "C" fn ref_const_str(w: bool, out: &mut usize) -> *const u8 {
    let t = slices::const_str(w);
    *out = t.len();
    t.as_ptr()
}
macro_rules! consts { ($($n:ident: $t:ty;)*) => { $( #[allow(non_snake_case)] #[unsafe(no_mangle)]
    pub extern "C" fn $n() -> $t { consts::$n } )* } }
#[allow(non_snake_case)]
mod cc { use super::*;
    macro_rules! k { ($($f:ident $n:ident: $t:ty;)*) => { $( #[unsafe(no_mangle)] pub extern "C" fn $f() -> $t { consts::$n } )* } }
    k! { k_I I: i32; k_U U: u64; k_I64MIN I64MIN: i64; k_I8MIN I8MIN: i8; k_B B: bool; k_U8 U8: u8; k_I16 I16: i16; k_U32 U32: u32;
         k_I32MIN I32MIN: i32; k_F F: f64; k_F32 F32: f32; k_FNEGZ FNEGZ: f64; k_FMIN FMIN: f64; k_FMAX FMAX: f32; k_FTENTH FTENTH: f64;
         k_FTENTH32 FTENTH32: f32; k_FBIG FBIG: f64; k_SZ SZ: usize; k_ISZ ISZ: isize; k_FONE FONE: f32; k_FNEGZ32 FNEGZ32: f32;
         k_FSUB FSUB: f32; k_FTWO53 FTWO53: f64; k_U16 U16: u16; k_U15 U15: u16; k_U64S U64S: u64; k_I64MAX I64MAX: i64; k_FALSE FALSE: bool; }
}
static KS: [u64; 222] = [lits::K_U8_0 as u64, lits::K_U8_1 as u64, lits::K_U8_2 as u64, lits::K_U8_3 as u64, lits::K_U8_4 as u64, lits::K_U8_5 as u64, lits::K_U8_6 as u64, lits::K_U16_0 as u64, lits::K_U16_1 as u64, lits::K_U16_2 as u64, lits::K_U16_3 as u64, lits::K_U16_4 as u64, lits::K_U16_5 as u64, lits::K_U16_6 as u64, lits::K_U16_7 as u64, lits::K_U16_8 as u64, lits::K_U16_9 as u64, lits::K_U16_10 as u64, lits::K_U16_11 as u64, lits::K_U16_12 as u64, lits::K_U16_13 as u64, lits::K_U16_14 as u64, lits::K_U32_0 as u64, lits::K_U32_1 as u64, lits::K_U32_2 as u64, lits::K_U32_3 as u64, lits::K_U32_4 as u64, lits::K_U32_5 as u64, lits::K_U32_6 as u64, lits::K_U32_7 as u64, lits::K_U32_8 as u64, lits::K_U32_9 as u64, lits::K_U32_10 as u64, lits::K_U32_11 as u64, lits::K_U32_12 as u64, lits::K_U32_13 as u64, lits::K_U32_14 as u64, lits::K_U32_15 as u64, lits::K_U32_16 as u64, lits::K_U32_17 as u64, lits::K_U32_18 as u64, lits::K_U32_19 as u64, lits::K_U32_20 as u64, lits::K_U64_0 as u64, lits::K_U64_1 as u64, lits::K_U64_2 as u64, lits::K_U64_3 as u64, lits::K_U64_4 as u64, lits::K_U64_5 as u64, lits::K_U64_6 as u64, lits::K_U64_7 as u64, lits::K_U64_8 as u64, lits::K_U64_9 as u64, lits::K_U64_10 as u64, lits::K_U64_11 as u64, lits::K_U64_12 as u64, lits::K_U64_13 as u64, lits::K_U64_14 as u64, lits::K_U64_15 as u64, lits::K_U64_16 as u64, lits::K_U64_17 as u64, lits::K_U64_18 as u64, lits::K_U64_19 as u64, lits::K_U64_20 as u64, lits::K_U64_21 as u64, lits::K_U64_22 as u64, lits::K_U64_23 as u64, lits::K_U64_24 as u64, lits::K_USIZE_0 as u64, lits::K_USIZE_1 as u64, lits::K_USIZE_2 as u64, lits::K_USIZE_3 as u64, lits::K_USIZE_4 as u64, lits::K_USIZE_5 as u64, lits::K_USIZE_6 as u64, lits::K_USIZE_7 as u64, lits::K_USIZE_8 as u64, lits::K_USIZE_9 as u64, lits::K_USIZE_10 as u64, lits::K_USIZE_11 as u64, lits::K_USIZE_12 as u64, lits::K_USIZE_13 as u64, lits::K_USIZE_14 as u64, lits::K_USIZE_15 as u64, lits::K_USIZE_16 as u64, lits::K_USIZE_17 as u64, lits::K_USIZE_18 as u64, lits::K_USIZE_19 as u64, lits::K_USIZE_20 as u64, lits::K_USIZE_21 as u64, lits::K_USIZE_22 as u64, lits::K_USIZE_23 as u64, lits::K_USIZE_24 as u64, lits::K_I8_0 as u64, lits::K_I8_1 as u64, lits::K_I8_2 as u64, lits::K_I8_3 as u64, lits::K_I8_4 as u64, lits::K_I8_5 as u64, lits::K_I16_0 as u64, lits::K_I16_1 as u64, lits::K_I16_2 as u64, lits::K_I16_3 as u64, lits::K_I16_4 as u64, lits::K_I16_5 as u64, lits::K_I16_6 as u64, lits::K_I16_7 as u64, lits::K_I16_8 as u64, lits::K_I16_9 as u64, lits::K_I16_10 as u64, lits::K_I16_11 as u64, lits::K_I16_12 as u64, lits::K_I16_13 as u64, lits::K_I16_14 as u64, lits::K_I16_15 as u64, lits::K_I32_0 as u64, lits::K_I32_1 as u64, lits::K_I32_2 as u64, lits::K_I32_3 as u64, lits::K_I32_4 as u64, lits::K_I32_5 as u64, lits::K_I32_6 as u64, lits::K_I32_7 as u64, lits::K_I32_8 as u64, lits::K_I32_9 as u64, lits::K_I32_10 as u64, lits::K_I32_11 as u64, lits::K_I32_12 as u64, lits::K_I32_13 as u64, lits::K_I32_14 as u64, lits::K_I32_15 as u64, lits::K_I32_16 as u64, lits::K_I32_17 as u64, lits::K_I32_18 as u64, lits::K_I32_19 as u64, lits::K_I32_20 as u64, lits::K_I32_21 as u64, lits::K_I32_22 as u64, lits::K_I32_23 as u64, lits::K_I32_24 as u64, lits::K_I32_25 as u64, lits::K_I32_26 as u64, lits::K_I32_27 as u64, lits::K_I32_28 as u64, lits::K_I64_0 as u64, lits::K_I64_1 as u64, lits::K_I64_2 as u64, lits::K_I64_3 as u64, lits::K_I64_4 as u64, lits::K_I64_5 as u64, lits::K_I64_6 as u64, lits::K_I64_7 as u64, lits::K_I64_8 as u64, lits::K_I64_9 as u64, lits::K_I64_10 as u64, lits::K_I64_11 as u64, lits::K_I64_12 as u64, lits::K_I64_13 as u64, lits::K_I64_14 as u64, lits::K_I64_15 as u64, lits::K_I64_16 as u64, lits::K_I64_17 as u64, lits::K_I64_18 as u64, lits::K_I64_19 as u64, lits::K_I64_20 as u64, lits::K_I64_21 as u64, lits::K_I64_22 as u64, lits::K_I64_23 as u64, lits::K_I64_24 as u64, lits::K_I64_25 as u64, lits::K_I64_26 as u64, lits::K_I64_27 as u64, lits::K_I64_28 as u64, lits::K_I64_29 as u64, lits::K_I64_30 as u64, lits::K_I64_31 as u64, lits::K_I64_32 as u64, lits::K_I64_33 as u64, lits::K_I64_34 as u64, lits::K_I64_35 as u64, lits::K_I64_36 as u64, lits::K_I64_37 as u64, lits::K_I64_38 as u64, lits::K_ISIZE_0 as u64, lits::K_ISIZE_1 as u64, lits::K_ISIZE_2 as u64, lits::K_ISIZE_3 as u64, lits::K_ISIZE_4 as u64, lits::K_ISIZE_5 as u64, lits::K_ISIZE_6 as u64, lits::K_ISIZE_7 as u64, lits::K_ISIZE_8 as u64, lits::K_ISIZE_9 as u64, lits::K_ISIZE_10 as u64, lits::K_ISIZE_11 as u64, lits::K_ISIZE_12 as u64, lits::K_ISIZE_13 as u64, lits::K_ISIZE_14 as u64, lits::K_ISIZE_15 as u64, lits::K_ISIZE_16 as u64, lits::K_ISIZE_17 as u64, lits::K_ISIZE_18 as u64, lits::K_ISIZE_19 as u64, lits::K_ISIZE_20 as u64, lits::K_ISIZE_21 as u64, lits::K_ISIZE_22 as u64, lits::K_ISIZE_23 as u64, lits::K_ISIZE_24 as u64, lits::K_ISIZE_25 as u64, lits::K_ISIZE_26 as u64, lits::K_ISIZE_27 as u64, lits::K_ISIZE_28 as u64, lits::K_ISIZE_29 as u64, lits::K_ISIZE_30 as u64, lits::K_ISIZE_31 as u64, lits::K_ISIZE_32 as u64, lits::K_ISIZE_33 as u64, lits::K_ISIZE_34 as u64, lits::K_ISIZE_35 as u64, lits::K_ISIZE_36 as u64, lits::K_ISIZE_37 as u64, lits::K_ISIZE_38 as u64];
#[unsafe(no_mangle)]
pub extern "C" fn ref_lit(k: usize) -> u64 { KS[k] }
