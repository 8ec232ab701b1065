#![feature(cfg_select, type_alias_impl_trait, impl_trait_in_assoc_type)]
#![allow(non_camel_case_types)]
pub mod crubit_cc_std_internal {
    #[allow(non_snake_case)]
    pub mod conversion_function_helpers {
        use core::ffi::{c_char, c_void};
        extern "C" {
            pub fn StringGetSize(s: *const c_void) -> usize;
            pub fn StringGetData(s: *const c_void) -> *const c_char;
            pub fn StringGetMutData(s: *mut c_void) -> *mut c_char;
            pub fn StringCreateInPlace(dst: *mut c_void, src: *mut c_void);
            pub fn StringCreateFromBuffer(b: *const c_char, n: usize) -> *mut c_void;
            pub fn StringMoveOwnedPtr(s: *mut c_void) -> *mut c_void;
            pub fn StringCopyOwnedPtr(s: *mut c_void) -> *mut c_void;
            pub fn StringEqual(a: *const c_void, b: *const c_void) -> bool;
            pub fn StringDelete(s: *mut c_void);
            pub fn StringCreateDefaultInPlace(dst: *mut c_void);
            pub fn StringCreateFromBufferInPlace(dst: *mut c_void, b: *const c_char, n: usize);
            pub fn StringCreateCopyInPlace(dst: *mut c_void, src: *const c_void);
            pub fn StringDestroyInPlace(s: *mut c_void);
        }
    }
}
#[path = "/repo/support/cc_std_impl/slice_ptr.rs"]
mod slice_ptr_rs;
pub use slice_ptr_rs::slice_ptr;
#[path = "/repo/support/cc_std_impl/lossy_utf8.rs"]
mod lossy_utf8_rs;
pub use lossy_utf8_rs::lossy_utf8;
#[path = "/repo/support/cc_std_impl/string_view.rs"]
pub mod string_view_rs;
#[path = "/repo/support/cc_std_impl/string.rs"]
pub mod string_rs;
/// The names the bindings of the standard library's headers give these types.
pub mod std {
    pub use crate::string_rs::*;
    pub use crate::string_view_rs::string_view;
    /// libc++'s layout.
    #[repr(C)] #[derive(Clone, Copy)]
    #[allow(non_snake_case)]
    pub struct raw_string_view { pub __data_: *const u8, pub __size_: usize }
    impl raw_string_view {
        pub unsafe fn begin(s: &Self) -> *const u8 { s.__data_ }
        pub unsafe fn end(s: &Self) -> *const u8 { s.__data_.wrapping_add(s.__size_) }
        pub unsafe fn data(s: &Self) -> *const u8 { s.__data_ }
    }
}
mod harness;
pub use harness::vp;
