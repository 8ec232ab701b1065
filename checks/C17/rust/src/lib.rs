#![feature(allocator_api, cfg_sanitize, cfg_select, type_alias_impl_trait, impl_trait_in_assoc_type)]
#![allow(non_camel_case_types)]
pub mod crubit_cc_std_internal {
    pub mod std_allocator {
        use core::ffi::c_void;
        extern "C" {
            fn c17_new(n: usize, a: usize) -> *mut c_void;
            fn c17_delete(p: *mut c_void, n: usize, a: usize);
        }
        pub fn cpp_new(n: usize, a: usize) -> *mut c_void { unsafe { c17_new(n, a) } }
        pub unsafe fn cpp_delete(p: *mut c_void, n: usize, a: usize) { c17_delete(p, n, a) }
        #[repr(C)] pub struct shared_weak_count { b: [usize; 3] }
        #[repr(C)] pub struct DynControlBlock { b: [usize; 3], pub deleter: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)> }
        #[repr(transparent)] #[derive(Clone, Copy, PartialEq, Eq)] pub struct FunctionToCall(bool);
        #[allow(non_upper_case_globals)]
        impl FunctionToCall { pub const kDestroyValue: Self = Self(false); pub const kDeleteControlBlock: Self = Self(true); }
        #[path = "/repo/support/cc_std_impl/cpp_std_allocator.rs"]
        mod cpp_std_allocator;
        pub use cpp_std_allocator::StdAllocator;
    }
}
#[path = "/repo/support/cc_std_impl/vector.rs"]
pub mod vector_rs;
#[path = "/repo/support/cc_std_impl/vector_partial_eq.rs"]
mod vector_partial_eq;

/// The names the bindings of the standard library's headers give these types.
pub mod std { pub use crate::vector_rs::vector; }
mod harness;
pub use harness::vp;
