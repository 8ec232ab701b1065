#![feature(allocator_api)]
#![allow(non_camel_case_types)]
pub mod crubit_cc_std_internal {
    pub mod std_allocator {
        use core::ffi::c_void;
        extern "C" {
            fn c27_new(n: usize, a: usize) -> *mut c_void;
            fn c27_delete(p: *mut c_void, n: usize, a: usize);
            fn c27_emplace(p: *mut DynControlBlock, d: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)>) -> *mut shared_weak_count;
            fn c27_dcb_dtor(p: *mut DynControlBlock);
            fn c27_ref(p: *mut shared_weak_count);
            fn c27_unref(p: *mut shared_weak_count);
            fn c27_use_count(p: *const shared_weak_count) -> usize;
        }
        pub fn cpp_new(n: usize, a: usize) -> *mut c_void { unsafe { c27_new(n, a) } }
        pub unsafe fn cpp_delete(p: *mut c_void, n: usize, a: usize) { c27_delete(p, n, a) }
        pub unsafe fn shared_ptr_ref(p: *mut shared_weak_count) { c27_ref(p) }
        pub unsafe fn shared_ptr_unref(p: *mut shared_weak_count) { c27_unref(p) }
        pub unsafe fn shared_ptr_use_count(p: *const shared_weak_count) -> usize { c27_use_count(p) }
        #[repr(C)] pub struct shared_weak_count { b: [usize; 3] }
        #[repr(C)] pub struct DynControlBlock { b: [usize; 3], pub deleter: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)> }
        impl DynControlBlock {
            pub unsafe fn Emplace(p: *mut Self, d: Option<unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock)>) -> *mut shared_weak_count { c27_emplace(p, d) }
        }
        impl Drop for DynControlBlock { fn drop(&mut self) { unsafe { c27_dcb_dtor(self) } } }
        #[repr(transparent)] #[derive(Clone, Copy, PartialEq, Eq)] pub struct FunctionToCall(bool);
        #[allow(non_upper_case_globals)]
        impl FunctionToCall { pub const kDestroyValue: Self = Self(false); pub const kDeleteControlBlock: Self = Self(true); }
        #[path = "/repo/support/cc_std_impl/cpp_std_allocator.rs"]
        mod cpp_std_allocator;
        pub use cpp_std_allocator::StdAllocator;
    }
}
#[path = "/repo/support/cc_std_impl/unique_ptr.rs"]
pub mod unique_ptr_rs;
#[path = "/repo/support/cc_std_impl/shared_ptr.rs"]
pub mod shared_ptr_rs;
#[path = "/repo/support/cc_std_impl/optional.rs"]
pub mod optional_rs;
mod harness;
pub use harness::vp;
