//! Stands in for the bindings of cpp_waker.h, which the C++ importer would make.
pub mod rs_std {
    #[doc = "CRUBIT_ANNOTATE: cpp_type=rs_std::CppWaker"]
    #[doc = "CRUBIT_ANNOTATE: include_path=support/rs_std/cpp_waker.h"]
    #[repr(C)]
    pub struct CppWaker { vtable: usize }
}
