// Harness interface for Rust harnesses; see vp.h.
#[allow(dead_code)]
mod raw {
    unsafe extern "C" {
        pub fn vp_sym(bits: i32) -> u64;
        pub fn vp_sym_bytes(p: *mut u8, n: usize);
        pub fn vp_pick(n: i32) -> i32;
        pub fn vp_assume(c: bool);
        pub fn vp_assert(c: bool, id: i32);
        pub fn vp_reach(id: i32);
        pub fn vp_out(v: u64);
        pub fn vp_expect_abort(c: bool);
        pub fn vp_live_heap() -> i32;
        pub fn vp_rust_alloc(size: usize, align: usize, zeroed: bool) -> *mut u8;
        pub fn vp_rust_dealloc(p: *mut u8, size: usize, align: usize);
        pub fn vp_rust_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    }
}

struct VpAlloc;
unsafe impl std::alloc::GlobalAlloc for VpAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { raw::vp_rust_alloc(l.size(), l.align(), false) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { raw::vp_rust_alloc(l.size(), l.align(), true) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { raw::vp_rust_dealloc(p, l.size(), l.align()) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        unsafe { raw::vp_rust_realloc(p, l.size(), l.align(), new) }
    }
}
#[global_allocator]
static VP_ALLOC: VpAlloc = VpAlloc;

#[allow(dead_code)]
pub mod vp {
    use super::raw;
    pub fn u64() -> u64 { unsafe { raw::vp_sym(64) } }
    pub fn u32() -> u32 { unsafe { raw::vp_sym(32) as u32 } }
    pub fn u16() -> u16 { unsafe { raw::vp_sym(16) as u16 } }
    pub fn u8() -> u8 { unsafe { raw::vp_sym(8) as u8 } }
    pub fn bool() -> bool { unsafe { raw::vp_sym(1) == 1 } }
    pub fn char() -> char {
        let c = u32();
        assume(c < 0xD800 || (c > 0xDFFF && c < 0x110000));
        unsafe { char::from_u32_unchecked(c) }
    }
    pub fn pick(n: usize) -> usize { unsafe { raw::vp_pick(n as i32) as usize } }
    pub fn bytes<const N: usize>() -> [u8; N] {
        let mut a = [0u8; N];
        unsafe { raw::vp_sym_bytes(a.as_mut_ptr(), N) };
        a
    }
    pub fn assume(c: bool) { unsafe { raw::vp_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { raw::vp_assert(c, id as i32) } }
    pub fn reach(id: i32) { unsafe { raw::vp_reach(id) } }
    pub fn out(v: u64) { unsafe { raw::vp_out(v) } }
    pub fn expect_abort(c: bool) { unsafe { raw::vp_expect_abort(c) } }
    pub fn live_heap() -> i32 { unsafe { raw::vp_live_heap() } }
}
#[allow(unused_macros)]
macro_rules! VP_CHECK {
    ($c:expr) => {
        $crate::vp::check($c, line!())
    };
}
