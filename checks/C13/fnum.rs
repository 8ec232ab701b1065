use ffi_11::*;

pub fn char_step(x: c_char) -> c_char { new_c_char(u8::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn char_pair(x: c_char, b: bool, y: c_char) -> (bool, c_char) { (!b, if b { x } else { y }) }
pub fn char_opt(x: Option<c_char>) -> Option<c_char> { x.map(char_step) }
pub unsafe fn char_at(p: *const c_char, q: *mut c_char) { unsafe { *q = char_step(*p) } }
pub fn char_swap(a: &mut c_char, b: &mut c_char) { core::mem::swap(a, b) }
pub fn char_pick<'a>(b: bool, x: &'a c_char, y: &'a c_char) -> &'a c_char { if b { x } else { y } }
pub extern "C" fn char_c(x: c_char) -> c_char { char_step(x) }
pub fn char_call(f: extern "C" fn(c_char) -> c_char, x: c_char) -> c_char { char_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rchar { pub a: u8, pub b: c_char, pub p: *const c_char, pub o: Option<c_char> }
impl Rchar {
    pub fn of(a: u8, b: c_char, p: &'static c_char, some: bool) -> Self { Rchar { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_char { let x = self.b; self.b = char_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u8::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn c8_step(x: c_char8_t) -> c_char8_t { new_c_char8_t(u8::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn c8_pair(x: c_char8_t, b: bool, y: c_char8_t) -> (bool, c_char8_t) { (!b, if b { x } else { y }) }
pub fn c8_opt(x: Option<c_char8_t>) -> Option<c_char8_t> { x.map(c8_step) }
pub unsafe fn c8_at(p: *const c_char8_t, q: *mut c_char8_t) { unsafe { *q = c8_step(*p) } }
pub fn c8_swap(a: &mut c_char8_t, b: &mut c_char8_t) { core::mem::swap(a, b) }
pub fn c8_pick<'a>(b: bool, x: &'a c_char8_t, y: &'a c_char8_t) -> &'a c_char8_t { if b { x } else { y } }
pub extern "C" fn c8_c(x: c_char8_t) -> c_char8_t { c8_step(x) }
pub fn c8_call(f: extern "C" fn(c_char8_t) -> c_char8_t, x: c_char8_t) -> c_char8_t { c8_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rc8 { pub a: u8, pub b: c_char8_t, pub p: *const c_char8_t, pub o: Option<c_char8_t> }
impl Rc8 {
    pub fn of(a: u8, b: c_char8_t, p: &'static c_char8_t, some: bool) -> Self { Rc8 { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_char8_t { let x = self.b; self.b = c8_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u8::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn c16_step(x: c_char16_t) -> c_char16_t { new_c_char16_t(u16::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn c16_pair(x: c_char16_t, b: bool, y: c_char16_t) -> (bool, c_char16_t) { (!b, if b { x } else { y }) }
pub fn c16_opt(x: Option<c_char16_t>) -> Option<c_char16_t> { x.map(c16_step) }
pub unsafe fn c16_at(p: *const c_char16_t, q: *mut c_char16_t) { unsafe { *q = c16_step(*p) } }
pub fn c16_swap(a: &mut c_char16_t, b: &mut c_char16_t) { core::mem::swap(a, b) }
pub fn c16_pick<'a>(b: bool, x: &'a c_char16_t, y: &'a c_char16_t) -> &'a c_char16_t { if b { x } else { y } }
pub extern "C" fn c16_c(x: c_char16_t) -> c_char16_t { c16_step(x) }
pub fn c16_call(f: extern "C" fn(c_char16_t) -> c_char16_t, x: c_char16_t) -> c_char16_t { c16_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rc16 { pub a: u8, pub b: c_char16_t, pub p: *const c_char16_t, pub o: Option<c_char16_t> }
impl Rc16 {
    pub fn of(a: u8, b: c_char16_t, p: &'static c_char16_t, some: bool) -> Self { Rc16 { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_char16_t { let x = self.b; self.b = c16_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u16::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn c32_step(x: c_char32_t) -> c_char32_t { new_c_char32_t(u32::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn c32_pair(x: c_char32_t, b: bool, y: c_char32_t) -> (bool, c_char32_t) { (!b, if b { x } else { y }) }
pub fn c32_opt(x: Option<c_char32_t>) -> Option<c_char32_t> { x.map(c32_step) }
pub unsafe fn c32_at(p: *const c_char32_t, q: *mut c_char32_t) { unsafe { *q = c32_step(*p) } }
pub fn c32_swap(a: &mut c_char32_t, b: &mut c_char32_t) { core::mem::swap(a, b) }
pub fn c32_pick<'a>(b: bool, x: &'a c_char32_t, y: &'a c_char32_t) -> &'a c_char32_t { if b { x } else { y } }
pub extern "C" fn c32_c(x: c_char32_t) -> c_char32_t { c32_step(x) }
pub fn c32_call(f: extern "C" fn(c_char32_t) -> c_char32_t, x: c_char32_t) -> c_char32_t { c32_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rc32 { pub a: u8, pub b: c_char32_t, pub p: *const c_char32_t, pub o: Option<c_char32_t> }
impl Rc32 {
    pub fn of(a: u8, b: c_char32_t, p: &'static c_char32_t, some: bool) -> Self { Rc32 { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_char32_t { let x = self.b; self.b = c32_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u32::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn ll_step(x: c_longlong) -> c_longlong { new_c_longlong(i64::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn ll_pair(x: c_longlong, b: bool, y: c_longlong) -> (bool, c_longlong) { (!b, if b { x } else { y }) }
pub fn ll_opt(x: Option<c_longlong>) -> Option<c_longlong> { x.map(ll_step) }
pub unsafe fn ll_at(p: *const c_longlong, q: *mut c_longlong) { unsafe { *q = ll_step(*p) } }
pub fn ll_swap(a: &mut c_longlong, b: &mut c_longlong) { core::mem::swap(a, b) }
pub fn ll_pick<'a>(b: bool, x: &'a c_longlong, y: &'a c_longlong) -> &'a c_longlong { if b { x } else { y } }
pub extern "C" fn ll_c(x: c_longlong) -> c_longlong { ll_step(x) }
pub fn ll_call(f: extern "C" fn(c_longlong) -> c_longlong, x: c_longlong) -> c_longlong { ll_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rll { pub a: u8, pub b: c_longlong, pub p: *const c_longlong, pub o: Option<c_longlong> }
impl Rll {
    pub fn of(a: u8, b: c_longlong, p: &'static c_longlong, some: bool) -> Self { Rll { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_longlong { let x = self.b; self.b = ll_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { i64::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn ull_step(x: c_ulonglong) -> c_ulonglong { new_c_ulonglong(u64::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn ull_pair(x: c_ulonglong, b: bool, y: c_ulonglong) -> (bool, c_ulonglong) { (!b, if b { x } else { y }) }
pub fn ull_opt(x: Option<c_ulonglong>) -> Option<c_ulonglong> { x.map(ull_step) }
pub unsafe fn ull_at(p: *const c_ulonglong, q: *mut c_ulonglong) { unsafe { *q = ull_step(*p) } }
pub fn ull_swap(a: &mut c_ulonglong, b: &mut c_ulonglong) { core::mem::swap(a, b) }
pub fn ull_pick<'a>(b: bool, x: &'a c_ulonglong, y: &'a c_ulonglong) -> &'a c_ulonglong { if b { x } else { y } }
pub extern "C" fn ull_c(x: c_ulonglong) -> c_ulonglong { ull_step(x) }
pub fn ull_call(f: extern "C" fn(c_ulonglong) -> c_ulonglong, x: c_ulonglong) -> c_ulonglong { ull_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rull { pub a: u8, pub b: c_ulonglong, pub p: *const c_ulonglong, pub o: Option<c_ulonglong> }
impl Rull {
    pub fn of(a: u8, b: c_ulonglong, p: &'static c_ulonglong, some: bool) -> Self { Rull { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_ulonglong { let x = self.b; self.b = ull_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u64::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn l_step(x: c_long) -> c_long { new_c_long(i64::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn l_pair(x: c_long, b: bool, y: c_long) -> (bool, c_long) { (!b, if b { x } else { y }) }
pub fn l_opt(x: Option<c_long>) -> Option<c_long> { x.map(l_step) }
pub unsafe fn l_at(p: *const c_long, q: *mut c_long) { unsafe { *q = l_step(*p) } }
pub fn l_swap(a: &mut c_long, b: &mut c_long) { core::mem::swap(a, b) }
pub fn l_pick<'a>(b: bool, x: &'a c_long, y: &'a c_long) -> &'a c_long { if b { x } else { y } }
pub extern "C" fn l_c(x: c_long) -> c_long { l_step(x) }
pub fn l_call(f: extern "C" fn(c_long) -> c_long, x: c_long) -> c_long { l_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rl { pub a: u8, pub b: c_long, pub p: *const c_long, pub o: Option<c_long> }
impl Rl {
    pub fn of(a: u8, b: c_long, p: &'static c_long, some: bool) -> Self { Rl { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_long { let x = self.b; self.b = l_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { i64::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn ul_step(x: c_ulong) -> c_ulong { new_c_ulong(u64::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn ul_pair(x: c_ulong, b: bool, y: c_ulong) -> (bool, c_ulong) { (!b, if b { x } else { y }) }
pub fn ul_opt(x: Option<c_ulong>) -> Option<c_ulong> { x.map(ul_step) }
pub unsafe fn ul_at(p: *const c_ulong, q: *mut c_ulong) { unsafe { *q = ul_step(*p) } }
pub fn ul_swap(a: &mut c_ulong, b: &mut c_ulong) { core::mem::swap(a, b) }
pub fn ul_pick<'a>(b: bool, x: &'a c_ulong, y: &'a c_ulong) -> &'a c_ulong { if b { x } else { y } }
pub extern "C" fn ul_c(x: c_ulong) -> c_ulong { ul_step(x) }
pub fn ul_call(f: extern "C" fn(c_ulong) -> c_ulong, x: c_ulong) -> c_ulong { ul_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rul { pub a: u8, pub b: c_ulong, pub p: *const c_ulong, pub o: Option<c_ulong> }
impl Rul {
    pub fn of(a: u8, b: c_ulong, p: &'static c_ulong, some: bool) -> Self { Rul { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_ulong { let x = self.b; self.b = ul_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u64::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn i_step(x: c_int) -> c_int { new_c_int(i32::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn i_pair(x: c_int, b: bool, y: c_int) -> (bool, c_int) { (!b, if b { x } else { y }) }
pub fn i_opt(x: Option<c_int>) -> Option<c_int> { x.map(i_step) }
pub unsafe fn i_at(p: *const c_int, q: *mut c_int) { unsafe { *q = i_step(*p) } }
pub fn i_swap(a: &mut c_int, b: &mut c_int) { core::mem::swap(a, b) }
pub fn i_pick<'a>(b: bool, x: &'a c_int, y: &'a c_int) -> &'a c_int { if b { x } else { y } }
pub extern "C" fn i_c(x: c_int) -> c_int { i_step(x) }
pub fn i_call(f: extern "C" fn(c_int) -> c_int, x: c_int) -> c_int { i_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Ri { pub a: u8, pub b: c_int, pub p: *const c_int, pub o: Option<c_int> }
impl Ri {
    pub fn of(a: u8, b: c_int, p: &'static c_int, some: bool) -> Self { Ri { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_int { let x = self.b; self.b = i_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { i32::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn u_step(x: c_uint) -> c_uint { new_c_uint(u32::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn u_pair(x: c_uint, b: bool, y: c_uint) -> (bool, c_uint) { (!b, if b { x } else { y }) }
pub fn u_opt(x: Option<c_uint>) -> Option<c_uint> { x.map(u_step) }
pub unsafe fn u_at(p: *const c_uint, q: *mut c_uint) { unsafe { *q = u_step(*p) } }
pub fn u_swap(a: &mut c_uint, b: &mut c_uint) { core::mem::swap(a, b) }
pub fn u_pick<'a>(b: bool, x: &'a c_uint, y: &'a c_uint) -> &'a c_uint { if b { x } else { y } }
pub extern "C" fn u_c(x: c_uint) -> c_uint { u_step(x) }
pub fn u_call(f: extern "C" fn(c_uint) -> c_uint, x: c_uint) -> c_uint { u_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Ru { pub a: u8, pub b: c_uint, pub p: *const c_uint, pub o: Option<c_uint> }
impl Ru {
    pub fn of(a: u8, b: c_uint, p: &'static c_uint, some: bool) -> Self { Ru { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_uint { let x = self.b; self.b = u_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u32::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn s_step(x: c_short) -> c_short { new_c_short(i16::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn s_pair(x: c_short, b: bool, y: c_short) -> (bool, c_short) { (!b, if b { x } else { y }) }
pub fn s_opt(x: Option<c_short>) -> Option<c_short> { x.map(s_step) }
pub unsafe fn s_at(p: *const c_short, q: *mut c_short) { unsafe { *q = s_step(*p) } }
pub fn s_swap(a: &mut c_short, b: &mut c_short) { core::mem::swap(a, b) }
pub fn s_pick<'a>(b: bool, x: &'a c_short, y: &'a c_short) -> &'a c_short { if b { x } else { y } }
pub extern "C" fn s_c(x: c_short) -> c_short { s_step(x) }
pub fn s_call(f: extern "C" fn(c_short) -> c_short, x: c_short) -> c_short { s_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rs { pub a: u8, pub b: c_short, pub p: *const c_short, pub o: Option<c_short> }
impl Rs {
    pub fn of(a: u8, b: c_short, p: &'static c_short, some: bool) -> Self { Rs { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_short { let x = self.b; self.b = s_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { i16::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn us_step(x: c_ushort) -> c_ushort { new_c_ushort(u16::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn us_pair(x: c_ushort, b: bool, y: c_ushort) -> (bool, c_ushort) { (!b, if b { x } else { y }) }
pub fn us_opt(x: Option<c_ushort>) -> Option<c_ushort> { x.map(us_step) }
pub unsafe fn us_at(p: *const c_ushort, q: *mut c_ushort) { unsafe { *q = us_step(*p) } }
pub fn us_swap(a: &mut c_ushort, b: &mut c_ushort) { core::mem::swap(a, b) }
pub fn us_pick<'a>(b: bool, x: &'a c_ushort, y: &'a c_ushort) -> &'a c_ushort { if b { x } else { y } }
pub extern "C" fn us_c(x: c_ushort) -> c_ushort { us_step(x) }
pub fn us_call(f: extern "C" fn(c_ushort) -> c_ushort, x: c_ushort) -> c_ushort { us_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rus { pub a: u8, pub b: c_ushort, pub p: *const c_ushort, pub o: Option<c_ushort> }
impl Rus {
    pub fn of(a: u8, b: c_ushort, p: &'static c_ushort, some: bool) -> Self { Rus { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_ushort { let x = self.b; self.b = us_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u16::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn sc_step(x: c_schar) -> c_schar { new_c_schar(i8::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn sc_pair(x: c_schar, b: bool, y: c_schar) -> (bool, c_schar) { (!b, if b { x } else { y }) }
pub fn sc_opt(x: Option<c_schar>) -> Option<c_schar> { x.map(sc_step) }
pub unsafe fn sc_at(p: *const c_schar, q: *mut c_schar) { unsafe { *q = sc_step(*p) } }
pub fn sc_swap(a: &mut c_schar, b: &mut c_schar) { core::mem::swap(a, b) }
pub fn sc_pick<'a>(b: bool, x: &'a c_schar, y: &'a c_schar) -> &'a c_schar { if b { x } else { y } }
pub extern "C" fn sc_c(x: c_schar) -> c_schar { sc_step(x) }
pub fn sc_call(f: extern "C" fn(c_schar) -> c_schar, x: c_schar) -> c_schar { sc_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Rsc { pub a: u8, pub b: c_schar, pub p: *const c_schar, pub o: Option<c_schar> }
impl Rsc {
    pub fn of(a: u8, b: c_schar, p: &'static c_schar, some: bool) -> Self { Rsc { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_schar { let x = self.b; self.b = sc_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { i8::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub fn uc_step(x: c_uchar) -> c_uchar { new_c_uchar(u8::from(x).wrapping_mul(3).wrapping_add(1)) }
pub fn uc_pair(x: c_uchar, b: bool, y: c_uchar) -> (bool, c_uchar) { (!b, if b { x } else { y }) }
pub fn uc_opt(x: Option<c_uchar>) -> Option<c_uchar> { x.map(uc_step) }
pub unsafe fn uc_at(p: *const c_uchar, q: *mut c_uchar) { unsafe { *q = uc_step(*p) } }
pub fn uc_swap(a: &mut c_uchar, b: &mut c_uchar) { core::mem::swap(a, b) }
pub fn uc_pick<'a>(b: bool, x: &'a c_uchar, y: &'a c_uchar) -> &'a c_uchar { if b { x } else { y } }
pub extern "C" fn uc_c(x: c_uchar) -> c_uchar { uc_step(x) }
pub fn uc_call(f: extern "C" fn(c_uchar) -> c_uchar, x: c_uchar) -> c_uchar { uc_step(f(x)) }
#[derive(Clone, Copy)]
pub struct Ruc { pub a: u8, pub b: c_uchar, pub p: *const c_uchar, pub o: Option<c_uchar> }
impl Ruc {
    pub fn of(a: u8, b: c_uchar, p: &'static c_uchar, some: bool) -> Self { Ruc { a, b, p, o: if some { Some(b) } else { None } } }
    pub fn next(&mut self) -> c_uchar { let x = self.b; self.b = uc_step(x); self.a += 1; x }
    pub fn sum(self) -> u64 { u8::from(self.b) as u64 ^ self.a as u64 ^ (unsafe { *self.p } == self.b) as u64 }
}

pub const K_char_0: c_char = new_c_char(0);
pub fn k_char_0() -> c_char { K_char_0 }
pub const K_char_1: c_char = new_c_char(127);
pub fn k_char_1() -> c_char { K_char_1 }
pub const K_char_2: c_char = new_c_char(128);
pub fn k_char_2() -> c_char { K_char_2 }
pub const K_char_3: c_char = new_c_char(255);
pub fn k_char_3() -> c_char { K_char_3 }
pub const K_char_4: c_char = new_c_char(65);
pub fn k_char_4() -> c_char { K_char_4 }
pub const K_ll_0: c_longlong = new_c_longlong(i64::MIN);
pub fn k_ll_0() -> c_longlong { K_ll_0 }
pub const K_ll_1: c_longlong = new_c_longlong(i64::MAX);
pub fn k_ll_1() -> c_longlong { K_ll_1 }
pub const K_ll_2: c_longlong = new_c_longlong(-1);
pub fn k_ll_2() -> c_longlong { K_ll_2 }
pub const K_ull_0: c_ulonglong = new_c_ulonglong(0);
pub fn k_ull_0() -> c_ulonglong { K_ull_0 }
pub const K_ull_1: c_ulonglong = new_c_ulonglong(u64::MAX);
pub fn k_ull_1() -> c_ulonglong { K_ull_1 }
pub const K_ull_2: c_ulonglong = new_c_ulonglong(9223372036854775808);
pub fn k_ull_2() -> c_ulonglong { K_ull_2 }
pub const K_l_0: c_long = new_c_long(i64::MIN);
pub fn k_l_0() -> c_long { K_l_0 }
pub const K_l_1: c_long = new_c_long(5);
pub fn k_l_1() -> c_long { K_l_1 }
pub const K_ul_0: c_ulong = new_c_ulong(u64::MAX);
pub fn k_ul_0() -> c_ulong { K_ul_0 }
pub const K_i_0: c_int = new_c_int(i32::MIN);
pub fn k_i_0() -> c_int { K_i_0 }
pub const K_i_1: c_int = new_c_int(i32::MAX);
pub fn k_i_1() -> c_int { K_i_1 }
pub const K_u_0: c_uint = new_c_uint(u32::MAX);
pub fn k_u_0() -> c_uint { K_u_0 }
pub const K_s_0: c_short = new_c_short(i16::MIN);
pub fn k_s_0() -> c_short { K_s_0 }
pub const K_us_0: c_ushort = new_c_ushort(u16::MAX);
pub fn k_us_0() -> c_ushort { K_us_0 }
pub const K_sc_0: c_schar = new_c_schar(i8::MIN);
pub fn k_sc_0() -> c_schar { K_sc_0 }
pub const K_uc_0: c_uchar = new_c_uchar(u8::MAX);
pub fn k_uc_0() -> c_uchar { K_uc_0 }
