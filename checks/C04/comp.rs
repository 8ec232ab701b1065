#[derive(Clone, Copy, Default)] #[repr(C)] pub struct P { pub a: u8, pub b: u32 }
pub struct X(Box<u32>);
impl X { pub fn make(v: u32) -> Self { X(Box::new(v)) } pub fn val(&self) -> u32 { *self.0 } }
impl Default for X { fn default() -> Self { X::make(0) } }
pub fn o_i8(o: Option<i8>) -> Option<i8> { o.map(|x| !x) }
pub fn o_i16(o: Option<i16>) -> Option<i16> { o.map(|x| !x) }
pub fn o_i32(o: Option<i32>) -> Option<i32> { o.map(|x| !x) }
pub fn o_i64(o: Option<i64>) -> Option<i64> { o.map(|x| !x) }
pub fn o_isize(o: Option<isize>) -> Option<isize> { o.map(|x| !x) }
pub fn o_usize(o: Option<usize>) -> Option<usize> { o.map(|x| !x) }
pub fn o_u16(o: Option<u16>) -> Option<u16> { o.map(|x| !x) }
pub fn o_u32(o: Option<u32>) -> Option<u32> { o.map(|x| !x) }
pub fn o_f32(o: Option<f32>) -> Option<f32> { o.map(|x| f32::from_bits(!x.to_bits())) }
pub fn o_f64(o: Option<f64>) -> Option<f64> { o.map(|x| f64::from_bits(!x.to_bits())) }
pub fn o_char(o: Option<char>) -> Option<char> { match o { Some('z') => None, None => Some('\u{1F600}'), c => c } }
pub fn o_cptr(o: Option<*const u32>) -> Option<*const u32> { o.map(|p| p.wrapping_add(1)) }
pub fn o_mptr(o: Option<*mut P>) -> Option<*mut P> { match o { Some(p) if p.is_null() => None, None => Some(core::ptr::null_mut()), p => p } }
pub fn o_sptr(o: Option<*const [u32]>) -> usize { match o { None => 77, Some(p) => p.len() } }
pub fn o_sptr2(o: Option<*const [u32]>) -> Option<*const [u32]> { o }
pub fn o_oo(o: Option<Option<u8>>) -> Option<Option<u8>> { match o { None => Some(None), Some(None) => None, Some(Some(x)) => Some(Some(!x)) } }
pub fn o_vec(o: Option<Vec<u32>>) -> Option<Vec<u32>> { match o { None => Some(vec![7]), Some(v) if v.is_empty() => None, Some(mut v) => { v.push(1); Some(v) } } }
pub fn o_res(o: Option<Result<u8, u32>>) -> Option<Result<u8, u32>> { match o { None => Some(Err(3)), Some(Ok(9)) => None, Some(Ok(x)) => Some(Err(x as u32)), Some(Err(e)) => Some(Ok(e as u8)) } }
pub fn o_str(o: Option<&str>) -> Option<&str> { o.map(|s| if s.len() > 1 { &s[1..] } else { s }) }
pub fn o_slice(o: Option<&[u8]>) -> Option<&[u8]> { o.map(|s| if s.len() > 1 { &s[1..] } else { s }) }
pub fn o_p(o: Option<P>) -> Option<P> { o.map(|p| P { a: !p.a, b: p.b }) }
pub fn o_ref<'a>(o: Option<&'a P>) -> Option<&'a u32> { o.map(|p| &p.b) }
pub fn o_mut<'a>(o: Option<&'a mut P>) -> Option<&'a mut u32> { o.map(|p| &mut p.b) }
pub fn o_bool2(o: Option<bool>) -> Option<bool> { match o { None => Some(true), Some(true) => Some(false), Some(false) => None } }
pub fn o_ox(o: Option<Option<X>>, v: u32) -> Option<Option<X>> { match o { None => Some(None), Some(None) => Some(Some(X::make(v))), Some(Some(x)) => if x.val() == v { None } else { Some(Some(x)) } } }
pub fn sl_ref(s: &[&u32]) -> u32 { s.iter().fold(0, |h, x| h ^ **x) }
pub fn sl_ptr(s: &[*const u32]) -> usize { s.iter().filter(|p| p.is_null()).count() }
pub fn sl_opt(s: &[Option<u32>]) -> u32 { s.iter().map(|x| x.unwrap_or(5)).fold(0, |h, x| h.rotate_left(3) ^ x) }
pub fn v_str(v: Vec<&str>) -> usize { v.iter().map(|s| s.len()).sum() }
pub fn v_v(v: Vec<Vec<u8>>) -> usize { v.iter().map(|s| s.len()).sum() }
pub fn vec_of(n: usize, x: u32, y: u32) -> Vec<u32> { let mut v = vec![x]; if n > 1 { v.push(y) } v }
pub fn push_str<'a>(v: &mut Vec<&'a str>, s: &'a str) { v.push(s) }
pub fn push_byte(v: &mut Vec<u8>, b: u8) { v.push(b) }
pub fn push_vec(v: &mut Vec<Vec<u8>>, e: Vec<u8>) { v.push(e) }
pub struct Holder { pub a: Option<isize>, pub b: Option<f32>, pub c: Option<(u8, u32)>, pub d: Option<[u8; 3]>, pub e: Option<*const u32>, pub f: Option<Vec<u32>>, pub g: Option<Result<u8, u32>>, pub h: Option<&'static str> }
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(9).wrapping_add(x) }
impl Holder {
    pub fn make(k: u8, x: u64, p: *const u32) -> Self {
        Holder { a: (k & 1 != 0).then_some(x as isize), b: (k & 2 != 0).then_some(f32::from_bits(x as u32)), c: (k & 4 != 0).then_some((x as u8, (x >> 8) as u32)),
            d: (k & 8 != 0).then_some([x as u8, (x >> 8) as u8, (x >> 16) as u8]), e: (k & 16 != 0).then_some(p), f: (k & 32 != 0).then(|| vec![x as u32; 2]),
            g: (k & 64 != 0).then_some(if x & 1 == 0 { Ok(x as u8) } else { Err(x as u32) }), h: (k & 128 != 0).then_some("ab") }
    }
    pub fn code(&self, p: *const u32) -> u64 {
        let mut h = 1;
        h = mx(h, match self.a { None => 1, Some(x) => mx(2, x as u64) });
        h = mx(h, match self.b { None => 1, Some(x) => mx(2, x.to_bits() as u64) });
        h = mx(h, match self.c { None => 1, Some((x, y)) => mx(mx(2, x as u64), y as u64) });
        h = mx(h, match self.d { None => 1, Some([x, y, z]) => mx(mx(mx(2, x as u64), y as u64), z as u64) });
        h = mx(h, match self.e { None => 1, Some(q) => if q == p { 2 } else { 3 } });
        h = mx(h, match &self.f { None => 1, Some(v) => v.iter().fold(2 + v.len() as u64, |h, x| mx(h, *x as u64)) });
        h = mx(h, match self.g { None => 1, Some(Ok(x)) => mx(2, x as u64), Some(Err(x)) => mx(3, x as u64) });
        mx(h, match self.h { None => 1, Some(s) => s.bytes().fold(2 + s.len() as u64, |h, x| mx(h, x as u64)) })
    }
}
