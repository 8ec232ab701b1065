include!("../../../../rt/vp.rs");
use crubit_bridge_rust::{internal, transmute_abi, unstable_encode, unstable_return, CrubitAbi, Decoder, Encoder, OptionAbi, TransmuteAbi};
type T<X> = TransmuteAbi<X>;
fn mx(h: u64, x: u64) -> u64 { h.rotate_left(13).wrapping_add(x) }
/// How a decoded value is observed: a digest that depends on every leaf and every variant.
pub trait Dg { fn dg(&self, h: u64) -> u64; }
macro_rules! leaf { ($($t:ty)*) => { $( impl Dg for $t { fn dg(&self, h: u64) -> u64 { mx(h, *self as u64) } } )* } }
leaf!(u8 u16 u32 u64 i64 bool);
impl Dg for f64 { fn dg(&self, h: u64) -> u64 { mx(h, self.to_bits()) } }
impl Dg for f32 { fn dg(&self, h: u64) -> u64 { mx(h, self.to_bits() as u64) } }
#[repr(C)] #[derive(Clone, Copy)] pub struct P { a: u8, b: u32, c: u16 }
impl Dg for P { fn dg(&self, h: u64) -> u64 { mx(mx(mx(h, self.a as u64), self.b as u64), self.c as u64) } }
#[repr(C)] pub struct Own { p: *mut u32 }
impl Dg for Own { fn dg(&self, h: u64) -> u64 { mx(h, unsafe { *self.p } as u64) } }
impl Dg for Box<u32> { fn dg(&self, h: u64) -> u64 { mx(h, **self as u64) } }
impl Dg for () { fn dg(&self, h: u64) -> u64 { mx(h, 0x55) } }
impl<A: Dg> Dg for Option<A> { fn dg(&self, h: u64) -> u64 { match self { None => mx(h, 0x77), Some(x) => x.dg(mx(h, 0x78)) } } }
macro_rules! tup { ($($A:ident $i:tt),*) => { impl<$($A: Dg),*> Dg for ($($A,)*) { fn dg(&self, h: u64) -> u64 { $( let h = self.$i.dg(h); )* h } } } }
tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, C 2); tup!(A 0, B 1, C 2, D 3); tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
macro_rules! shapes { ($($n:ident $sz:ident $dg:ident $rt:ident: $a:ty;)*) => { $(
    pub type $n = $a;
    #[no_mangle] pub extern "C" fn $sz() -> usize { <$a as CrubitAbi>::SIZE }
    #[no_mangle] pub unsafe extern "C" fn $dg(buf: *const u8) -> u64 { internal::decode::<$a>(<$a>::default(), buf).dg(0) }
    /// Decodes what C++ sent and sends it back through a second buffer.
    #[no_mangle] pub unsafe extern "C" fn $rt(buf: *const u8, out: *mut u8) { let v = internal::decode::<$a>(<$a>::default(), buf); internal::encode::<$a>(<$a>::default(), out, v) }
)* } }
shapes! {
    S0 sz0 dg0 rt0: T<u32>;
    S1 sz1 dg1 rt1: (T<u8>, T<u32>, T<u16>);
    S2 sz2 dg2 rt2: (OptionAbi<(T<i64>, T<bool>)>, (T<u8>, T<f32>));
    S3 sz3 dg3 rt3: OptionAbi<OptionAbi<T<u8>>>;
    S4 sz4 dg4 rt4: (T<u8>, OptionAbi<T<u64>>, OptionAbi<T<u16>>, T<P>, T<f64>);
    S5 sz5 dg5 rt5: (T<u8>, T<u16>, T<u32>, T<u64>, T<bool>, T<i64>, T<f64>, T<u8>, T<u8>, T<u16>, T<u32>, T<P>);
    S6 sz6 dg6 rt6: (OptionAbi<(T<u8>, OptionAbi<T<u16>>)>, T<u8>);
    S7 sz7 dg7 rt7: ();
    S8 sz8 dg8 rt8: OptionAbi<()>;
    S9 sz9 dg9 rt9: (T<u8>, (T<u16>, (T<u32>, (T<u8>,))));
    S10 sz10 dg10 rt10: OptionAbi<(OptionAbi<T<u8>>, OptionAbi<OptionAbi<T<u32>>>, T<u8>)>;
    S11 sz11 dg11 rt11: T<P>;
}
/// Owned values: moved through, not duplicated.
#[no_mangle] pub unsafe extern "C" fn own_dg(buf: *const u8) -> u64 { let v = internal::decode::<(T<Own>, T<u8>, OptionAbi<T<Own>>)>(Default::default(), buf); v.dg(0) }
#[no_mangle] pub unsafe extern "C" fn own_rt(buf: *const u8, out: *mut u8, swap: bool) {
    let (a, k, o) = internal::decode::<(T<Own>, T<u8>, OptionAbi<T<Own>>)>(Default::default(), buf);
    let (a, o) = match o { Some(b) if swap => (b, Some(a)), o => (a, o) };
    internal::encode::<(T<Own>, T<u8>, OptionAbi<T<Own>>)>(Default::default(), out, (a, k, o))
}
#[no_mangle] pub extern "C" fn own_sz() -> usize { <(T<Own>, T<u8>, OptionAbi<T<Own>>)>::SIZE }
#[no_mangle] pub extern "C" fn ptr_sz() -> usize { <(T<*mut u32>, OptionAbi<T<*mut u32>>)>::SIZE }
#[no_mangle] pub unsafe extern "C" fn ptr_swap(buf: *const u8, out: *mut u8) {
    let (a, b) = internal::decode::<(T<*mut u32>, OptionAbi<T<*mut u32>>)>(Default::default(), buf);
    let v = match b { Some(b) => (b, Some(a)), None => (a, None) };
    internal::encode::<(T<*mut u32>, OptionAbi<T<*mut u32>>)>(Default::default(), out, v)
}
macro_rules! h { ($($n:ident $b:block)*) => { $( #[no_mangle] pub extern "C" fn $n() $b )* } }
fn ob() -> Option<u8> { if vp::bool() { Some(vp::u8()) } else { None } }
h! {
    h_rust_pair {
        let v = (vp::u8(), (vp::u32(), vp::u16()));
        type A = (T<u8>, (T<u32>, T<u16>));
        let b = unstable_encode!(@ (transmute_abi(), (transmute_abi(), transmute_abi())), A, v);
        let w = unsafe { internal::decode::<A>(Default::default(), b.as_ptr() as *const u8) };
        VP_CHECK!(v == w && b.len() == 7);
    }
    h_rust_option {
        let v = if vp::bool() { Some((ob(), vp::u64())) } else { None };
        type A = OptionAbi<(OptionAbi<T<u8>>, T<u64>)>;
        let mut buf = vp::bytes::<11>();
        unsafe { internal::encode::<A>(Default::default(), buf.as_mut_ptr(), v) };
        let w = unsafe { internal::decode::<A>(Default::default(), buf.as_ptr()) };
        VP_CHECK!(v == w && A::SIZE == 11);
    }
    h_rust_owner {
        let heap = vp::live_heap();
        let (x, y, k) = (vp::u32(), vp::u32(), vp::u8());
        {
            let v = (Box::new(x), if k & 1 == 1 { Some(Box::new(y)) } else { None }, k);
            type A = (T<Box<u32>>, OptionAbi<T<Box<u32>>>, T<u8>);
            let b = unstable_encode!(@ A::default(), A, v);
            VP_CHECK!(vp::live_heap() == heap + 1 + (k & 1) as i32);
            let (p, q, r) = unsafe { internal::decode::<A>(Default::default(), b.as_ptr() as *const u8) };
            VP_CHECK!(*p == x && r == k && q.as_deref() == if k & 1 == 1 { Some(&y) } else { None });
        }
        VP_CHECK!(vp::live_heap() == heap);
    }
    h_rust_callback {
        let (x, y) = (vp::u16(), ob());
        type A = (T<u16>, OptionAbi<T<u8>>);
        let r = unstable_return!(@ A::default(), A, |p: *mut u8| unsafe { internal::encode::<A>(Default::default(), p, (x, y)) });
        VP_CHECK!(r == (x, y));
    }
    h_rust_custom {
        let (x, y) = (vp::u16(), vp::u8());
        let mut buf = vp::bytes::<3>();
        unsafe { internal::encode(Swap, buf.as_mut_ptr(), (x, y)) };
        let w = unsafe { internal::decode(Swap, buf.as_ptr()) };
        VP_CHECK!(w == (x, y));
    }
}
/// A hand-written ABI composed of others, as the documentation describes.
pub struct Swap;
unsafe impl CrubitAbi for Swap {
    type Value = (u16, u8);
    const SIZE: usize = 3;
    fn encode(self, v: (u16, u8), e: &mut Encoder) { transmute_abi().encode(v.1, e); transmute_abi().encode(v.0, e) }
    unsafe fn decode(self, d: &mut Decoder) -> (u16, u8) { let b = transmute_abi().decode(d); let a = transmute_abi().decode(d); (a, b) }
}
