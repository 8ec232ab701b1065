// Oracle: sizes and alignments as rustc lays the types out.
use lay::*;
macro_rules! sz { ($($f:ident = $t:ty;)*) => { $(
    #[unsafe(no_mangle)] pub extern "C" fn $f() -> u64 { (core::mem::size_of::<$t>() * 64 + core::mem::align_of::<$t>()) as u64 })* } }
sz! {
    l_Reordered = Reordered; l_ReprC = ReprC; l_Packed = Packed; l_Packed2 = Packed2; l_Aligned = Aligned; l_Mixed = Mixed; l_Partly = Partly;
    l_Inner = Inner; l_Outer = Outer; l_Tup = Tup; l_TupPriv = TupPriv; l_WithArr = WithArr; l_WithZst = WithZst; l_Transparent = Transparent;
    l_Keyworded = Keyworded; l_SameName = SameName; l_Un = Un; l_UnC = UnC; l_HoldsUnion = HoldsUnion; l_Big = Big; l_OneF = OneF; l_TwoF = TwoF;
    l_FD = FD; l_IF = IF; l_LongInt = LongInt; l_Three = Three; l_HasTup = HasTup;
}
