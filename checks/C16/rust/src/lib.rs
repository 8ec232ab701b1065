#![feature(negative_impls, adt_const_params, unsized_const_params)]
#![allow(incomplete_features)]
include!("../../../../rt/vp.rs");
include!("../../casts.rs");
/// cref::CRef and CMut take part in casts.
#[unsafe(no_mangle)] pub extern "C" fn h_cref_cast() {
    let mut m = table();
    let i = vp::pick(4);
    let old = (m[i].a, m[i].b);
    let c: CRef<Far1> = CRef::from_ref(&m[i]).cpp_cast();
    VP_CHECK!(CRef::as_ptr(c) as usize == &m[i] as *const Far as usize);
    let p: Pin<&Far2> = c.cpp_cast();
    let d: CRef<Far> = p.cpp_cast();
    VP_CHECK!(unsafe { (*CRef::as_ptr(d)).a == old.0 && (*CRef::as_ptr(d)).b == old.1 });
    let v = vp::u32();
    let w: CMut<Far1> = CMut::from_ref(&mut m[i]).cpp_cast();
    let x: CMut<Far> = w.cpp_cast();
    unsafe { CMut::unpin_unique(x).a = v };
    VP_CHECK!(m[i].a == v && m[i].b == old.1);
    VP_CHECK!(casts!(CRef<'static, Far> => CRef<'static, Far1>) && casts!(CRef<'static, Far> => &'static Far) && casts!(CMut<'static, Far1> => Pin<&'static mut Far2>));
    VP_CHECK!(!casts!(CRef<'static, Far> => CMut<'static, Far>) && !casts!(CMut<'static, Far> => CRef<'static, Far>) && !casts!(CRef<'static, Far> => CRef<'static, Other1>) && !casts!(CMut<'static, Far> => &'static Far));
}
