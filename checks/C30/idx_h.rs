use sample::*;
use ctor::CtorNew;
use core::pin::Pin;
use operator::{CcIndex, CcIndexMut};

fn cell(a: u32, b: u8) -> Cell { let mut c = Cell::default(); (c.a, c.b) = (a, b); c }
fn pos(r: u8, c: u8) -> Pos { let mut p = Pos::default(); (p.r, p.c) = (r, c); p }

#[unsafe(no_mangle)]
pub extern "C" fn h_index_value() {
    let (i, j, a, b) = (vp::u8(), vp::u8(), vp::u32(), vp::u8());
    let mut r = Row::default();
    r[pos(1, i)] = cell(a, b);
    VP_CHECK!(r[pos(0, i)].a == a && r[pos(0, i)].b == b);
    r[pos(9, j)].b ^= 1;
    let same = i & 3 == j & 3;
    VP_CHECK!(r[pos(0, i)].a == a && r[pos(0, i)].b == b ^ same as u8);
    VP_CHECK!(&raw const r[pos(7, i)] as usize == &raw const r as usize + 8 * (i as usize & 3));
    VP_CHECK!(&raw mut r[pos(7, j)] as usize == &raw const r as usize + 8 * (j as usize & 3));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_index_ref() {
    let (p, q, a) = (pos(vp::u8(), vp::u8()), pos(vp::u8(), vp::u8()), vp::u32());
    let mut g = Grid::default();
    g[&p][p].a = a;
    VP_CHECK!(g[&p][p].a == a && g.cc_index(&p).cc_index(p).a == a);
    let off = |x: &Pos| 32 * (x.r as usize & 1) + 8 * (x.c as usize & 3);
    VP_CHECK!(&raw const g[&q][q] as usize - &raw const g as usize == off(&q));
    VP_CHECK!(&raw mut g[&q][q] as usize - &raw const g as usize == off(&q));
    VP_CHECK!((g[&q][q].a == a) == (off(&p) == off(&q) || a == 0));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_index_pinned() {
    let (v, w, i, j) = (vp::u64(), vp::u64(), vp::u8(), vp::u8());
    let mut p = ctor::emplace!(<Pinned as CtorNew<u64>>::ctor_new(v));
    VP_CHECK!(*p.cc_index(i) == if i & 1 == 0 { v } else { !v });
    VP_CHECK!(p.as_mut()[i] == if i & 1 == 0 { v } else { !v });
    p.as_mut()[j] = w;
    let want = if i & 1 == j & 1 { w } else if i & 1 == 0 { v } else { !v };
    VP_CHECK!(p.as_mut()[i] == want && *p.as_mut().cc_index_mut(i) == want);
    *p.as_mut().cc_index_mut(i) = v;
    VP_CHECK!(*p.cc_index(i) == v && *p.cc_index(j) == if i & 1 == j & 1 { v } else { w });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_index_single() {
    let (v, w, i, j, s) = (vp::u64(), vp::u64(), vp::u32(), vp::u64() as i64, vp::u16());
    let at = s as usize & 3;
    let mut m = Mixed::default();
    unsafe { (&raw mut m as *mut [u64; 2]).write([v, w]); }
    VP_CHECK!(m[i] == [v, w][i as usize & 1]);
    VP_CHECK!(*Pin::new(&mut m).cc_index_mut(j) == if j & 1 == 1 { v } else { w });
    let mut o = OnlyMut::default();
    *Pin::new(&mut o).cc_index_mut(s) = v;
    let o = unsafe { (&raw const o as *const [u64; 4]).read() };
    VP_CHECK!(o[at] == v && o[at ^ 1] == 0 && o[at ^ 2] == 0 && o[at ^ 3] == 0);
    let mut c = OnlyConst::default();
    let e = [v, w, v ^ w, !v];
    unsafe { (&raw mut c as *mut [u64; 4]).write(e); }
    VP_CHECK!(c[s as i8] == e[at] && *c.cc_index(s as i8) == e[at]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_index_enum() {
    let (l, r, left) = (vp::u16(), vp::u16(), vp::bool());
    let mut b = BySide::default();
    b[Side::kLeft] = l;
    b[Side::kRight] = r;
    VP_CHECK!(b.left == l && b.right == r);
    VP_CHECK!(b[if left { Side::kLeft } else { Side::kRight }] == if left { l } else { r });
}
