extern crate lossy_formatter_for_bindings;
use core::fmt::{Display, Result, Write};
use ctor::CtorNew;
use sample::*;
struct Sink { b: [u8; 24], n: usize, room: usize }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> Result {
        if s.len() > self.room { return Err(core::fmt::Error); }
        self.room -= s.len();
        for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; }
        Ok(())
    }
}
impl Sink { fn is(&self, e: &[&[u8]]) -> bool {
    let mut k = 0;
    for p in e {
        if k + p.len() > self.n || &self.b[k..k + p.len()] != *p { return false; }
        k += p.len();
    }
    k == self.n
} }
fn room(r: usize, d: &dyn Display) -> (Sink, bool) {
    let mut s = Sink { b: [0; 24], n: 0, room: r };
    let ok = write!(s, "{}", d).is_ok();
    (s, ok)
}
fn show(d: &dyn Display) -> Sink { let (s, ok) = room(24, d); VP_CHECK!(ok); s }
const BAD: &[u8] = b"\xEF\xBF\xBD";
/// one byte on its own
fn one(x: &u8) -> &[u8] { if *x < 0x80 { core::slice::from_ref(x) } else { BAD } }

fn text(b: [u8; 4], n: u8) -> Text {
    let mut t = Text::default();
    unsafe { (&raw mut t as *mut [u8; 4]).write(b); }
    t.n = n;
    t
}
#[unsafe(no_mangle)]
pub extern "C" fn h_friend() {
    let (b, n) = (vp::bytes::<4>(), vp::pick(3) as u8);
    let s = show(&text(b, n));
    if n == 0 { VP_CHECK!(s.is(&[b"<>>"])); }
    else if n == 1 { VP_CHECK!(s.is(&[b"<", one(&b[0]), b">>"])); }
    else if (0xC2..0xE0).contains(&b[0]) && b[1] & 0xC0 == 0x80 { VP_CHECK!(s.is(&[b"<", &b[..2], b">>"])); }
    else if (b[0] == 0xE0 && (0xA0..0xC0).contains(&b[1])) || (b[0] == 0xF0 && (0x90..0xC0).contains(&b[1])) || (b[0] == 0xED && (0x80..0xA0).contains(&b[1])) ||
        (b[0] == 0xF4 && (0x80..0x90).contains(&b[1])) || (matches!(b[0], 0xE1..=0xEC | 0xEE | 0xEF | 0xF1..=0xF3) && b[1] & 0xC0 == 0x80) { VP_CHECK!(s.is(&[b"<", BAD, b">>"])); }
    else { VP_CHECK!(s.is(&[b"<", one(&b[0]), one(&b[1]), b">>"])); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_enum() {
    let x = vp::u8();
    let s = show(&Color::from(x));
    if x == 0 { VP_CHECK!(s.is(&[b"red"])); }
    else if x & 0xC0 == 0x80 { VP_CHECK!(s.is(&[&[0xCE, x]])); }
    else { VP_CHECK!(s.is(&[BAD, one(&x)])); }
    let n = vp::pick(4) as u8;
    let s = show(&paint::Color::from(n));
    VP_CHECK!(s.is(&[&b"bbb"[..n as usize]]));
    let p = vp::u8();
    let s = show(&Plain::from(p));
    VP_CHECK!(s.is(&[if p == 1 { b"one" } else { BAD }]));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_namespace() {
    let (n, x) = (vp::pick(3), vp::u8());
    let b = paint::Brush::from((paint::Color::from(n as u8), x));
    let s = show(&b);
    VP_CHECK!(s.is(&[&b"bb"[..n], &BAD.repeat(3)[..3 * (x as usize & 3)]]));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_stream() {
    let mut p = Piece::default();
    (p.a, p.b, p.flush, p.end) = (vp::u8(), vp::u8(), vp::bool(), vp::bool());
    vp::assume(p.a < 0xE0);
    let s = show(&p);
    let end = if p.end { BAD } else { b"" };
    if (0xC2..0xE0).contains(&p.a) && p.b & 0xC0 == 0x80 && !p.flush { VP_CHECK!(s.is(&[b"[", &[p.a, p.b], end])); }
    else { VP_CHECK!(s.is(&[b"[", one(&p.a), one(&p.b), end])); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pinned() {
    let v = vp::u16() as u64;
    let heap = vp::live_heap();
    {
        let h = ctor::emplace!(<Held as CtorNew<u64>>::ctor_new(v));
        let (a, b) = (v as u8, (v >> 8) as u8);
        vp::assume(a < 0xC0);
        let s = show(&*h);
        VP_CHECK!(s.is(&[one(&a), one(&b), b"!"]));
    }
    VP_CHECK!(vp::live_heap() == heap);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_both() {
    let mut b = Both::default();
    b.v = vp::u8();
    VP_CHECK!(show(&b).is(&[&b"yyy"[..b.v as usize & 3]]));
}
/// an error of the writer comes back through C++, and nothing is written after it
#[unsafe(no_mangle)]
pub extern "C" fn h_error() {
    let (r, kind) = (vp::pick(7), vp::pick(3));
    let (s, ok, e) = if kind == 0 {
        let (s, ok) = room(r, &text([b'a', b'b', b'c', 0], 3));
        (s, ok, &b"<abc>>"[..])
    } else if kind == 1 {
        let mut p = Piece::default();
        (p.a, p.b, p.flush, p.end) = (b'x', b'y', vp::bool(), vp::bool());
        let (s, ok) = room(r, &p);
        (s, ok, if p.end { &b"[xy\xEF\xBF\xBD"[..] } else { &b"[xy"[..] })
    } else {
        let (s, ok) = room(r, &Color::from(b'z'));
        (s, ok, &b"\xEF\xBF\xBDz"[..])
    };
    VP_CHECK!(ok == (r >= e.len()));
    VP_CHECK!(s.n <= e.len() && s.is(&[&e[..s.n]]) && ok == (s.n == e.len()));
}
