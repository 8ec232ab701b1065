include!("../../../../rt/vp.rs");
use core::fmt::{Display, Formatter, Result, Write};
use lossy_formatter::LossyFormatter;

struct Sink { b: [u8; 32], n: usize, room: usize }
impl Sink { fn new(room: usize) -> Self { Sink { b: [0; 32], n: 0, room } } }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> Result {
        if s.len() > self.room { return Err(core::fmt::Error); }
        self.room -= s.len();
        for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; }
        Ok(())
    }
}
/// What has been written, and what of it forms the beginning of a character (Unicode, table 3-7).
struct Model { b: [u8; 32], n: usize, hold: [u8; 3], h: usize, need: u8, lo: u8, hi: u8 }
impl Model {
    fn new() -> Self { Model { b: [0; 32], n: 0, hold: [0; 3], h: 0, need: 0, lo: 0x80, hi: 0xBF } }
    fn out(&mut self, x: u8) { self.b[self.n] = x; self.n += 1; }
    fn bad(&mut self) { self.out(0xEF); self.out(0xBF); self.out(0xBD); }
    fn flush(&mut self) { if self.h > 0 { self.h = 0; self.need = 0; self.bad(); } }
    fn byte(&mut self, x: u8) {
        if self.h > 0 {
            if x >= self.lo && x <= self.hi {
                if self.need == 1 {
                    for k in 0..self.h { let y = self.hold[k]; self.out(y); }
                    self.out(x);
                    self.h = 0;
                    self.need = 0;
                } else { self.hold[self.h] = x; self.h += 1; self.need -= 1; self.lo = 0x80; self.hi = 0xBF; }
                return;
            }
            self.flush();
        }
        if x < 0x80 { return self.out(x); }
        let (need, lo, hi) = match x {
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xE1..=0xEF => (2, 0x80, 0xBF),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return self.bad(),
        };
        self.hold[0] = x;
        self.h = 1;
        (self.need, self.lo, self.hi) = (need, lo, hi);
    }
    fn bytes(&mut self, s: &[u8]) { for x in s { self.byte(*x); } }
    fn same(&self, s: &Sink) -> bool { self.n == s.n && self.b[..self.n] == s.b[..self.n] }
    fn begins(&self, s: &Sink) -> bool { s.n <= self.n && self.b[..s.n] == s.b[..s.n] }
}
struct Show<F>(F);
impl<F: Fn(&mut LossyFormatter) -> bool> Display for Show<F> {
    fn fmt(&self, f: &mut Formatter) -> Result {
        let mut l = LossyFormatter::new(f);
        if (self.0)(&mut l) { Ok(()) } else { Err(core::fmt::Error) }
    }
}
/// formats into a sink with room for `room` bytes: (the sink, whether all was written)
fn show(room: usize, f: impl Fn(&mut LossyFormatter) -> bool) -> (Sink, bool) {
    let mut s = Sink::new(room);
    let ok = write!(s, "{}", Show(f)).is_ok();
    (s, ok)
}
/// writes d in one of several ways
fn put(l: &mut LossyFormatter, d: &[u8], how: usize) -> bool {
    match how {
        0 => l.write_slice(d) == d.len(),
        1 => d.iter().all(|x| l.write_byte(*x).is_ok()),
        _ => d.iter().all(|x| l.write_fill(1, *x) == 1),
    }
}
fn split<const N: usize>(d: [u8; N], k: usize, how: (usize, usize), end: bool) {
    let (s, ok) = show(32, |l| put(l, &d[..k], how.0) && put(l, &d[k..], how.1) && (!end || l.flush()));
    let mut m = Model::new();
    m.bytes(&d);
    if end { m.flush(); }
    VP_CHECK!(ok && m.same(&s));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_slice() { split(vp::bytes::<3>(), 3, (0, 0), vp::bool()) }
#[unsafe(no_mangle)]
pub extern "C" fn h_bytes() { split(vp::bytes::<3>(), 3, (1, 0), vp::bool()) }
#[unsafe(no_mangle)]
pub extern "C" fn h_split() {
    let how = [(0, 1), (1, 0), (0, 0), (2, 0), (1, 2)][vp::pick(5)];
    split(vp::bytes::<2>(), 1, how, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_split_slices() { split(vp::bytes::<3>(), 1, (0, 0), true) }
/// every position within a four-byte character, and what may follow it
#[unsafe(no_mangle)]
pub extern "C" fn h_four() {
    let mut d = vp::bytes::<5>();
    d[0] = [0xF0, 0xF1, 0xF4][vp::pick(3)];
    vp::assume(d[1] >= 0x80 && d[1] <= 0xBF);
    vp::assume(d[2] >= 0x80 && d[2] <= 0xBF);
    let (k, how) = [(1, (0, 0)), (2, (0, 1)), (3, (1, 0)), (4, (0, 0))][vp::pick(4)];
    split(d, k, how, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_three() {
    let mut d = vp::bytes::<4>();
    d[0] = [0xE0, 0xE5, 0xED][vp::pick(3)];
    vp::assume(d[1] >= 0x80 && d[1] <= 0xBF);
    let (k, how) = [(1, (1, 0)), (2, (0, 1)), (3, (0, 0))][vp::pick(3)];
    split(d, k, how, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fill() {
    let (x, n, at) = (vp::u8(), vp::pick(5), vp::pick(6));
    let pre: &[u8] = [&b"a"[..], b"", b"\xC3", b"\xE2\x82", b"\xF0\x9F\x92", b"\xED"][at];
    let (s, ok) = show(32, |l| {
        let a = put(l, pre, 0);
        a && l.write_fill(n, x) == n && l.write_slice(b"\x96z") == 2 && l.flush()
    });
    let mut m = Model::new();
    m.bytes(pre);
    for _ in 0..n { m.byte(x); }
    m.bytes(b"\x96z");
    m.flush();
    VP_CHECK!(ok && m.same(&s));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_flush_between() {
    let d = vp::bytes::<2>();
    let pre: &[u8] = [&b""[..], b"\xC3", b"\xE2\x82", b"\xF0\x9F\x92"][vp::pick(4)];
    let (s, ok) = show(32, |l| {
        let a = put(l, pre, 1) && put(l, &d[..1], 0) && l.flush() && l.flush();
        a && l.write_slice(&[]) == 0 && l.write_fill(0, b'x') == 0 && put(l, &d[1..], 1) && l.flush()
    });
    let mut m = Model::new();
    m.bytes(pre);
    m.byte(d[0]);
    m.flush();
    m.byte(d[1]);
    m.flush();
    VP_CHECK!(ok && m.same(&s));
}
/// a writer that runs out of room: everything up to there is written, and the error is reported
#[unsafe(no_mangle)]
pub extern "C" fn h_full() {
    let (d, room, how) = (vp::bytes::<2>(), vp::pick(8), vp::pick(3));
    let (s, ok) = show(room, |l| put(l, &d, how) && l.flush());
    let mut m = Model::new();
    m.bytes(&d);
    m.flush();
    VP_CHECK!(m.begins(&s) && ok == (m.n <= room) && ok == m.same(&s));
}
/// the count returned says how many bytes were dealt with before the error
#[unsafe(no_mangle)]
pub extern "C" fn h_full_count() {
    let (d, room, fill) = (vp::bytes::<2>(), vp::pick(7), vp::bool());
    let got = core::cell::Cell::new(0);
    let (s, _) = show(room, |l| {
        got.set(if fill { l.write_fill(2, d[0]) } else { l.write_slice(&d) });
        true
    });
    let done = got.get();
    let d = if fill { [d[0]; 2] } else { d };
    VP_CHECK!(done <= 2);
    let mut m = Model::new();
    m.bytes(&d);
    VP_CHECK!(m.begins(&s) && (done == 2) == m.same(&s));
    // what was dealt with, and no more, has been written
    let mut m = Model::new();
    if done < 2 {
        m.bytes(&d[..done]);
        VP_CHECK!(s.n + 3 >= m.n); // VP_MAYBE
        VP_CHECK!(m.begins(&s) || s.n > m.n); // VP_MAYBE
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_t_split() {
    let k = 1 + vp::pick(3);
    split(vp::bytes::<3>(), if k == 3 { 0 } else { k }, (vp::pick(3), vp::pick(2)), true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_t_four() {
    let mut d = vp::bytes::<5>();
    d[0] = [0xF0, 0xF2, 0xF4][vp::pick(3)];
    vp::assume(d[1] >= 0x80 && d[1] <= 0xBF);
    let k = 1 + vp::pick(4);
    split(d, k, (vp::pick(3), vp::pick(2)), true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_t_full() {
    let (d, room, how) = (vp::bytes::<3>(), vp::pick(8), vp::pick(3));
    let (s, ok) = show(room, |l| put(l, &d, how) && l.flush());
    let mut m = Model::new();
    m.bytes(&d);
    m.flush();
    VP_CHECK!(m.begins(&s) && ok == (m.n <= room) && ok == m.same(&s));
}
