//! Async functions and methods, with futures that finish at once, later, or never.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll, Waker};

pub fn mix(h: u64, x: u64) -> u64 { h.rotate_left(7).wrapping_add(x) }

/// An owner of a heap block.
pub struct Own(Box<u32>);
impl Own {
    pub fn make(x: u32) -> Self { Own(Box::new(x)) }
    pub fn get(&self) -> u32 { *self.0 }
}
impl Default for Own { fn default() -> Self { Own::make(0) } }

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Plain { pub a: u8, pub b: u64, pub c: u16 }

#[derive(Clone, Copy)]
#[repr(u8)]
pub enum Kind { Zero, One = 5, Last = 200 }

/// Does what the decimal digits of the plan say, lowest first, each time it is polled: 0 is finished;
/// 1 pends; 2 wakes by reference and pends; 3 keeps a clone of the waker and pends; 4 wakes a clone by value and pends;
/// 5 wakes the kept one by value and pends.
struct Steps { plan: u32, kept: Option<Waker> }
impl Future for Steps {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let step = self.plan % 10;
        self.plan /= 10;
        match step {
            1 => {}
            2 => cx.waker().wake_by_ref(),
            3 => self.kept = Some(cx.waker().clone()),
            4 => cx.waker().clone().wake(),
            5 => if let Some(w) = self.kept.take() { w.wake() },
            _ => return Poll::Ready(self.plan),
        }
        Poll::Pending
    }
}
fn steps(plan: u32) -> Steps { Steps { plan, kept: None } }

pub async fn value(x: u32, y: u64, plan: u32) -> u64 {
    steps(plan).await;
    mix(mix(1, x as u64), y)
}
pub async fn byte(x: u8, plan: u32) -> u8 { steps(plan).await; x ^ 0x5a }
pub async fn yes(x: i16, plan: u32) -> bool { steps(plan).await; x > 3 }
pub async fn float(x: u32, plan: u32) -> f64 { steps(plan).await; f64::from_bits((x as u64) << 20) }
pub async fn plain(a: u8, b: u64, c: u16, plan: u32) -> Plain { steps(plan).await; Plain { a, b, c } }
pub async fn kind(k: Kind, plan: u32) -> Kind {
    steps(plan).await;
    match k { Kind::Zero => Kind::One, Kind::One => Kind::Last, Kind::Last => Kind::Zero }
}

static SEEN: AtomicU64 = AtomicU64::new(0);
pub fn seen() -> u64 { SEEN.load(SeqCst) }
pub fn clear_seen() { SEEN.store(0, SeqCst) }
pub async fn nothing(x: u32, plan: u32) { steps(plan).await; SEEN.store(mix(9, x as u64), SeqCst) }

pub async fn owned(o: Own, plan: u32) -> Own {
    let k = Own::make(o.get() ^ 1);
    steps(plan).await;
    Own::make(o.get().wrapping_add(k.get()))
}
pub async fn pass(o: Own, plan: u32) -> Own { steps(plan).await; o }
pub async fn twice(o: Own, p: Own, plan: u32, again: u32) -> u64 {
    let h = mix(steps(plan).await as u64, o.get() as u64);
    drop(o);
    let t = steps(again).await as u64;
    mix(mix(h, t), p.get() as u64)
}
pub async fn sum(s: &[u32], plan: u32) -> u64 {
    steps(plan).await;
    s.iter().fold(s.len() as u64, |h, x| mix(h, *x as u64))
}
pub async fn change(o: &mut Own, x: u32, plan: u32) -> u32 {
    let old = o.get();
    *o = Own::make(x);
    steps(plan).await;
    *o = Own::make(o.get() ^ 7);
    old
}

impl Own {
    pub async fn read(&self, x: u32, plan: u32) -> u32 { steps(plan).await; self.get() ^ x }
    pub async fn write(&mut self, x: u32, plan: u32) { steps(plan).await; *self.0 = x }
    pub async fn eat(self, plan: u32) -> u32 { steps(plan).await; self.get() }
    pub async fn fresh(x: u32, plan: u32) -> Own { steps(plan).await; Own::make(x) }
}

// Outputs that C++ has to see with Rust's layout.
pub async fn pair(a: u8, b: u64, c: u16, plan: u32) -> (u8, u64, u16) { steps(plan).await; (a, b, c) }
pub async fn own_pair(o: Own, b: u8, plan: u32) -> (u8, Own) { steps(plan).await; (b, o) }
pub async fn nested(a: u8, b: u32, plan: u32) -> [(u8, u32); 2] { steps(plan).await; [(a, b), (!a, !b)] }
pub async fn array(a: u8, b: u8, plan: u32) -> [u8; 3] { steps(plan).await; [a, b, a ^ b] }
pub async fn letter(c: char, plan: u32) -> char { steps(plan).await; c }
pub async fn text(s: &str, plan: u32) -> &str { steps(plan).await; s }
pub async fn tail(s: &[u32], plan: u32) -> &[u32] { steps(plan).await; if s.is_empty() { s } else { &s[1..] } }
pub async fn pick<'a>(a: &'a u32, b: &'a u32, first: bool, plan: u32) -> &'a u32 { steps(plan).await; if first { a } else { b } }
pub async fn slot(o: &mut Own, plan: u32) -> &mut u32 { steps(plan).await; &mut o.0 }
pub async fn size(x: usize, y: isize, plan: u32) -> usize { steps(plan).await; x.wrapping_sub(y as usize) }
pub async fn checked(x: u32, y: u8, plan: u32) -> Result<u32, u8> { steps(plan).await; if x > 9 { Ok(x) } else { Err(y) } }
pub async fn own_or(x: u32, y: u8, plan: u32) -> Result<Own, u8> { steps(plan).await; if x > 9 { Ok(Own::make(x)) } else { Err(y) } }
pub async fn maybe_ref(x: &u32, some: bool, plan: u32) -> Option<&u32> { steps(plan).await; if some { Some(x) } else { None } }
pub async fn maybe(x: u32, some: bool, plan: u32) -> Option<u32> { steps(plan).await; if some { Some(x) } else { None } }
pub async fn many(n: u8, x: u32, plan: u32) -> Vec<u32> { steps(plan).await; (0..n as u32).map(|i| x.wrapping_add(i)).collect() }
pub async fn callback(k: u32, plan: u32) -> extern "C" fn(u32) -> u32 { steps(plan).await; if k > 3 { inc } else { dbl } }
extern "C" fn inc(x: u32) -> u32 { x + 1 }
extern "C" fn dbl(x: u32) -> u32 { x * 2 }
