//! Makers of `DynFuture`s.
use dyn_future::DynFuture;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll, Waker};

pub fn mix(h: u64, x: u64) -> u64 { h.rotate_left(7).wrapping_add(x) }

/// See fut.rs.
struct Steps { plan: u32, kept: Option<Waker> }
impl Future for Steps {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let step = self.plan % 10;
        self.plan /= 10;
        match step {
            1 => {}
            2 => cx.waker().wake_by_ref(),
            3 => self.kept = Some(cx.waker().clone()),
            4 => cx.waker().clone().wake(),
            5 => if let Some(w) = self.kept.take() { w.wake() },
            _ => return Poll::Ready(self.plan),
        }
        Poll::Pending
    }
}

static SEEN: AtomicU64 = AtomicU64::new(0);
pub fn seen() -> u64 { SEEN.load(SeqCst) }
pub fn clear_seen() { SEEN.store(0, SeqCst) }

struct Held(Box<u32>);
impl Drop for Held { fn drop(&mut self) { SEEN.store(mix(SEEN.load(SeqCst), *self.0 as u64), SeqCst) } }

pub fn make(x: u32, plan: u32) -> DynFuture<'static> {
    let h = Held(Box::new(x));
    DynFuture::from_future(async move {
        let left = Steps { plan, kept: None }.await;
        SEEN.store(mix(SEEN.load(SeqCst), left as u64), SeqCst);
        drop(h);
    })
}
pub fn store(o: &mut u32, x: u32, plan: u32) -> DynFuture<'_> {
    DynFuture::from_future(async move { Steps { plan, kept: None }.await; *o = x })
}
/// Runs another to its end.
pub fn after(f: DynFuture<'static>, x: u32) -> DynFuture<'static> {
    let f: Option<Pin<Box<dyn Future<Output = ()> + Send>>> = f.into();
    DynFuture::from_future(async move {
        if let Some(f) = f { f.await; SEEN.store(mix(SEEN.load(SeqCst), x as u64), SeqCst) }
    })
}
