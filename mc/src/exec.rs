//! Running futures: every poll is made by the harness.
use crate::engine::{bad, R};
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Poll until ready; a future that is pending without having been woken is stuck
pub fn run<F: Future>(f: F) -> R<F::Output> {
    let mut f = Box::pin(f);
    match poll_up_to(&mut f, 100_000)? {
        Some(r) => Ok(r),
        None => bad("a future did not complete within 100000 polls"),
    }
}

/// Poll at most `n` times
pub fn poll_up_to<F: Future + ?Sized>(f: &mut Pin<Box<F>>, n: usize) -> R<Option<F::Output>> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    for _ in 0..n {
        flag.0.store(false, Ordering::SeqCst);
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(r) => return Ok(Some(r)),
            Poll::Pending => {
                if !flag.0.load(Ordering::SeqCst) {
                    return bad("a future is pending, but nothing will ever wake it");
                }
            }
        }
    }
    Ok(None)
}

/// Pending once, then ready
pub struct Suspend(pub bool);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
