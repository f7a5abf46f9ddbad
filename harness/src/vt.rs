//! Virtual time: the real actors on a single-threaded runtime whose clock only moves when idle.
use crate::core::in_lib;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::task::LocalSet;
use tokio::time::Instant;

/// Longest virtual time a request may stay unanswered: it is only reached when nothing else in the
/// runtime can run before that, timers included.
pub const PATIENCE: Duration = Duration::from_secs(20_000);

pub fn run<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let ls = LocalSet::new();
    let r = on_task(&rt, &ls, f);
    in_lib(|| drop(ls));
    r
}
/// Runs `f` as one task among those of the actors, not as the main future (which tokio polls only after
/// up to 61 task steps): between two polls of `f` every actor that is ready takes one step.
pub fn on_task<T>(rt: &tokio::runtime::Runtime, ls: &LocalSet, f: impl Future<Output = T>) -> T {
    let mut out: Option<std::thread::Result<T>> = None;
    {
        let slot = SendPtr(&mut out as *mut _);
        let body: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move {
            let slot = slot;
            let r = futures_util::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(f)).await;
            // SAFETY: `out` outlives the task, which is awaited right below
            unsafe { *slot.0 = Some(r) };
        });
        // SAFETY: the task ends before this function returns: it catches its panics and is awaited
        let body: Pin<Box<dyn Future<Output = ()>>> = unsafe { std::mem::transmute(body) };
        ls.block_on(rt, async { tokio::task::spawn_local(body).await }).expect("the case's task ended early");
    }
    match out.expect("the case's task ended without a result") {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}
struct SendPtr<T>(*mut T);

/// Keeps the runtime from going idle (and thus the clock from moving) while `f` waits for real threads.
pub struct Busy<F>(pub Pin<Box<F>>);
impl<F: Future> Future for Busy<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        // polled all the time, `f` needs no waker. It must not have this task's: a thread that was stopped in
        // the middle of waking it would hide all other wake-ups until it goes on, and the clock would move.
        let mut nobody = Context::from_waker(Waker::noop());
        match in_lib(|| self.0.as_mut().poll(&mut nobody)) {
            Poll::Ready(v) => Poll::Ready(v),
            Poll::Pending => {
                cx.waker().wake_by_ref();
                std::thread::yield_now();
                Poll::Pending
            }
        }
    }
}
pub fn busy<F: Future>(f: F) -> Busy<F> {
    Busy(Box::pin(f))
}

/// Await a reply; Err when it never comes.
pub async fn ask<F: Future>(what: &str, f: F) -> Result<F::Output, String> {
    tokio::time::timeout(PATIENCE, f)
        .await
        .map_err(|_| format!("{what}: the request was never answered"))
}

/// milliseconds since the start of the case
#[derive(Clone, Copy)]
pub struct Clock(Instant);
impl Clock {
    pub fn start() -> Self {
        Clock(Instant::now())
    }
    pub fn ms(&self) -> u64 {
        (Instant::now() - self.0).as_millis() as u64
    }
}

/// Let virtual time pass; everything due happens.
pub async fn pass(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
/// Let everything that can happen now happen, without time passing.
pub async fn settle(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
