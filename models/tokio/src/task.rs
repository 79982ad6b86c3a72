//! The blocking pool. A submitted closure runs at some later point chosen by the
//! scheduler in `mk`; until then its handle is pending.
use crate::mk;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub struct JoinError(());
impl JoinError {
    pub fn is_panic(&self) -> bool {
        true
    }
    pub fn is_cancelled(&self) -> bool {
        false
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError")
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for io::Error {
    fn from(_: JoinError) -> io::Error {
        io::Error::new(io::ErrorKind::Other, "task failed")
    }
}

struct Slot<R> {
    value: UnsafeCell<Option<R>>,
    waker: UnsafeCell<Option<Waker>>,
}
unsafe impl<R> Send for Slot<R> {}
unsafe impl<R> Sync for Slot<R> {}

pub struct JoinHandle<R>(Arc<Slot<R>>);
impl<R> fmt::Debug for JoinHandle<R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<R> Unpin for JoinHandle<R> {}
impl<R> Future for JoinHandle<R> {
    type Output = Result<R, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let s = &*self.0;
        unsafe {
            if let Some(v) = (*s.value.get()).take() {
                return Poll::Ready(Ok(v));
            }
            *s.waker.get() = Some(cx.waker().clone());
        }
        Poll::Pending
    }
}
impl<R> JoinHandle<R> {
    pub fn abort(&self) {}
}

fn slot<R>() -> Arc<Slot<R>> {
    Arc::new(Slot { value: UnsafeCell::new(None), waker: UnsafeCell::new(None) })
}
fn complete<R>(s: &Slot<R>, r: R) {
    unsafe {
        *s.value.get() = Some(r);
        if let Some(w) = (*s.waker.get()).take() {
            w.wake();
        }
    }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let s = slot();
    let s2 = s.clone();
    mk::submit(Box::new(move || complete(&*s2, f())));
    JoinHandle(s)
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let s = slot();
    let s2 = s.clone();
    mk::submit_task(Box::pin(async move {
        let r = f.await;
        complete(&*s2, r)
    }));
    JoinHandle(s)
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}
