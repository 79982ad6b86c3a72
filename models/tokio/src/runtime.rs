//! Handles of the runtime: there is one, and it is the model's.
use crate::task::{self, JoinHandle};
use std::future::Future;

#[derive(Clone, Debug)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, std::io::Error> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        crate::mk::block_on(f)
    }
}
