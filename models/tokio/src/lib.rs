//! Model of the parts of tokio that reach outside the process: the blocking pool,
//! the runtime, and (in `mk`, at the level of system calls) the file system.
//! Everything else is tokio itself: the traits, combinators and synchronisation
//! primitives are re-exported, `fs::File` is tokio's own source.
#![allow(warnings)]
pub mod fs;
pub mod mk;
mod libc;
pub mod runtime;
pub mod task;

pub use task::spawn;
pub use tokio_real::{io, join, pin, select, sync, try_join};
