//! `tokio` as seen by the code under test: tasks, timers, sockets and file
//! access run on the model checker's deterministic scheduler.
#[macro_use]
mod select;
pub use tokio::{io, join, pin, try_join};
#[doc(hidden)]
pub use tokio::{select_priv_clean_pattern, select_priv_declare_output_enum};

pub mod fs;
pub mod net;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;

#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use std::future::{poll_fn, Future, IntoFuture};
        pub use std::pin::Pin;
        pub use std::task::{Context, Poll};
        pub fn thread_rng_n(n: u32) -> u32 {
            if mcrt::is_exploring() { mcrt::choose_cost(n as usize, 1, "select") as u32 } else { 0 }
        }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) }
    }
}

pub mod runtime {
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self { Handle }
        pub fn try_current() -> Result<Self, std::io::Error> { Ok(Handle) }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where F: std::future::Future + Send + 'static, F::Output: Send + 'static { crate::spawn(f) }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where F: FnOnce() -> R + Send + 'static, R: Send + 'static { crate::task::spawn_blocking(f) }
    }
}
