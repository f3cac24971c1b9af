//! mcrt: a deterministic, explorable stand-in for `actix-rt` 2.10.
//!
//! Every `Arbiter` (an OS thread in the real crate) is a *logical* arbiter here: a FIFO of ready
//! tasks.  All of them live on one OS thread and make progress only when the harness calls
//! [`mc::step`], so "which arbiter moves next" is a choice the model checker owns.  Time is virtual
//! ([`mc::now_ns`]) and moves only through [`mc::advance_to`].
//!
//! Kept faithful to the real crate: tasks of one arbiter run FIFO and never overlap; a panic in a
//! task is caught at the task boundary (the task dies, its arbiter survives); dropping a
//! `SystemRunner` kills the system's own arbiter but not the others; `System::current` and
//! `Arbiter::current` are per (logical) thread.
#![allow(clippy::new_ret_no_self)]

use std::future::Future;

#[cfg(all(feature = "macros", not(test)))]
pub use actix_macros::main;
#[cfg(feature = "macros")]
pub use actix_macros::test;

pub use tokio::pin;

mod core;
pub mod mc;
mod rt;
pub mod time;

pub use self::rt::{Arbiter, ArbiterHandle, Runtime, System, SystemRunner};

pub mod signal {
    #[cfg(unix)]
    pub mod unix {
        pub use tokio::signal::unix::*;
    }
    pub use tokio::signal::ctrl_c;
}

pub mod net {
    pub use tokio::net::{TcpListener, TcpSocket, TcpStream, UdpSocket};
    #[cfg(unix)]
    pub use tokio::net::{UnixDatagram, UnixListener, UnixStream};
}

pub mod task {
    pub use crate::core::{JoinError, JoinHandle};

    /// Yields once.
    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(move |cx| {
            if done {
                std::task::Poll::Ready(())
            } else {
                done = true;
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            }
        })
        .await
    }

    /// Runs the closure inline: the harness owns every thread.
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::spawn(async move { f() })
    }
}

/// Spawns a future on the current (logical) arbiter.
#[track_caller]
pub fn spawn<Fut>(f: Fut) -> task::JoinHandle<Fut::Output>
where
    Fut: Future + 'static,
    Fut::Output: 'static,
{
    let arb = core::current_arbiter().expect("mcrt: spawn called outside of an arbiter");
    core::spawn_local(arb, f)
}
