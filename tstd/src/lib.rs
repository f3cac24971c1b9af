//! The standard library with its blocking primitives under a controlled scheduler.
//!
//! The shadow build of the crate under test gets this crate under the name `std`.  Outside a controlled
//! execution every primitive behaves like the original.  Inside one, exactly one thread runs at a time and
//! the scheduler (`sched`) decides at every synchronisation operation which one goes on.
pub use std::*;

pub mod sched;

pub mod sync {
    pub use crate::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use crate::once::{LazyLock, Once, OnceLock};
    pub use std::sync::*;
    pub mod mpsc {
        pub use crate::channel::*;
    }
    pub mod atomic {
        pub use crate::atomics::{
            AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU32, AtomicU64, AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
}
pub mod thread {
    pub use crate::threads::{sleep, spawn, yield_now, Builder, JoinHandle};
    pub use std::thread::*;
}

mod atomics;
mod channel;
mod locks;
mod once;
mod threads;
