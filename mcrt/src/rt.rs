//! `System`, `Arbiter`, `Runtime` with the surface of the real crate.
use std::future::Future;
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::core::{self, ArbId};

static SYSTEM_COUNT: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug, Clone)]
pub struct ArbiterHandle {
    pub(crate) id: ArbId,
}

impl ArbiterHandle {
    pub fn spawn<Fut>(&self, future: Fut) -> bool
    where
        Fut: Future<Output = ()> + Send + 'static,
    {
        core::spawn_send(self.id, Box::pin(future))
    }

    pub fn spawn_fn<F>(&self, f: F) -> bool
    where
        F: FnOnce() + Send + 'static,
    {
        self.spawn(async { f() })
    }

    pub fn stop(&self) -> bool {
        let alive = core::lock().arbs[self.id].alive;
        if alive {
            core::kill_arbiter(self.id);
        }
        alive
    }
}

#[derive(Debug)]
pub struct Arbiter {
    id: ArbId,
}

impl Arbiter {
    pub fn new() -> Arbiter {
        let sys = System::current();
        Arbiter {
            id: core::new_arbiter(sys.id, "arbiter"),
        }
    }

    pub fn with_tokio_rt<F>(_f: F) -> Arbiter
    where
        F: FnOnce() -> tokio::runtime::Runtime + Send + 'static,
    {
        Self::new()
    }

    pub fn handle(&self) -> ArbiterHandle {
        ArbiterHandle { id: self.id }
    }

    pub fn current() -> ArbiterHandle {
        Self::try_current().expect("Arbiter is not running.")
    }

    pub fn try_current() -> Option<ArbiterHandle> {
        core::current_arbiter().map(|id| ArbiterHandle { id })
    }

    pub fn stop(&self) -> bool {
        self.handle().stop()
    }

    pub fn spawn<Fut>(&self, future: Fut) -> bool
    where
        Fut: Future<Output = ()> + Send + 'static,
    {
        self.handle().spawn(future)
    }

    pub fn spawn_fn<F>(&self, f: F) -> bool
    where
        F: FnOnce() + Send + 'static,
    {
        self.handle().spawn_fn(f)
    }

    pub fn join(self) -> std::thread::Result<()> {
        Ok(())
    }
}

#[derive(Debug, Clone)]
pub struct System {
    pub(crate) id: usize,
    arbiter_handle: ArbiterHandle,
}

impl System {
    pub fn new() -> SystemRunner {
        core::init_clock();
        let id = SYSTEM_COUNT.fetch_add(1, Ordering::SeqCst);
        let arb = core::new_arbiter(id, "system");
        let sys = System {
            id,
            arbiter_handle: ArbiterHandle { id: arb },
        };
        core::register_system(&sys);
        System::set_current(sys.clone());
        core::set_current_arbiter(Some(arb));
        SystemRunner { sys, leaked: false }
    }

    pub fn with_tokio_rt<F>(_f: F) -> SystemRunner
    where
        F: FnOnce() -> tokio::runtime::Runtime,
    {
        Self::new()
    }

    pub fn current() -> System {
        Self::try_current().expect("System is not running")
    }

    pub fn try_current() -> Option<System> {
        core::CUR_SYS.with(|c| c.borrow().clone())
    }

    pub fn arbiter(&self) -> &ArbiterHandle {
        &self.arbiter_handle
    }

    pub fn is_registered() -> bool {
        Self::try_current().is_some()
    }

    #[doc(hidden)]
    pub fn set_current(sys: System) {
        core::CUR_SYS.with(|c| *c.borrow_mut() = Some(sys));
    }

    pub fn id(&self) -> usize {
        self.id
    }

    pub fn stop(&self) {
        self.stop_with_code(0)
    }

    pub fn stop_with_code(&self, _code: i32) {
        let ids: Vec<usize> = {
            let c = core::lock();
            (0..c.arbs.len())
                .filter(|&i| c.arbs[i].system == self.id && c.arbs[i].alive)
                .collect()
        };
        for i in ids {
            core::kill_arbiter(i);
        }
    }
}

#[derive(Debug)]
pub struct SystemRunner {
    sys: System,
    leaked: bool,
}

impl SystemRunner {
    /// Runs with the default schedule until nothing can move.
    pub fn run(mut self) -> io::Result<()> {
        self.leaked = true;
        crate::mc::drain();
        Ok(())
    }

    pub fn run_with_code(self) -> io::Result<i32> {
        self.run().map(|_| 0)
    }

    pub fn runtime(&self) -> Runtime {
        Runtime {
            arb: self.sys.arbiter_handle.id,
        }
    }

    pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
        crate::mc::block_on(self.sys.arbiter_handle.id, fut)
    }

    /// The logical arbiter of this system (harness use).
    pub fn arbiter_id(&self) -> usize {
        self.sys.arbiter_handle.id
    }
}

impl Drop for SystemRunner {
    fn drop(&mut self) {
        if !self.leaked {
            core::kill_arbiter(self.sys.arbiter_handle.id);
        }
    }
}

#[derive(Debug)]
pub struct Runtime {
    arb: ArbId,
}

impl Runtime {
    pub fn new() -> io::Result<Self> {
        let sys = System::try_current().map(|s| s.id).unwrap_or(usize::MAX);
        Ok(Runtime {
            arb: core::new_arbiter(sys, "runtime"),
        })
    }

    pub fn spawn<F>(&self, future: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + 'static,
    {
        core::spawn_local(self.arb, future)
    }

    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        crate::mc::block_on(self.arb, f)
    }
}
