use crate::locks::Mutex;
use crate::sched;
use std::cell::Cell;
use std::fmt;
use std::ops::Deref;

/// The initialisation may contain scheduling points, so it is guarded by a controlled lock.
pub struct OnceLock<T> {
    init: Mutex<()>,
    cell: std::sync::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { init: Mutex::new(()), cell: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        sched::point();
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        let _g = self.init.lock().unwrap_or_else(|p| p.into_inner());
        self.cell.set(value)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(v) = self.get() {
            return v;
        }
        let _g = self.init.lock().unwrap_or_else(|p| p.into_inner());
        if let Some(v) = self.cell.get() {
            return v;
        }
        let v = f();
        self.cell.get_or_init(|| v)
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.cell.get() {
            let _ = c.cell.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.cell.set(v);
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| match this.init.take() {
            Some(f) => f(),
            None => panic!("LazyLock instance has previously been poisoned"),
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
