use crate::sched;
use std::time::Duration;

pub struct JoinHandle<T> {
    h: std::thread::JoinHandle<T>,
    id: Option<usize>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        if let Some(id) = self.id {
            sched::point();
            while !sched::is_done(id) {
                sched::block(sched::done_addr(id));
            }
        }
        self.h.join()
    }
    pub fn is_finished(&self) -> bool {
        sched::point();
        self.h.is_finished()
    }
    pub fn thread(&self) -> &std::thread::Thread {
        self.h.thread()
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if sched::me().is_none() {
        return JoinHandle { h: std::thread::spawn(f), id: None };
    }
    let id = sched::enroll();
    let h = std::thread::spawn(move || sched::body(id, f));
    sched::point();
    JoinHandle { h, id: Some(id) }
}
pub fn sleep(d: Duration) {
    if sched::me().is_none() {
        return std::thread::sleep(d);
    }
    sched::point()
}
pub fn yield_now() {
    if sched::me().is_none() {
        return std::thread::yield_now();
    }
    sched::point()
}

#[derive(Debug, Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self {
        Builder
    }
    pub fn name(self, _: String) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}
