//! `std::sync::mpsc` on the controlled locks.
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use crate::locks::{Condvar, Mutex};
use std::collections::VecDeque;
use std::sync::Arc;

struct Chan<T> {
    q: Mutex<State<T>>,
    changed: Condvar,
    bound: Option<usize>,
}
struct State<T> {
    items: VecDeque<T>,
    senders: usize,
    receiver: bool,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn pair<T>(bound: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        q: Mutex::new(State { items: VecDeque::new(), senders: 1, receiver: true }),
        changed: Condvar::new(),
        bound,
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = pair(None);
    (Sender(c.clone()), Receiver(c))
}
/// A rendezvous channel is treated as one with room for one item.
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = pair(Some(bound.max(1)));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut s = self.q.lock().unwrap();
        while s.receiver && self.bound.is_some_and(|b| s.items.len() >= b) {
            s = self.changed.wait(s).unwrap();
        }
        if !s.receiver {
            return Err(SendError(t));
        }
        s.items.push_back(t);
        drop(s);
        self.changed.notify_all();
        Ok(())
    }
    fn add(&self) {
        self.q.lock().unwrap().senders += 1;
    }
    fn sub(&self) {
        if let Ok(mut s) = self.q.lock() {
            s.senders -= 1;
        }
        self.changed.notify_all();
    }
}
macro_rules! sender {
    ($t:ident) => {
        impl<T> $t<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Clone for $t<T> {
            fn clone(&self) -> Self {
                self.0.add();
                $t(self.0.clone())
            }
        }
        impl<T> Drop for $t<T> {
            fn drop(&mut self) {
                self.0.sub()
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut s = self.0.q.lock().unwrap();
        loop {
            if let Some(t) = s.items.pop_front() {
                drop(s);
                self.0.changed.notify_all();
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvError);
            }
            s = self.0.changed.wait(s).unwrap();
        }
    }
    /// Time does not pass under the controlled scheduler.
    pub fn recv_timeout(&self, _: std::time::Duration) -> Result<T, RecvTimeoutError> {
        self.recv().map_err(|_| RecvTimeoutError::Disconnected)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut s = self.0.q.lock().unwrap();
        match s.items.pop_front() {
            Some(t) => Ok(t),
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(|| self.recv().ok())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.q.lock() {
            s.receiver = false;
        }
        self.0.changed.notify_all();
    }
}
