//! Control surface for the model checker.
use std::future::Future;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};

use crate::core;

pub type ArbId = usize;

/// Virtual nanoseconds since the start of the execution.
pub fn now_ns() -> u64 {
    core::VNOW.load(Ordering::SeqCst)
}

/// Lets virtual time run until a task becomes ready (true) or `limit_ns` is reached (false).
pub fn advance(limit_ns: u64) -> bool {
    core::advance(limit_ns)
}

/// Creates and enters the paused clock on this thread.  Call once, before forking.
pub fn init() {
    core::init_clock()
}

/// Logical arbiters with at least one ready task, in creation order.
pub fn enabled() -> Vec<ArbId> {
    core::enabled()
}

/// Polls one ready task of the arbiter.
pub fn step(a: ArbId) {
    core::step(a)
}

/// The thread of the current arbiter is blocked for this long: none of its tasks is polled.
/// Takes effect at the end of the current step, so the caller should yield right after.
pub fn block(ns: u64) {
    if let Some(a) = core::current_arbiter() {
        let t = now_ns() + ns;
        let mut c = core::lock();
        c.arbs[a].busy_until = c.arbs[a].busy_until.max(t);
    }
}

pub fn label(a: ArbId) -> &'static str {
    core::lock().arbs[a].label
}

pub fn steps() -> u64 {
    core::lock().steps
}

/// Messages of all panics caught at task boundaries so far.
pub fn panics() -> Vec<String> {
    core::lock().panics.clone()
}

/// A fresh logical thread belonging to the system of `like`.
pub fn new_client(like: ArbId) -> ArbId {
    let s = core::lock().arbs[like].system;
    core::new_arbiter(s, "client")
}

/// A fresh logical thread that belongs to no actix system (a plain tokio/std thread).
pub fn new_foreign() -> ArbId {
    core::new_arbiter(usize::MAX, "foreign")
}

pub fn spawn_on<F>(a: ArbId, f: F)
where
    F: Future<Output = ()> + 'static,
{
    let _ = core::spawn_local(a, f);
}

/// Default schedule: lowest enabled arbiter first, until nothing can move.
pub fn drain() {
    loop {
        let e = enabled();
        match e.first() {
            Some(&a) => step(a),
            None => return,
        }
    }
}

/// Runs `fut` to completion under the default schedule, advancing virtual time when idle.
pub fn block_on<F: Future>(arb: ArbId, fut: F) -> F::Output {
    let mut fut = std::pin::pin!(fut);
    let prev = core::current_arbiter();
    let waker = std::task::Waker::noop();
    let mut cx = Context::from_waker(waker);
    loop {
        core::set_current_arbiter(Some(arb));
        let r = fut.as_mut().poll(&mut cx);
        core::set_current_arbiter(prev);
        if let Poll::Ready(v) = r {
            return v;
        }
        let e = enabled();
        if let Some(&a) = e.first() {
            step(a);
        } else {
            // `fut` itself may be waiting for a timer, so move in small steps
            core::advance(now_ns() + 1_000_000);
        }
    }
}
