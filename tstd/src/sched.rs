//! Controlled executions: threads pass a baton; whoever holds it runs until its next synchronisation
//! operation.  The sequence of decisions is replayed from a prefix and continued by a default policy
//! (keep the running thread; else the lowest numbered one), so that a driver can enumerate all of them.
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    /// Waiting for the object at this address to change.
    Blocked(usize),
    Done,
}

/// One decision: who could run, who was running (if it still could), who was taken.
#[derive(Clone, Debug)]
pub struct Decision {
    pub enabled: Vec<usize>,
    pub running: Option<usize>,
    pub chosen: usize,
}
impl Decision {
    pub fn preempts(&self, to: usize) -> bool {
        self.running.is_some_and(|r| r != to)
    }
}

struct S {
    active: bool,
    threads: Vec<St>,
    current: usize,
    prefix: Vec<usize>,
    trace: Vec<Decision>,
    deadlock: bool,
    diverged: bool,
    /// A thread that left the control of the scheduler (blocked in a primitive that is not intercepted).
    lost: Vec<usize>,
    last: Instant,
    epoch: u64,
}
static S: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// How long the holder of the baton may compute before others go on without it.
const LOST: Duration = Duration::from_millis(400);

thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

fn with<T>(f: impl FnOnce(&mut S) -> T) -> T {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("scheduler"))
}

pub fn me() -> Option<usize> {
    ME.with(|m| m.get())
}

impl S {
    fn enabled(&self) -> Vec<usize> {
        let running = (self.threads[self.current] == St::Ready && !self.lost.contains(&self.current)).then_some(self.current);
        let mut v: Vec<usize> = running.into_iter().collect();
        for (i, t) in self.threads.iter().enumerate() {
            if *t == St::Ready && Some(i) != running && !self.lost.contains(&i) {
                v.push(i);
            }
        }
        v
    }
    /// Picks who runs next.
    fn decide(&mut self) {
        self.epoch += 1;
        self.last = Instant::now();
        let enabled = self.enabled();
        if enabled.is_empty() {
            if self.threads.iter().any(|t| *t != St::Done) && self.lost.is_empty() {
                self.deadlock = true;
            }
            return;
        }
        let running = (enabled[0] == self.current).then_some(self.current);
        let i = self.trace.len();
        let chosen = match self.prefix.get(i) {
            Some(c) if enabled.contains(c) => *c,
            Some(_) => {
                self.diverged = true;
                enabled[0]
            }
            None => enabled[0],
        };
        self.trace.push(Decision { enabled, running, chosen });
        self.current = chosen;
    }
}

fn wait_turn(me: usize) {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    loop {
        {
            let s = g.as_mut().expect("scheduler");
            if s.deadlock {
                // nobody can go on: park for good, the driver reports it
                drop(g);
                loop {
                    std::thread::park();
                }
            }
            if s.current == me && s.threads[me] == St::Ready && !s.lost.contains(&me) {
                return;
            }
            let cur = s.current;
            if s.last.elapsed() > LOST && s.threads[cur] == St::Ready && !s.lost.contains(&cur) {
                s.lost.push(cur);
                s.decide();
                CV.notify_all();
                continue;
            }
        }
        g = CV.wait_timeout(g, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner()).0;
    }
}

/// A scheduling point of the calling thread (nothing happens outside a controlled execution).
pub fn point() {
    let Some(me) = me() else { return };
    with(|s| {
        if let Some(p) = s.lost.iter().position(|l| *l == me) {
            s.lost.remove(p);
            if s.enabled().len() == 1 {
                s.decide();
            }
        } else {
            s.decide();
        }
    });
    CV.notify_all();
    wait_turn(me);
}

/// The calling thread waits until `changed(addr)`.
pub fn block(addr: usize) {
    let Some(me) = me() else {
        std::thread::yield_now();
        return;
    };
    with(|s| {
        if let Some(p) = s.lost.iter().position(|l| *l == me) {
            s.lost.remove(p);
        }
        s.threads[me] = St::Blocked(addr);
        s.decide();
    });
    CV.notify_all();
    wait_turn(me);
}

pub fn changed(addr: usize) {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = g.as_mut() {
        for t in s.threads.iter_mut() {
            if *t == St::Blocked(addr) {
                *t = St::Ready;
            }
        }
    }
}

pub(crate) fn enroll() -> usize {
    with(|s| {
        s.threads.push(St::Ready);
        s.threads.len() - 1
    })
}
pub(crate) fn done_addr(id: usize) -> usize {
    usize::MAX - id
}
pub(crate) fn is_done(id: usize) -> bool {
    with(|s| s.threads[id] == St::Done)
}

struct Leave(usize);
impl Drop for Leave {
    fn drop(&mut self) {
        let me = self.0;
        changed(done_addr(me));
        with(|s| {
            s.threads[me] = St::Done;
            s.lost.retain(|l| *l != me);
            s.decide();
        });
        CV.notify_all();
    }
}
pub(crate) fn body<T>(id: usize, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(Some(id)));
    let _leave = Leave(id);
    wait_turn(id);
    f()
}

pub struct Outcome {
    pub trace: Vec<Decision>,
    pub deadlock: bool,
    pub diverged: bool,
    /// Messages of threads that panicked.
    pub panics: Vec<String>,
    /// Some thread blocked outside the control of the scheduler.
    pub uncontrolled: bool,
}

/// Runs the bodies as threads under the given decisions.
pub fn run(prefix: &[usize], bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = bodies.len();
    {
        let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
        *g = Some(S {
            active: true,
            threads: vec![St::Ready; n],
            current: 0,
            prefix: prefix.to_vec(),
            trace: vec![],
            deadlock: false,
            diverged: false,
            lost: vec![],
            last: Instant::now(),
            epoch: 0,
        });
        g.as_mut().unwrap().decide_first();
    }
    let panics: Arc<Mutex<Vec<String>>> = Arc::default();
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let panics = panics.clone();
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || {
                    body(i, || {
                        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)) {
                            let m = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "panic".into());
                            panics.lock().unwrap().push(m);
                        }
                    })
                })
                .expect("thread")
        })
        .collect();
    loop {
        let (over, dead) = with(|s| (s.threads.iter().all(|t| *t == St::Done), s.deadlock));
        if dead {
            break;
        }
        if over {
            for h in hs {
                let _ = h.join();
            }
            break;
        }
        let g = S.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.as_ref().unwrap();
        if s.threads.iter().all(|t| *t == St::Done) || s.deadlock {
            continue;
        }
        drop(CV.wait_timeout(g, Duration::from_millis(20)));
    }
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.as_mut().unwrap();
    s.active = false;
    let o = Outcome {
        trace: s.trace.clone(),
        deadlock: s.deadlock,
        diverged: s.diverged,
        panics: panics.lock().unwrap().clone(),
        uncontrolled: !s.lost.is_empty(),
    };
    if !o.deadlock {
        *g = None;
    }
    o
}
impl S {
    fn decide_first(&mut self) {
        // nobody runs yet: the first decision is free
        let enabled: Vec<usize> = (0..self.threads.len()).collect();
        let chosen = self.prefix.first().copied().unwrap_or(0);
        self.trace.push(Decision { enabled, running: None, chosen });
        self.current = chosen;
    }
}

/// All executions with at most `bound` preemptions.  `make` builds the threads of one execution, `check`
/// judges it and says whether to go on.  Returns the number of executions and decisions.
pub fn explore<X>(
    bound: usize,
    mut make: impl FnMut() -> (Vec<Box<dyn FnOnce() + Send>>, X),
    mut check: impl FnMut(&Outcome, X) -> bool,
) -> (u64, u64) {
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let (mut execs, mut decisions) = (0, 0);
    while let Some(prefix) = stack.pop() {
        let (bodies, x) = make();
        let o = run(&prefix, bodies);
        execs += 1;
        decisions += (o.trace.len() - prefix.len().min(o.trace.len())) as u64;
        if !check(&o, x) {
            break;
        }
        let mut cost = 0;
        for (i, d) in o.trace.iter().enumerate() {
            if i >= prefix.len() {
                for alt in d.enabled.iter().filter(|a| **a != d.chosen) {
                    if cost + d.preempts(*alt) as usize <= bound {
                        let mut p: Vec<usize> = o.trace[..i].iter().map(|d| d.chosen).collect();
                        p.push(*alt);
                        stack.push(p);
                    }
                }
            }
            cost += d.preempts(d.chosen) as usize;
        }
    }
    (execs, decisions)
}
