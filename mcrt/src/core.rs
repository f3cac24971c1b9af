//! The scheduler core: arbiters, tasks, wakers, virtual timers.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

pub(crate) type ArbId = usize;
type TaskId = u64;
type LocalFut = Pin<Box<dyn Future<Output = ()>>>;
type SendFut = Pin<Box<dyn Future<Output = ()> + Send>>;

pub(crate) struct Arb {
    pub ready: VecDeque<TaskId>,
    pub alive: bool,
    pub system: usize,
    pub label: &'static str,
    /// Its thread is busy (inside one poll) until this virtual time.
    pub busy_until: u64,
}
impl Arb {
    fn can_move(&self) -> bool {
        self.alive && !self.ready.is_empty() && self.busy_until <= VNOW.load(Ordering::SeqCst)
    }
}

#[derive(Default)]
pub(crate) struct Core {
    pub arbs: Vec<Arb>,
    injected: Vec<(ArbId, TaskId, SendFut)>,
    dead: Vec<ArbId>,
    next_task: TaskId,
    pub steps: u64,
    pub panics: Vec<String>,
}

static CORE: Mutex<Option<Core>> = Mutex::new(None);
pub(crate) static VNOW: AtomicU64 = AtomicU64::new(0);

pub(crate) struct Guard(MutexGuard<'static, Option<Core>>);
impl std::ops::Deref for Guard {
    type Target = Core;
    fn deref(&self) -> &Core {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Core {
        self.0.as_mut().unwrap()
    }
}

pub(crate) fn lock() -> Guard {
    let mut g = CORE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Core::default());
    }
    Guard(g)
}

thread_local! {
    static TASKS: RefCell<HashMap<TaskId, (ArbId, LocalFut)>> = RefCell::new(HashMap::new());
    static CUR_ARB: Cell<Option<ArbId>> = const { Cell::new(None) };
    pub(crate) static CUR_SYS: RefCell<Option<crate::rt::System>> = const { RefCell::new(None) };
}

static SYSTEMS: Mutex<Vec<crate::rt::System>> = Mutex::new(Vec::new());
pub(crate) fn register_system(s: &crate::rt::System) {
    SYSTEMS.lock().unwrap().push(s.clone());
}
pub(crate) fn system_by_id(id: usize) -> Option<crate::rt::System> {
    SYSTEMS.lock().unwrap().iter().find(|s| s.id() == id).cloned()
}

pub(crate) fn current_arbiter() -> Option<ArbId> {
    CUR_ARB.with(|c| c.get())
}
pub(crate) fn set_current_arbiter(a: Option<ArbId>) {
    CUR_ARB.with(|c| c.set(a))
}

pub(crate) fn new_arbiter(system: usize, label: &'static str) -> ArbId {
    let mut c = lock();
    c.arbs.push(Arb {
        ready: VecDeque::new(),
        alive: true,
        system,
        label,
        busy_until: 0,
    });
    c.arbs.len() - 1
}

/// Marks an arbiter dead; its tasks are dropped at the next scheduler entry.
pub(crate) fn kill_arbiter(a: ArbId) {
    let mut c = lock();
    c.arbs[a].alive = false;
    c.arbs[a].ready.clear();
    c.dead.push(a);
}

pub(crate) fn spawn_send(arb: ArbId, fut: SendFut) -> bool {
    let mut c = lock();
    if !c.arbs[arb].alive {
        return false;
    }
    let id = c.next_task;
    c.next_task += 1;
    c.injected.push((arb, id, fut));
    c.arbs[arb].ready.push_back(id);
    true
}

struct TaskWaker {
    arb: ArbId,
    id: TaskId,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut c = lock();
        let id = self.id;
        let arb = &mut c.arbs[self.arb];
        if arb.alive && !arb.ready.contains(&id) {
            arb.ready.push_back(id);
        }
        drop(c);
        let n = NOTIFY.lock().unwrap().take();
        if let Some(w) = n {
            w.wake();
        }
    }
}

pub(crate) fn spawn_local<F>(arb: ArbId, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot: Rc<JoinSlot<F::Output>> = Rc::new(JoinSlot {
        val: RefCell::new(None),
        waker: RefCell::new(None),
        aborted: Cell::new(false),
        task_waker: RefCell::new(None),
    });
    let s2 = slot.clone();
    let mut f = Box::pin(f);
    let body = std::future::poll_fn(move |cx| {
        *s2.task_waker.borrow_mut() = Some(cx.waker().clone());
        let out = if s2.aborted.get() {
            Err(JoinError(JoinErr::Cancelled))
        } else {
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) {
                Ok(Poll::Pending) => return Poll::Pending,
                Ok(Poll::Ready(v)) => Ok(v),
                Err(p) => {
                    note_panic(&*p);
                    Err(JoinError(JoinErr::Panic(p)))
                }
            }
        };
        *s2.val.borrow_mut() = Some(out);
        if let Some(w) = s2.waker.borrow_mut().take() {
            w.wake();
        }
        Poll::Ready(())
    });
    let (alive, id) = {
        let mut c = lock();
        let id = c.next_task;
        c.next_task += 1;
        let alive = c.arbs[arb].alive;
        if alive {
            c.arbs[arb].ready.push_back(id);
        }
        (alive, id)
    };
    if alive {
        TASKS.with(|t| t.borrow_mut().insert(id, (arb, Box::pin(body))));
    }
    JoinHandle { slot }
}

fn note_panic(p: &(dyn Any + Send)) {
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    lock().panics.push(msg);
}

fn settle() {
    let (inj, dead) = {
        let mut c = lock();
        (std::mem::take(&mut c.injected), std::mem::take(&mut c.dead))
    };
    for (arb, id, f) in inj {
        TASKS.with(|t| t.borrow_mut().insert(id, (arb, f)));
    }
    if !dead.is_empty() {
        let gone: Vec<_> = TASKS.with(|t| {
            let mut t = t.borrow_mut();
            let ids: Vec<_> = t
                .iter()
                .filter(|(_, (a, _))| dead.contains(a))
                .map(|(i, _)| *i)
                .collect();
            ids.into_iter().filter_map(|i| t.remove(&i)).collect()
        });
        for g in gone {
            let _ = catch_unwind(AssertUnwindSafe(move || drop(g)));
        }
    }
}

/// Arbiters that can move, in canonical (creation) order.
pub(crate) fn enabled() -> Vec<ArbId> {
    settle();
    let c = lock();
    c.arbs
        .iter()
        .enumerate()
        .filter(|(_, a)| a.can_move())
        .map(|(i, _)| i)
        .collect()
}

/// Polls the first ready task of `arb` once.
pub(crate) fn step(arb: ArbId) {
    settle();
    let (id, system) = {
        let mut c = lock();
        c.steps += 1;
        let s = c.arbs[arb].system;
        match c.arbs[arb].ready.pop_front() {
            Some(id) => (id, s),
            None => return,
        }
    };
    let Some((_, mut fut)) = TASKS.with(|t| t.borrow_mut().remove(&id)) else {
        return;
    };
    let prev_arb = CUR_ARB.with(|c| c.replace(Some(arb)));
    let prev_sys = CUR_SYS.with(|c| c.replace(system_by_id(system)));
    let waker = Waker::from(Arc::new(TaskWaker { arb, id }));
    let mut cx = Context::from_waker(&waker);
    let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    match res {
        Ok(Poll::Pending) => {
            TASKS.with(|t| t.borrow_mut().insert(id, (arb, fut)));
        }
        Ok(Poll::Ready(())) => drop(fut),
        Err(p) => {
            note_panic(&*p);
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
        }
    }
    CUR_ARB.with(|c| c.set(prev_arb));
    CUR_SYS.with(|c| *c.borrow_mut() = prev_sys);
}

// ---- virtual time ----
//
// Timers are tokio's own (actix stores `tokio::time::Sleep`).  They live in a paused
// current-thread runtime that is entered for good on the scheduler thread and is driven only from
// here, so time moves exactly when the harness says so.

struct Clock {
    rt: &'static tokio::runtime::Runtime,
    start: tokio::time::Instant,
}

thread_local! {
    static CLOCK: std::cell::OnceCell<Clock> = const { std::cell::OnceCell::new() };
}
static NOTIFY: Mutex<Option<Waker>> = Mutex::new(None);

/// Creates the paused runtime on this thread and enters it.
pub(crate) fn init_clock() {
    CLOCK.with(|c| {
        c.get_or_init(|| {
            let rt: &'static _ = Box::leak(Box::new(
                tokio::runtime::Builder::new_current_thread()
                    .enable_time()
                    .start_paused(true)
                    .build()
                    .expect("paused runtime"),
            ));
            std::mem::forget(rt.enter());
            let start = tokio::time::Instant::now();
            Clock { rt, start }
        });
    })
}

fn any_ready() -> bool {
    let c = lock();
    c.arbs.iter().any(|a| a.can_move())
}

/// Lets virtual time run until some task becomes ready or `limit` (ns) is reached.
/// Returns true if a task is ready.
pub(crate) fn advance(limit: u64) -> bool {
    settle();
    init_clock();
    if any_ready() {
        return true;
    }
    CLOCK.with(|c| {
        let c = c.get().unwrap();
        // a busy thread that becomes free may be what happens next
        let now = VNOW.load(Ordering::SeqCst);
        let free = lock().arbs.iter().filter(|a| a.alive && a.busy_until > now).map(|a| a.busy_until).min();
        let until = c.start + std::time::Duration::from_nanos(limit.min(free.unwrap_or(u64::MAX)));
        c.rt.block_on(async {
            let mut cap = Box::pin(tokio::time::sleep_until(until));
            std::future::poll_fn(|cx| {
                *NOTIFY.lock().unwrap() = Some(cx.waker().clone());
                if any_ready() {
                    return Poll::Ready(());
                }
                cap.as_mut().poll(cx)
            })
            .await;
            *NOTIFY.lock().unwrap() = None;
            let now = tokio::time::Instant::now() - c.start;
            VNOW.store(now.as_nanos() as u64, Ordering::SeqCst);
        });
    });
    any_ready()
}

// ---- join handles ----

enum JoinErr {
    Cancelled,
    Panic(Box<dyn Any + Send>),
}
pub struct JoinError(JoinErr);
impl JoinError {
    pub fn is_panic(&self) -> bool {
        matches!(self.0, JoinErr::Panic(_))
    }
    pub fn is_cancelled(&self) -> bool {
        matches!(self.0, JoinErr::Cancelled)
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        match self.0 {
            JoinErr::Panic(p) => p,
            _ => panic!("not a panic"),
        }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        match self.0 {
            JoinErr::Panic(p) => Ok(p),
            e => Err(JoinError(e)),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() {
            "JoinError::Panic"
        } else {
            "JoinError::Cancelled"
        })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for JoinError {}

struct JoinSlot<T> {
    val: RefCell<Option<Result<T, JoinError>>>,
    waker: RefCell<Option<Waker>>,
    aborted: Cell<bool>,
    task_waker: RefCell<Option<Waker>>,
}
pub struct JoinHandle<T> {
    slot: Rc<JoinSlot<T>>,
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.slot.aborted.set(true);
        if let Some(w) = self.slot.task_waker.borrow().as_ref() {
            w.wake_by_ref();
        }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.val.borrow().is_some()
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(v) = self.slot.val.borrow_mut().take() {
            return Poll::Ready(v);
        }
        *self.slot.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
