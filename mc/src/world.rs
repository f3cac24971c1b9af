//! The closed system: the real engine on the explorable runtime, scripted jobs, an event log, client calls,
//! virtual time.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

use actix_rt::mc;
use aj::async_trait;
use aj::BackgroundJob;
use aj_core::{Executable, Job, JobContext, JobPlugin, JobStatus, Retry, AJ};
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};

use crate::backend::{Kind, Shared, Spy};
use crate::{clock, explore};

pub const MS: i64 = 1_000_000;

// ---- event log ----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Pre { ty: char, id: String },
    Start { ty: char, id: String, data: Data, ctx: CtxView },
    End { ty: char, id: String, ok: bool, data: Data },
    Post { ty: char, id: String },
    Before { plugin: u8, id: String },
    After { plugin: u8, id: String },
    Status { plugin: u8, id: String, st: char },
    Ack { what: String },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    /// Epoch nanoseconds.
    pub t: i64,
    pub ev: Ev,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CtxView {
    pub id: String,
    pub run_count: usize,
    pub status: char,
    pub run_at: Option<i64>,
}

thread_local! {
    pub static LOG: RefCell<Vec<Entry>> = const { RefCell::new(Vec::new()) };
    pub static NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn log(ev: Ev) {
    LOG.with(|l| l.borrow_mut().push(Entry { t: now(), ev }));
}
pub fn note(s: String) {
    NOTES.with(|l| l.borrow_mut().push(format!("t={:.3}ms {s}", rel(now()))));
}
pub fn now() -> i64 {
    clock::epoch_ns()
}
/// Milliseconds since the start of the execution.
pub fn rel(t: i64) -> f64 {
    (t - clock::BASE.load(std::sync::atomic::Ordering::SeqCst)) as f64 / 1e6
}
pub fn dt(t: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_nanos(t)
}
pub fn stc(s: JobStatus) -> char {
    match s {
        JobStatus::Queued => 'Q',
        JobStatus::Running => 'R',
        JobStatus::Finished => 'F',
        JobStatus::Failed => 'X',
        JobStatus::Canceled => 'C',
    }
}

pub fn log_lines() -> Vec<String> {
    let mut v: Vec<String> = vec!["-- actions".into()];
    NOTES.with(|n| v.extend(n.borrow().iter().cloned()));
    v.push("-- events".into());
    LOG.with(|l| {
        for e in l.borrow().iter() {
            v.push(format!("t={:.3}ms {:?}", rel(e.t), e.ev));
        }
    });
    let p = mc::panics();
    if !p.is_empty() {
        v.push(format!("-- panics caught at task boundaries: {p:?}"));
    }
    crate::backend::CTL.with(|c| {
        let c = c.borrow();
        if !c.faulted.is_empty() {
            v.push(format!("-- failed backend operations: {:?}", c.faulted));
        }
        if c.keep_log {
            v.push("-- backend operations".into());
            v.extend(c.log.iter().cloned());
        }
    });
    v
}

/// Reports a violation in this execution and ends it.
pub fn violate(msg: String) -> ! {
    explore::report_violation(&msg, &log_lines());
    explore::finish()
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {{
        $crate::explore::note_eval();
        if !$c { $crate::world::violate(format!($($a)*)) }
    }};
}

// ---- scripted jobs ----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Ok,
    Fail,
    /// Suspended until the harness releases it, with the outcome it names.
    Gate,
    Sleep { us: u64, ok: bool },
    Panic,
    /// Panic after having been suspended.
    SleepPanic { us: u64 },
    /// execute() succeeds, post_execute() turns the output into a failure.
    PostFail,
    /// Yield to the other tasks of the arbiter this often, then succeed.
    Yield(u8),
    /// Occupy the thread without yielding to anything, then succeed.
    Block { us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Data {
    pub n: i64,
    #[serde(default)]
    pub text: String,
    /// What the k-th execution of this job does; the last entry repeats; empty = Ok.
    #[serde(default)]
    pub acts: Vec<Act>,
    /// Adds this to `n` in every execution.
    #[serde(default)]
    pub bump: i64,
    /// Own retry policy: retry after this many ms whatever the output, this many times.
    #[serde(default)]
    pub own_retry: Option<(i64, i64)>,
}
impl Data {
    pub fn n(n: i64) -> Data {
        Data { n, ..Default::default() }
    }
    pub fn acts(n: i64, acts: &[Act]) -> Data {
        Data { n, acts: acts.to_vec(), ..Default::default() }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Out {
    pub ok: bool,
    pub flip: bool,
}

#[derive(Default)]
struct Gate {
    open: Option<bool>,
    waker: Option<Waker>,
}
static GATES: Mutex<Option<HashMap<String, Arc<Mutex<Gate>>>>> = Mutex::new(None);
fn gate(key: &str) -> Arc<Mutex<Gate>> {
    let mut g = GATES.lock().unwrap();
    g.get_or_insert_with(HashMap::new).entry(key.into()).or_default().clone()
}
async fn wait_gate(key: String) -> bool {
    let g = gate(&key);
    std::future::poll_fn(move |cx| {
        let mut g = g.lock().unwrap();
        if let Some(ok) = g.open.take() {
            return Poll::Ready(ok);
        }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    })
    .await
}
pub fn release(key: &str, ok: bool) {
    let g = gate(key);
    let mut g = g.lock().unwrap();
    g.open = Some(ok);
    if let Some(w) = g.waker.take() {
        w.wake();
    }
}

thread_local! {
    /// Executions before the log began (in a process that was stopped).
    pub static PRIOR: RefCell<BTreeMap<(char, String), usize>> = RefCell::default();
}
/// How many executions of this job have started so far (as the jobs themselves saw it).
pub fn starts(ty: char, id: &str) -> usize {
    LOG.with(|l| {
        l.borrow()
            .iter()
            .filter(|e| matches!(&e.ev, Ev::Start { ty: t, id: i, .. } if *t == ty && i == id))
            .count()
    })
}

/// A panic with a text, a formatted text, or a value that is no text at all.
fn blow(n: i64, id: &str) -> ! {
    match n.rem_euclid(4) {
        0 => panic!("scripted panic"),
        2 => std::panic::panic_any(7i32),
        3 => std::panic::panic_any(vec![id.to_string()]),
        _ => panic!("scripted panic in job {id}"),
    }
}

async fn perform(ty: char, d: &mut Data, ctx: &JobContext) -> Out {
    let id = ctx.job_id.clone();
    let k = starts(ty, &id) + PRIOR.with(|p| p.borrow().get(&(ty, id.clone())).copied().unwrap_or(0));
    log(Ev::Start {
        ty,
        id: id.clone(),
        data: d.clone(),
        ctx: CtxView { id: id.clone(), run_count: ctx.run_count, status: stc(ctx.job_status), run_at: ctx.run_at },
    });
    let act = d.acts.get(k).or(d.acts.last()).cloned().unwrap_or(Act::Ok);
    let mut flip = false;
    let ok = match act {
        Act::Ok => true,
        Act::Fail => false,
        Act::Gate => wait_gate(format!("{ty}{id}")).await,
        Act::Sleep { us, ok } => {
            actix_rt::time::sleep(std::time::Duration::from_micros(us)).await;
            ok
        }
        Act::Panic => blow(d.n, &id),
        Act::SleepPanic { us } => {
            actix_rt::time::sleep(std::time::Duration::from_micros(us)).await;
            blow(d.n, &id)
        }
        Act::PostFail => {
            flip = true;
            true
        }
        Act::Block { us } => {
            mc::block(us * 1000);
            actix_rt::task::yield_now().await;
            true
        }
        Act::Yield(n) => {
            for _ in 0..n {
                actix_rt::task::yield_now().await;
            }
            true
        }
    };
    d.n += d.bump;
    log(Ev::End { ty, id, ok: ok && !flip, data: d.clone() });
    Out { ok, flip }
}

macro_rules! scripted {
    ($t:ident, $c:expr) => {
        #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
        pub struct $t(pub Data);
        scripted!(@ $t, $c);
    };
    // with a queue name of its own
    ($t:ident, $c:expr, $name:expr) => {
        #[derive(Serialize, Deserialize, Debug, Clone)]
        pub struct $t(pub Data);
        impl BackgroundJob for $t {
            fn queue_name() -> &'static str {
                $name
            }
            fn job(self) -> aj_core::Job<Self> {
                aj_core::Job::new(self)
            }
        }
        scripted!(@ $t, $c);
    };
    (@ $t:ident, $c:expr) => {
        impl From<Data> for $t {
            fn from(d: Data) -> Self {
                $t(d)
            }
        }
        #[async_trait]
        impl Executable for $t {
            type Output = Out;
            async fn pre_execute(&mut self, ctx: &JobContext) {
                log(Ev::Pre { ty: $c, id: ctx.job_id.clone() });
            }
            async fn execute(&mut self, ctx: &JobContext) -> Out {
                perform($c, &mut self.0, ctx).await
            }
            async fn post_execute(&mut self, mut out: Out, ctx: &JobContext) -> Out {
                log(Ev::Post { ty: $c, id: ctx.job_id.clone() });
                out.ok = out.ok && !out.flip;
                out
            }
            async fn is_failed_output(&self, out: &Out) -> bool {
                !out.ok
            }
            async fn retry_at(&self, r: &mut Retry, out: Out) -> Option<DateTime<Utc>> {
                if let Some((ms, times)) = self.0.own_retry {
                    if self.0.n >= times {
                        return None;
                    }
                    return Some(aj_core::get_now() + chrono::Duration::milliseconds(ms));
                }
                // otherwise the library's own decision
                Gamma(self.0.clone()).retry_at(r, out).await
            }
        }
    };
}
scripted!(Alpha, 'A');
scripted!(Beta, 'B');

/// Types whose names are easily confused.
#[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
pub mod alike {
    use super::*;
    scripted!(ALPHA, '1');
    scripted!(alpha, '2');
    scripted!(AlphaBeta, '3');
    scripted!(Alph, '4');
    scripted!(Alpha_, '5');
    scripted!(TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCountry, '6');
    scripted!(TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCounty, '7');
    scripted!(Named, '8', "Alpha:queue");
    scripted!(Spaced, '9', " Alpha");
    scripted!(Empty, '0', "");
    scripted!(Accent, 'a', "\u{e9}");
    scripted!(Accent2, 'e', "e\u{301}");
    /// Another type by the name of an existing one.
    pub mod other {
        use super::super::*;
        scripted!(Alpha, 'o');
    }
}

/// As many job types as wanted, told apart by a number.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Many<const N: usize>(pub Data);
impl<const N: usize> BackgroundJob for Many<N> {
    fn queue_name() -> &'static str {
        static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        &NAMES.get_or_init(|| (0..100).map(|i| format!("Many{i}")).collect())[N]
    }
    fn job(self) -> aj_core::Job<Self> {
        aj_core::Job::new(self)
    }
}
impl<const N: usize> From<Data> for Many<N> {
    fn from(d: Data) -> Self {
        Many(d)
    }
}
#[async_trait]
impl<const N: usize> Executable for Many<N> {
    type Output = Out;
    async fn execute(&mut self, ctx: &JobContext) -> Out {
        perform('N', &mut self.0, ctx).await
    }
    async fn is_failed_output(&self, out: &Out) -> bool {
        !out.ok
    }
}

/// Same as the others but with the library's own default retry decision.
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct Gamma(pub Data);
impl From<Data> for Gamma {
    fn from(d: Data) -> Self {
        Gamma(d)
    }
}
#[async_trait]
impl Executable for Gamma {
    type Output = Out;
    async fn pre_execute(&mut self, ctx: &JobContext) {
        log(Ev::Pre { ty: 'G', id: ctx.job_id.clone() });
    }
    async fn execute(&mut self, ctx: &JobContext) -> Out {
        perform('G', &mut self.0, ctx).await
    }
    async fn post_execute(&mut self, mut out: Out, ctx: &JobContext) -> Out {
        log(Ev::Post { ty: 'G', id: ctx.job_id.clone() });
        out.ok = out.ok && !out.flip;
        out
    }
    async fn is_failed_output(&self, out: &Out) -> bool {
        !out.ok
    }
}

/// Dispatch on a job type letter.
#[macro_export]
macro_rules! with_ty {
    ($c:expr, $T:ident => $e:expr) => {
        match $c {
            'A' => {
                type $T = $crate::world::Alpha;
                $e
            }
            'B' => {
                type $T = $crate::world::Beta;
                $e
            }
            'G' => {
                type $T = $crate::world::Gamma;
                $e
            }
            c => panic!("type {c}"),
        }
    };
}

// ---- plugin ----

pub struct Watcher(pub u8);
#[async_trait]
impl JobPlugin for Watcher {
    async fn change_status(&self, job_id: &str, status: JobStatus) {
        log(Ev::Status { plugin: self.0, id: job_id.into(), st: stc(status) });
    }
    async fn before_run(&self, job_id: &str) {
        log(Ev::Before { plugin: self.0, id: job_id.into() });
    }
    async fn after_run(&self, job_id: &str) {
        log(Ev::After { plugin: self.0, id: job_id.into() });
    }
}

// ---- the world ----

pub struct World {
    pub sys: usize,
    pub client: usize,
    pub store: Shared,
    /// Remaining scheduling deviations (choices other than the default next arbiter).
    pub dev: Cell<u32>,
    last: Cell<usize>,
}

pub struct Slot<T>(Rc<RefCell<Option<T>>>);
impl<T> Slot<T> {
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
}

impl World {
    /// Starts the engine inside an actix system, on the given backend.
    pub fn new(kind: Kind) -> World {
        Self::on(kind, Shared::default())
    }
    pub fn on(kind: Kind, store: Shared) -> World {
        let w = Self::bare(store);
        let k = kind;
        let st = w.store.clone();
        let r = w.call("AJ::start", async move {
            AJ::start(Spy::new(k, &st));
        });
        ensure!(r.is_some(), "AJ::start did not return");
        w
    }
    /// A system without an engine.
    pub fn bare(store: Shared) -> World {
        clock::VIRTUAL.store(true, std::sync::atomic::Ordering::SeqCst);
        let runner = actix_rt::System::new();
        let sys = runner.arbiter_id();
        std::mem::forget(runner);
        World { sys, client: mc::new_client(sys), store, dev: Cell::new(0), last: Cell::new(usize::MAX) }
    }
    /// Clients on threads that belong to no actix system.
    pub fn foreign() -> World {
        World { sys: usize::MAX, client: mc::new_foreign(), store: Shared::default(), dev: Cell::new(0), last: Cell::new(usize::MAX) }
    }
    pub fn new_client(&self) -> usize {
        mc::new_client(self.sys)
    }

    /// Runs everything that can run at this instant.
    pub fn settle(&self) {
        let mut n = 0u64;
        loop {
            let e = mc::enabled();
            if e.is_empty() {
                return;
            }
            let mut order = e.clone();
            if let Some(p) = order.iter().position(|a| *a == self.last.get()) {
                let a = order.remove(p);
                order.insert(0, a);
            }
            let c = if order.len() > 1 && self.dev.get() > 0 {
                let c = explore::choose(order.len(), "sched");
                if c > 0 {
                    self.dev.set(self.dev.get() - 1);
                }
                c
            } else {
                0
            };
            self.last.set(order[c]);
            mc::step(order[c]);
            explore::note_transition();
            n += 1;
            if n > 400_000 {
                violate("the system never becomes quiescent: some task is rescheduled for ever at one instant".into());
            }
        }
    }

    pub fn spawn<T: 'static>(&self, client: usize, fut: impl Future<Output = T> + 'static) -> Slot<T> {
        let s = Rc::new(RefCell::new(None));
        let s2 = s.clone();
        mc::spawn_on(client, async move {
            let v = fut.await;
            *s2.borrow_mut() = Some(v);
        });
        Slot(s)
    }

    /// One client call, run to quiescence.  None: it did not complete (or panicked).
    pub fn call<T: 'static>(&self, what: &str, fut: impl Future<Output = T> + 'static) -> Option<T> {
        note(format!("call {what}"));
        let s = self.spawn(self.client, fut);
        self.settle();
        s.take()
    }

    /// Lets virtual time pass.
    pub fn advance(&self, ns: i64) {
        let target = mc::now_ns() + ns as u64;
        loop {
            self.settle();
            let woke = mc::advance(target);
            if !woke && mc::now_ns() >= target {
                self.settle();
                if !mc::advance(target) {
                    return;
                }
            }
        }
    }

    pub fn get(&self, ty: char, id: &str) -> Option<View> {
        let slot = RefCell::new(None);
        let id = id.to_string();
        with_ty!(ty, T => {
            let s = self.spawn(self.client, async move { AJ::get_job::<T>(&id).await });
            self.settle();
            match s.take() {
                Some(j) => *slot.borrow_mut() = j.map(|j: Job<T>| View::of(&j.context, j.data.0.clone())),
                None => violate("get_job did not complete".into()),
            }
        });
        slot.into_inner()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub id: String,
    pub status: char,
    pub run_count: usize,
    pub data: Data,
    pub jt: aj_core::JobType,
    pub retry: String,
    pub created_at: i64,
    pub enqueue_at: Option<i64>,
    pub run_at: Option<i64>,
    pub complete_at: Option<i64>,
    pub cancel_at: Option<i64>,
}
impl View {
    pub fn of(c: &JobContext, data: Data) -> View {
        View {
            id: c.job_id.clone(),
            status: stc(c.job_status),
            run_count: c.run_count,
            data,
            jt: c.job_type.clone(),
            retry: format!("{:?}", c.retry),
            created_at: c.created_at,
            enqueue_at: c.enqueue_at,
            run_at: c.run_at,
            complete_at: c.complete_at,
            cancel_at: c.cancel_at,
        }
    }
}

/// Ends an execution normally: counts the leaf with its observable outcome.
pub fn done() -> ! {
    let mut per: BTreeMap<String, String> = BTreeMap::new();
    LOG.with(|l| {
        for e in l.borrow().iter() {
            let (k, s) = match &e.ev {
                Ev::Start { ty, id, .. } => (format!("{ty}{id}"), format!("S{:.0} ", rel(e.t))),
                Ev::End { ty, id, ok, .. } => {
                    (format!("{ty}{id}"), format!("E{:.0}{} ", rel(e.t), if *ok { "+" } else { "-" }))
                }
                Ev::Ack { what } => ("ack".into(), format!("{what};")),
                _ => continue,
            };
            per.entry(k).or_default().push_str(&s);
        }
    });
    let mut acts = String::new();
    NOTES.with(|n| {
        for l in n.borrow().iter() {
            acts.push_str(l);
            acts.push_str(" | ");
        }
    });
    explore::leaf(&format!("{per:?}"), &acts);
    explore::finish()
}
