//! The reference machine.  It is stepped together with the real engine: every client call, every start and
//! end of an execution and every observation of a job is compared with what the machine prescribes.
//!
//! It says nothing about *when* inside a polling interval the engine polls, in which order it serves jobs
//! that are eligible together, or how the backend is used.
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use aj_core::{CronContext, EnqueueConfig, Error, Job, JobContext, JobType, Retry, WorkQueueConfig, AJ};
use aj::BackgroundJob;

use crate::backend::Kind;
use crate::world::*;
use crate::{ensure, explore, with_ty};

/// Allowance for timer granularity (tokio timers have millisecond resolution).
pub const SLACK: i64 = 5 * MS;

#[derive(Clone, Debug, PartialEq)]
pub enum When {
    Now,
    /// Microseconds from the moment of submission.
    In(i64),
    /// The same through `delay`.
    Delay(i64),
    Cron { expr: String, max: Option<i32>, end_ms: Option<i64> },
}
#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    Interval { max: Option<i32>, ms: i64 },
    Expo { max: Option<i32>, ms: i64 },
    Default,
    /// An interval policy that has been used before.
    Used { done: i32, max: Option<i32>, ms: i64 },
}
impl Policy {
    pub fn real(&self) -> Retry {
        match self {
            Policy::Interval { max, ms } => Retry::new_interval_retry(*max, chrono::Duration::milliseconds(*ms)),
            Policy::Expo { max, ms } => Retry::new_exponential_backoff(*max, chrono::Duration::milliseconds(*ms)),
            Policy::Default => Retry::default(),
            Policy::Used { done, max, ms } => Retry::new(
                *done,
                *max,
                aj_core::RetryStrategy::Interval(chrono::Duration::milliseconds(*ms)),
            ),
        }
    }
    /// The policy after `done` retries.
    fn used(&self, done: i32) -> Retry {
        let d = |ms: i64| chrono::Duration::milliseconds(ms);
        let s = match self {
            Policy::Interval { ms, .. } | Policy::Used { ms, .. } => aj_core::RetryStrategy::Interval(d(*ms)),
            Policy::Expo { ms, .. } => aj_core::RetryStrategy::ExponentialBackoff(d(*ms)),
            Policy::Default => aj_core::RetryStrategy::Interval(d(100)),
        };
        Retry::new(done, self.max(), s)
    }
    fn max(&self) -> Option<i32> {
        match self {
            Policy::Interval { max, .. } | Policy::Expo { max, .. } | Policy::Used { max, .. } => *max,
            Policy::Default => Some(3),
        }
    }
    /// Delay before the k-th retry (k from 1), in ns.
    pub fn delay(&self, k: i32) -> i64 {
        match self {
            Policy::Interval { ms, .. } | Policy::Used { ms, .. } => ms * MS,
            Policy::Expo { ms, .. } => (ms * MS).saturating_mul(1i64.checked_shl(k as u32).unwrap_or(i64::MAX)),
            Policy::Default => 100 * MS,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Via {
    Run,
    JustRun,
    Add,
    Enq { re_run: bool, over: bool },
    /// enqueue_job with new_skip_if_finished / new_re_run
    Skip,
    ReRun,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub ty: char,
    pub id: String,
    pub data: Data,
    pub when: When,
    pub retry: Option<Policy>,
}
impl Spec {
    pub fn new(id: &str, data: Data) -> Spec {
        Spec { ty: 'A', id: id.into(), data, when: When::Now, retry: None }
    }
    pub fn ty(mut self, t: char) -> Spec {
        self.ty = t;
        self
    }
    pub fn when(mut self, w: When) -> Spec {
        self.when = w;
        self
    }
    pub fn retry(mut self, p: Policy) -> Spec {
        self.retry = Some(p);
        self
    }
    fn short(&self) -> String {
        format!("{}{:?} n={} {:?} {:?} acts={:?}", self.ty, self.id, self.data.n, self.when, self.retry, self.data.acts)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum JT {
    Now,
    At(i64),
    Cron { expr: String, slot: i64, total: i32, max: Option<i32>, end: Option<i64> },
}

#[derive(Clone, Debug)]
pub struct MJob {
    pub data: Data,
    pub jt: JT,
    pub status: char,
    pub run_count: usize,
    pub retry: Option<(Policy, i32)>,
    pub queued_at: i64,
    pub created_ms: i64,
    pub enq_ms: Option<i64>,
    pub run_ms: i64,
    pub complete_ms: Option<i64>,
    pub cancel_ms: i64,
    pub hist: Vec<char>,
    /// A start must not happen any more (cancelled, done) unless re-queued.
    pub starts: usize,
    pub ends: usize,
    panic_at: Option<i64>,
    fuzzy_until: i64,
    phase: u8,
}
impl MJob {
    pub fn ready_at(&self) -> i64 {
        match &self.jt {
            JT::Now => i64::MIN,
            JT::At(t) => *t,
            JT::Cron { slot, .. } => *slot,
        }
    }
    fn end(&self) -> Option<i64> {
        match &self.jt {
            JT::Cron { end, .. } => *end,
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct MQueue {
    pub limit: usize,
    pub tick: i64,
    pub registered: bool,
    pub running: BTreeSet<String>,
    pub max_running: usize,
    free_since: i64,
    /// When the latest executions ended (a slot given away in a poll is taken until the next poll).
    ended: Vec<i64>,
}

pub type Key = (char, String);

pub struct Sim {
    pub w: World,
    pub jobs: BTreeMap<Key, MJob>,
    pub queues: BTreeMap<char, MQueue>,
    cursor: usize,
    pub plugins: u8,
    /// Per plugin and job: how much had happened when the plugin was registered.
    since: Vec<BTreeMap<Key, (usize, usize, bool)>>,
    /// Status notifications must arrive in order (only sound while the plugin actor keeps up).
    pub status_order: bool,
    /// Ids in the order in which they first became eligible (for order checks by the suites).
    pub started: Vec<Key>,
}

/// The slot of a cron job whose expression has none left.
const NEVER: i64 = i64::MAX / 2;
pub fn next_slot(expr: &str, after: i64) -> Option<i64> {
    let s = cron::Schedule::from_str(expr).expect("cron expression");
    s.after(&dt(after)).next().map(|d| d.timestamp_nanos_opt().unwrap())
}

fn ms(t: i64) -> i64 {
    t.div_euclid(MS)
}

impl Sim {
    pub fn new(kind: Kind) -> Sim {
        Sim::with(World::new(kind))
    }
    pub fn with(w: World) -> Sim {
        let mut queues = BTreeMap::new();
        for c in ['A', 'B', 'G'] {
            queues.insert(
                c,
                MQueue {
                    limit: 20,
                    tick: 100 * MS,
                    registered: false,
                    running: BTreeSet::new(),
                    max_running: 0,
                    free_since: i64::MIN,
                    ended: vec![],
                },
            );
        }
        Sim { w, jobs: BTreeMap::new(), queues, cursor: 0, plugins: 0, since: vec![], status_order: true, started: vec![] }
    }

    pub fn plugin(&mut self) {
        let p = self.plugins;
        let r = self.w.call("register_plugin", async move { AJ::register_plugin(Watcher(p)).await });
        ensure!(matches!(r, Some(Ok(()))), "register_plugin failed: {r:?}");
        self.plugins += 1;
        self.sync();
        self.since.push(self.jobs.iter().map(|(k, j)| (k.clone(), (j.hist.len(), j.ends, j.status == 'R'))).collect());
    }

    /// Builds the real job for a spec, submitted now.
    pub fn real_job<T>(spec: &Spec) -> Job<T>
    where
        T: BackgroundJob + From<Data>,
    {
        let mut j = Job::new(T::from(spec.data.clone())).set_id(spec.id.clone());
        match &spec.when {
            When::Now => {}
            When::In(us) => j = j.schedule_at(dt(now() + us * 1000)),
            When::Delay(us) => j = j.delay(chrono::Duration::microseconds(*us)),
            When::Cron { expr, max, end_ms } => {
                let ctx = CronContext { tick_number: 0, max_repeat: *max, end_at: end_ms.map(|e| dt(now() + e * MS)) };
                if max.is_none() && end_ms.is_none() {
                    j = j.cron(expr);
                } else {
                    j = j.job_type(JobType::new_cron(expr, ctx).expect("valid expression"));
                }
            }
        }
        if let Some(p) = &spec.retry {
            j = j.retry(p.real());
        }
        j
    }

    fn fresh(&self, s: &Spec) -> MJob {
        let t = now();
        let jt = match &s.when {
            When::Now => JT::Now,
            When::In(us) | When::Delay(us) => JT::At(t + us * 1000),
            When::Cron { expr, max, end_ms } => JT::Cron {
                expr: expr.clone(),
                slot: next_slot(expr, t).unwrap_or(NEVER),
                total: 1,
                max: *max,
                end: end_ms.map(|e| t + e * MS),
            },
        };
        MJob {
            data: s.data.clone(),
            jt,
            status: 'Q',
            run_count: 0,
            retry: s.retry.clone().map(|p| {
                let done = if let Policy::Used { done, .. } = p { done } else { 0 };
                (p, done)
            }),
            queued_at: t,
            created_ms: ms(t),
            enq_ms: Some(ms(t)),
            run_ms: 0,
            complete_ms: None,
            cancel_ms: 0,
            hist: vec!['Q'],
            starts: 0,
            ends: 0,
            panic_at: None,
            fuzzy_until: i64::MIN,
            phase: 0,
        }
    }

    /// What submitting does to the machine.
    pub fn model_submit(&mut self, s: &Spec, re_run: bool, over: bool) {
        let k = (s.ty, s.id.clone());
        self.queues.get_mut(&s.ty).unwrap().registered = true;
        let new = self.fresh(s);
        match self.jobs.get_mut(&k) {
            None => {
                self.jobs.insert(k, new);
            }
            Some(old) => match old.status {
                'R' => {}
                'Q' => {
                    if over {
                        let (hist, starts, ends, phase) = (old.hist.clone(), old.starts, old.ends, old.phase);
                        let queued = old.queued_at;
                        *old = new;
                        old.hist = hist;
                        old.starts = starts;
                        old.ends = ends;
                        old.phase = phase;
                        old.enq_ms = None;
                        old.queued_at = queued.max(now());
                    }
                }
                _ => {
                    if re_run {
                        let (mut hist, starts, ends, phase) = (old.hist.clone(), old.starts, old.ends, old.phase);
                        hist.push('Q');
                        if over {
                            *old = new;
                        } else {
                            old.status = 'Q';
                            old.queued_at = now();
                            old.enq_ms = Some(ms(now()));
                        }
                        old.hist = hist;
                        old.starts = starts;
                        old.ends = ends;
                        old.phase = phase;
                    } else if over {
                        old.data = new.data;
                    }
                }
            },
        }
    }

    pub fn submit(&mut self, s: &Spec, via: Via) {
        self.sync();
        let (re_run, over) = match &via {
            Via::Enq { re_run, over } => (*re_run, *over),
            Via::Skip => (false, true),
            _ => (true, true),
        };
        self.model_submit(s, re_run, over);
        let label = format!("submit {} via {via:?}", s.short());
        let id = s.id.clone();
        let s2 = s.clone();
        with_ty!(s.ty, T => {
            let r = self.w.call(&label, async move {
                let job: Job<T> = Sim::real_job(&s2);
                match via {
                    Via::Run => job.run().await,
                    Via::JustRun => { job.just_run(); Ok(s2.id.clone()) }
                    Via::Add => AJ::add_job(job, T::queue_name()).await,
                    Via::Skip => AJ::enqueue_job(job, EnqueueConfig::new_skip_if_finished(), T::queue_name()).await.map(|_| s2.id.clone()),
                    Via::ReRun => AJ::enqueue_job(job, EnqueueConfig::new_re_run(), T::queue_name()).await.map(|_| s2.id.clone()),
                    Via::Enq { re_run, over } => {
                        AJ::enqueue_job(job, EnqueueConfig::new(re_run, over), T::queue_name()).await.map(|_| s2.id.clone())
                    }
                }
            });
            match r {
                Some(Ok(got)) => ensure!(got == id, "submitting job {id:?} returned id {got:?}"),
                other => violate(format!("submitting job {id:?} did not succeed: {other:?}")),
            }
        });
        self.sync();
    }

    /// The context of the job itself is given: nothing but the payload changes.
    pub fn update_own(&mut self, ty: char, id: &str, data: Data) {
        let id2 = id.to_string();
        let c = with_ty!(ty, T => self.w.call("get", async move { AJ::get_job::<T>(&id2).await.map(|j| j.context) }));
        self.update_as(ty, id, data, None, c.flatten());
    }
    pub fn update(&mut self, ty: char, id: &str, data: Data, context: Option<JobContext>) {
        self.update_as(ty, id, data, context.clone(), context)
    }
    fn update_as(&mut self, ty: char, id: &str, data: Data, context: Option<JobContext>, given: Option<JobContext>) {
        self.sync();
        let k = (ty, id.to_string());
        let custom = context.is_some();
        if let Some(j) = self.jobs.get_mut(&k) {
            match j.status {
                'R' => {}
                'Q' => {
                    j.data = data.clone();
                    if custom {
                        j.enq_ms = None;
                        j.run_count = context.as_ref().unwrap().run_count;
                        j.created_ms = context.as_ref().unwrap().created_at;
                        j.retry = None;
                        j.jt = JT::Now;
                        if let JobType::ScheduledAt(t) = &context.as_ref().unwrap().job_type {
                            j.jt = JT::At(t.timestamp_nanos_opt().unwrap());
                        }
                    }
                }
                _ => {
                    j.data = data.clone();
                    j.status = 'Q';
                    j.hist.push('Q');
                    j.queued_at = now();
                    j.enq_ms = Some(ms(now()));
                    if custom {
                        j.run_count = context.as_ref().unwrap().run_count;
                        j.created_ms = context.as_ref().unwrap().created_at;
                        j.retry = None;
                        j.jt = JT::Now;
                        if let JobType::ScheduledAt(t) = &context.as_ref().unwrap().job_type {
                            j.jt = JT::At(t.timestamp_nanos_opt().unwrap());
                        }
                    }
                }
            }
        }
        let id2 = id.to_string();
        with_ty!(ty, T => {
            let r = self.w.call(&format!("update {ty}{id} n={} ctx={}", data.n, custom), async move {
                AJ::update_job::<T>(&id2, T::from(data), given).await
            });
            ensure!(matches!(r, Some(Ok(()))), "update_job {id:?} did not succeed: {r:?}");
        });
        self.sync();
    }

    pub fn cancel(&mut self, ty: char, id: &str) {
        self.sync();
        let reg = self.queues[&ty].registered;
        if let Some(j) = self.jobs.get_mut(&(ty, id.to_string())) {
            if j.status == 'Q' {
                j.status = 'C';
                j.cancel_ms = ms(now());
                j.hist.push('C');
            }
        }
        let id2 = id.to_string();
        with_ty!(ty, T => {
            let r = self.w.call(&format!("cancel {ty}{id:?}"), async move { AJ::cancel_job::<T>(id2).await });
            check_registered(reg, &r, "cancel_job");
        });
        self.sync();
    }

    pub fn retry(&mut self, ty: char, id: &str) {
        self.sync();
        let reg = self.queues[&ty].registered;
        let mut want = false;
        if let Some(j) = self.jobs.get_mut(&(ty, id.to_string())) {
            if matches!(j.status, 'F' | 'X' | 'C') {
                want = true;
                j.status = 'Q';
                j.queued_at = now();
                j.enq_ms = Some(ms(now()));
                j.hist.push('Q');
            }
        }
        let id2 = id.to_string();
        with_ty!(ty, T => {
            let r = self.w.call(&format!("retry {ty}{id:?}"), async move { AJ::retry_job::<T>(&id2).await });
            check_registered(reg, &r, "retry_job");
            if let Some(Ok(got)) = r {
                ensure!(got == want, "retry_job {id:?} answered {got}, expected {want}");
            }
        });
        self.sync();
    }

    pub fn configure(&mut self, ty: char, limit: usize, tick_ms: i64) {
        self.sync();
        let q = self.queues.get_mut(&ty).unwrap();
        let reg = q.registered;
        if reg {
            // the poll already pending may still use the old interval
            if q.running.len() < limit || tick_ms * MS != q.tick {
                q.free_since = now() + if tick_ms * MS < q.tick { q.tick } else { 0 };
            }
            q.limit = limit;
            q.tick = tick_ms * MS;
        }
        with_ty!(ty, T => {
            let r = self.w.call(&format!("configure {ty} limit={limit} tick={tick_ms}ms"), async move {
                AJ::update_work_queue::<T>(WorkQueueConfig {
                    process_tick_duration: std::time::Duration::from_millis(tick_ms as u64),
                    max_processing_jobs: limit,
                })
                .await
            });
            check_registered(reg, &r, "update_work_queue");
        });
        self.sync();
    }

    pub fn release(&mut self, ty: char, id: &str, ok: bool) {
        self.sync();
        note(format!("release {ty}{id:?} ok={ok}"));
        release(&format!("{ty}{id}"), ok);
        self.w.settle();
        self.sync();
    }

    pub fn advance_ms(&mut self, d: i64) {
        self.advance(d * MS)
    }
    pub fn advance(&mut self, ns: i64) {
        self.sync();
        note(format!("advance {:.3}ms", ns as f64 / 1e6));
        self.w.advance(ns);
        self.sync();
    }

    fn on_event(&mut self, t: i64, ev: Ev) {
        match ev {
            Ev::Pre { ty, id } => {
                let Some(j) = self.jobs.get_mut(&(ty, id.clone())) else {
                    violate(format!("a job with unknown id {id:?} of type {ty} is executed"))
                };
                ensure!(j.phase == 0, "pre_execute of {id:?} called while another execution of it is under way");
                j.phase = 1;
            }
            Ev::Start { ty, id, data, ctx } => {
                let Some(j) = self.jobs.get_mut(&(ty, id.clone())) else {
                    violate(format!("a job with unknown id {id:?} of type {ty} is executed"))
                };
                let q = self.queues.get_mut(&ty).unwrap();
                ensure!(
                    j.status == 'Q',
                    "job {ty}{id:?} starts an execution at {:.3}ms although its status is {} (executions so far {})",
                    rel(t),
                    j.status,
                    j.starts
                );
                ensure!(
                    t >= j.ready_at(),
                    "job {ty}{id:?} starts at {:.3}ms, before its due time {:.3}ms",
                    rel(t),
                    rel(j.ready_at())
                );
                if let Some(e) = j.end() {
                    ensure!(t <= e, "cron job {ty}{id:?} starts at {:.3}ms, after its end {:.3}ms", rel(t), rel(e));
                }
                ensure!(j.phase == 1, "execute of {ty}{id:?} without pre_execute before it (or overlapping)");
                j.phase = 2;
                ensure!(
                    q.running.len() < q.limit,
                    "queue {ty}: job {id:?} starts at {:.3}ms while {} jobs are running and the limit is {}",
                    rel(t),
                    q.running.len(),
                    q.limit
                );
                ensure!(
                    data == j.data,
                    "job {ty}{id:?} is executed with data {data:?}, submitted was {:?}",
                    j.data
                );
                ensure!(
                    ctx.id == id && ctx.run_count == j.run_count + 1,
                    "job {ty}{id:?} is executed with run_count {} (id {:?}), expected {}",
                    ctx.run_count,
                    ctx.id,
                    j.run_count + 1
                );
                q.running.insert(id.clone());
                q.max_running = q.max_running.max(q.running.len());
                q.ended.retain(|e| *e >= t - SLACK);
                if q.running.len() + q.ended.len() >= q.limit {
                    q.free_since = q.free_since.max(t);
                }
                j.run_count += 1;
                j.status = 'R';
                j.run_ms = ms(t);
                j.hist.push('R');
                let act = j.data.acts.get(j.starts).or(j.data.acts.last()).cloned().unwrap_or(Act::Ok);
                j.starts += 1;
                match act {
                    Act::Panic => {
                        self.finish_run(ty, &id, t, None);
                    }
                    Act::SleepPanic { us } => {
                        // timers fire with millisecond granularity
                        j.panic_at = Some(t + us as i64 * 1000);
                        j.fuzzy_until = t + us as i64 * 1000 + 2 * MS;
                    }
                    _ => {}
                }
                self.started.push((ty, id));
            }
            Ev::End { ty, id, ok, data } => {
                let j = self.jobs.get_mut(&(ty, id.clone())).unwrap();
                ensure!(j.phase == 2, "end of {id:?} out of order");
                j.phase = 3;
                j.data = data;
                self.finish_run(ty, &id, t, Some(ok));
            }
            Ev::Post { ty, id } => {
                let j = self.jobs.get_mut(&(ty, id.clone())).unwrap();
                ensure!(j.phase == 3, "post_execute of {id:?} out of order");
                j.phase = 0;
            }
            _ => {}
        }
    }

    fn finish_run(&mut self, ty: char, id: &str, t: i64, out: Option<bool>) {
        let j = self.jobs.get_mut(&(ty, id.to_string())).unwrap();
        let q = self.queues.get_mut(&ty).unwrap();
        q.running.remove(id);
        q.ended.retain(|e| *e >= t - SLACK);
        q.ended.push(t);
        if q.running.len() + q.ended.len() >= q.limit {
            q.free_since = q.free_since.max(t);
        }
        j.ends += 1;
        j.panic_at = None;
        let Some(ok) = out else {
            j.phase = 0;
            j.status = 'X';
            j.complete_ms = Some(ms(t));
            j.hist.push('X');
            return;
        };
        let requeue = |j: &mut MJob, at: i64| {
            j.status = 'Q';
            j.queued_at = t;
            j.enq_ms = Some(ms(t));
            j.hist.push('Q');
            match &mut j.jt {
                JT::Cron { slot, .. } => *slot = at,
                jt => *jt = JT::At(at),
            }
        };
        let mut retry_delay = None;
        if let Some((p, done)) = &mut j.retry {
            if let (Some((own, times)), true) = (j.data.own_retry, ty != 'G') {
                if j.data.n < times {
                    retry_delay = Some(own * MS);
                }
            } else if !ok && p.max().is_none_or(|m| *done < m) {
                *done = done.saturating_add(1);
                retry_delay = Some(p.delay(*done));
            }
        }
        if let Some(d) = retry_delay {
            requeue(j, t.saturating_add(d));
            return;
        }
        if let JT::Cron { expr, total, max, end, .. } = &mut j.jt {
            if let Some(s) = next_slot(expr, t) {
                if max.is_none_or(|m| *total < m) && end.is_none_or(|e| s <= e) {
                    *total += 1;
                    requeue(j, s);
                    return;
                }
            }
        }
        j.status = if ok { 'F' } else { 'X' };
        j.complete_ms = Some(ms(t));
        j.hist.push(j.status);
    }

    /// Consumes what happened since the last call and checks it.
    pub fn sync(&mut self) {
        let new: Vec<Entry> = LOG.with(|l| l.borrow()[self.cursor..].to_vec());
        self.cursor += new.len();
        for e in new {
            self.expire(e.t);
            self.on_event(e.t, e.ev);
        }
        let t = now();
        self.expire(t);
        self.deadlines(t);
    }

    /// Time-triggered changes: scripted panics, recurrences that are over.
    fn expire(&mut self, t: i64) {
        let due: Vec<(Key, i64)> =
            self.jobs.iter().filter_map(|(k, j)| j.panic_at.filter(|p| *p <= t).map(|p| (k.clone(), p))).collect();
        for ((ty, id), _) in due {
            let fu = self.jobs[&(ty, id.clone())].fuzzy_until;
            if t >= fu {
                self.finish_run(ty, &id, fu, None);
                let j = self.jobs.get_mut(&(ty, id)).unwrap();
                j.complete_ms = None;
            }
        }
        for ((ty, _), j) in self.jobs.iter_mut() {
            if j.status != 'Q' {
                continue;
            }
            if let JT::Cron { max, end, total, slot, .. } = &j.jt {
                let q = &self.queues[ty];
                let mut over = i64::MAX;
                if *slot == NEVER && j.run_count == 0 {
                    over = j.queued_at;
                }
                if let Some(e) = end {
                    over = over.min((*e).max(j.queued_at));
                }
                if max.is_some_and(|m| m < *total) {
                    over = over.min(j.queued_at);
                }
                if over < t {
                    // finished at the next poll after that
                    let settled = over.max(q.free_since) + q.tick + SLACK;
                    if t > settled {
                        j.status = 'F';
                        j.complete_ms = None;
                        j.hist.push('F');
                    } else {
                        j.fuzzy_until = settled + 1;
                    }
                }
            }
        }
    }

    /// Eligible jobs must have started.
    fn deadlines(&mut self, t: i64) {
        for ((ty, id), j) in &self.jobs {
            if j.status != 'Q' {
                continue;
            }
            let q = &self.queues[ty];
            if q.running.len() >= q.limit {
                continue;
            }
            let base = j.ready_at().max(j.queued_at).max(q.free_since);
            let by = base.saturating_add(q.tick + SLACK);
            if j.end().is_some_and(|e| by > e) {
                continue;
            }
            ensure!(
                t <= by,
                "job {ty}{id:?} is eligible since {:.3}ms, {} of {} slots are in use, but at {:.3}ms it has not started",
                rel(base),
                q.running.len(),
                q.limit,
                rel(t)
            );
        }
    }

    /// Compares every job with what the API reports.
    pub fn check(&mut self) {
        self.sync();
        let t = now();
        let keys: Vec<Key> = self.jobs.keys().cloned().collect();
        let mut digest = String::new();
        for (ty, id) in keys {
            let j = self.jobs[&(ty, id.clone())].clone();
            if t < j.fuzzy_until {
                continue;
            }
            let v = self.w.get(ty, &id);
            let Some(v) = v else { violate(format!("get_job {ty}{id:?} finds nothing, expected status {}", j.status)) };
            ensure!(v.id == id, "get_job {id:?} returned the job {:?}", v.id);
            ensure!(
                v.status == j.status,
                "job {ty}{id:?}: get_job reports status {}, expected {} at {:.3}ms",
                v.status,
                j.status,
                rel(t)
            );
            if j.status != 'R' {
                ensure!(v.data == j.data, "job {ty}{id:?}: get_job reports data {:?}, expected {:?}", v.data, j.data);
                ensure!(
                    v.run_count == j.run_count,
                    "job {ty}{id:?}: get_job reports run_count {}, expected {}",
                    v.run_count,
                    j.run_count
                );
            } else {
                // what the execution itself changes shows up when it is over
                let mut late = j.data.clone();
                late.n += late.bump;
                ensure!(
                    v.data == j.data || v.data == late,
                    "job {ty}{id:?} is running with data {:?}, get_job reports {:?}",
                    j.data,
                    v.data
                );
                ensure!(
                    v.run_count == j.run_count || v.run_count + 1 == j.run_count,
                    "job {ty}{id:?} is in execution {}, get_job reports run_count {}",
                    j.run_count,
                    v.run_count
                );
            }
            ensure!(v.created_at == j.created_ms, "job {ty}{id:?}: created_at changed");
            if let Some(e) = j.enq_ms {
                ensure!(v.enqueue_at == Some(e), "job {ty}{id:?}: enqueue_at {:?}, expected {e}", v.enqueue_at);
            }
            if j.status != 'R' {
                let last = (j.run_count > 0).then_some(j.run_ms);
                ensure!(v.run_at == last, "job {ty}{id:?}: run_at {:?}, expected {last:?}", v.run_at);
            }
            match j.status {
                'Q' => {}
                'R' => ensure!(v.run_at == Some(j.run_ms), "job {ty}{id:?}: run_at {:?}, expected {}", v.run_at, j.run_ms),
                'F' | 'X' => {
                    if let Some(c) = j.complete_ms {
                        ensure!(v.complete_at == Some(c), "job {ty}{id:?}: complete_at {:?}, expected {c}", v.complete_at);
                        ensure!(v.run_at == Some(j.run_ms), "job {ty}{id:?}: run_at {:?}, expected {}", v.run_at, j.run_ms);
                    }
                }
                _ => ensure!(v.cancel_at == Some(j.cancel_ms), "job {ty}{id:?}: cancel_at {:?}, expected {}", v.cancel_at, j.cancel_ms),
            }
            self.check_type(ty, &id, &j, &v);
            // the policy stays the same; how often it was used is not looked at here
            let policy = match &j.retry {
                None => v.retry == "None",
                Some((p, done)) => (done.saturating_sub(400).max(0)..=done.saturating_add(2)).any(|k| v.retry == format!("{:?}", Some(p.used(k)))),
            };
            ensure!(policy, "job {ty}{id:?}: get_job reports the retry policy {}, expected {:?}", v.retry, j.retry);
            digest.push_str(&format!("{ty}{id}{}{}@{:.0};", j.status, j.run_count, rel(j.ready_at().max(0)).max(0.0)));
        }
        self.check_hooks();
        explore::note_state(&format!("{:.1}|{digest}|{:?}", rel(t), self.queues.values().map(|q| q.limit).collect::<Vec<_>>()));
    }

    fn check_type(&self, ty: char, id: &str, j: &MJob, v: &View) {
        if j.status != 'Q' {
            return;
        }
        let shown = match &v.jt {
            JobType::Normal => None,
            JobType::ScheduledAt(t) => Some(t.timestamp_micros()),
            JobType::Cron(_, t, _, _) => Some(t.timestamp_micros()),
        };
        match (&j.jt, shown) {
            (JT::Now, _) => {}
            (JT::At(t), Some(s)) | (JT::Cron { slot: t, .. }, Some(s)) => {
                if *t < i64::MAX / 4 {
                    ensure!(
                        s == t.div_euclid(1000),
                        "job {ty}{id:?}: get_job reports due time {:.3}ms, expected {:.3}ms",
                        rel(s * 1000),
                        rel(*t)
                    )
                }
            }
            (_, None) => violate(format!("job {ty}{id:?}: get_job reports no due time although it is scheduled")),
        }
        if let (JT::Cron { expr, .. }, JobType::Cron(e2, _, _, _)) = (&j.jt, &v.jt) {
            ensure!(expr == e2, "job {ty}{id:?}: cron expression became {e2:?}");
        } else {
            ensure!(
                !matches!(j.jt, JT::Cron { .. }) ,
                "job {ty}{id:?}: a cron job turned into {:?}",
                v.jt
            );
        }
    }

    fn check_hooks(&self) {
        if self.plugins == 0 {
            return;
        }
        let log = LOG.with(|l| l.borrow().clone());
        let t = now();
        for ((ty, id), j) in &self.jobs {
            if t < j.fuzzy_until {
                continue;
            }
            for p in 0..self.plugins {
                // B (before) P (pre_execute) S (start) E (end) Q (post_execute) A (after) per execution
                let mut s = String::new();
                let mut st = vec![];
                for e in &log {
                    match &e.ev {
                        Ev::Before { plugin, id: i } if *plugin == p && i == id => s.push('B'),
                        Ev::After { plugin, id: i } if *plugin == p && i == id => s.push('A'),
                        Ev::Pre { id: i, .. } if i == id => s.push('P'),
                        Ev::Start { id: i, .. } if i == id => s.push('S'),
                        Ev::End { id: i, .. } if i == id => s.push('E'),
                        Ev::Post { id: i, .. } if i == id => s.push('Q'),
                        Ev::Status { plugin, id: i, st: c } if *plugin == p && i == id => st.push(*c),
                        _ => {}
                    }
                }
                let panics = j.data.acts.iter().any(|a| matches!(a, Act::Panic | Act::SleepPanic { .. }));
                let (hist0, ends0, run0) = self.since[p as usize].get(&(*ty, id.clone())).copied().unwrap_or((0, 0, false));
                if !panics {
                    let running = j.status == 'R';
                    let want = "BPSEQA".repeat(j.ends) + if running { "BPS" } else { "" };
                    // what happened before the plugin was registered it has not seen
                    let want: String = if run0 {
                        "PSEQ".repeat(ends0) + &want.chars().skip(6 * ends0 + 1).collect::<String>()
                    } else {
                        "PSEQ".repeat(ends0) + &want.chars().skip(6 * ends0).collect::<String>()
                    };
                    ensure!(
                        s == want,
                        "job {ty}{id:?}, plugin {p}: hooks and executions happened as {s:?}, expected {want:?} (B=before_run P=pre_execute S=start E=end Q=post_execute A=after_run)"
                    );
                }
                let mut want = j.hist[hist0..].to_vec();
                if !self.status_order {
                    st.sort();
                    want.sort();
                }
                ensure!(
                    st == want,
                    "job {ty}{id:?}, plugin {p}: change_status reported {st:?}, the job went through {want:?}"
                );
            }
        }
    }

    pub fn status(&self, ty: char, id: &str) -> char {
        self.jobs.get(&(ty, id.to_string())).map_or('-', |j| j.status)
    }
    /// Lets every job that still can do something do it (gates are released as successes).
    pub fn drain(&mut self) {
        for _ in 0..400 {
            self.sync();
            let mut busy = false;
            let running: Vec<Key> = self
                .queues
                .iter()
                .flat_map(|(t, q)| q.running.iter().map(move |i| (*t, i.clone())))
                .collect();
            for (ty, id) in running {
                let j = &self.jobs[&(ty, id.clone())];
                let act = j.data.acts.get(j.starts - 1).or(j.data.acts.last());
                if act == Some(&Act::Gate) {
                    self.release(ty, &id, true);
                }
                busy = true;
            }
            let t = now();
            let mut far = 0;
            for j in self.jobs.values() {
                if j.status == 'Q' {
                    let wait = j.ready_at().saturating_sub(t).clamp(0, 5000 * MS);
                    far = far.max(wait);
                    busy = true;
                }
            }
            if !busy {
                break;
            }
            self.advance(far + 110 * MS);
        }
        self.check();
    }
    pub fn end(mut self) -> ! {
        self.check();
        done()
    }
}

fn check_registered<T: std::fmt::Debug>(reg: bool, r: &Option<Result<T, Error>>, what: &str) {
    if reg {
        ensure!(matches!(r, Some(Ok(_))), "{what} did not succeed: {r:?}");
    } else {
        ensure!(
            matches!(r, Some(Err(Error::NoQueueRegister))),
            "{what} before any job of the type was submitted answered {r:?}, expected NoQueueRegister"
        );
    }
}
