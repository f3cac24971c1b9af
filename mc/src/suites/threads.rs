//! Suites on real OS threads: the in-memory backend (C14) and the start of the engine (C18), both from a
//! shadow build of the crate whose `std` locks, atomics and threads are under the controlled scheduler.
use super::*;
use crate::backend::Store;
use crate::cli::thorough;
use crate::explore::{self, choose, pick};
use crate::world::violate;
use aj_core_t::mem::InMemory;
use aj_core_t::types::{Backend, QueueDirection};
use std::sync::{Arc, Mutex};
use tstd::sched;

pub fn suites() -> Vec<Suite> {
    vec![
        q("C14", "c14-1x3", "3 threads, 1 operation each out of 17 on contended queues and keys, from 3 contents: every interleaving", c14_1x3),
        q("C14", "c14-2x2", "2 threads, 2 operations each out of 10 (13): every interleaving", c14_2x2),
        q("C14", "c14-fresh", "2 or 3 threads that create the same queue or hash: every interleaving", c14_fresh),
        t("C14", "c14-2x3", "2 threads, 3 operations each out of 8: every interleaving", c14_2x3),
        t("C14", "c14-3x2", "3 threads, 2 operations each out of 7, at most 3 preemptions", c14_3x2),
        q("C17", "c17-threads", "two queues of different types on two OS threads and one in-memory backend, 1 or 2 calls each out of 8 (submit, delay, poll, cancel, retry, resubmit, read, limit), at most 3 or 2 preemptions: every interleaving leaves each queue as if it were alone", c17_threads),
        q("C18", "c18-threads", "2 or 3 OS threads start the engine, with or without reading its address before: every interleaving with at most 2 (3) preemptions gives one engine", c18_threads),
    ]
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Push(&'static str, &'static str),
    Move(&'static str, &'static str, usize, bool, bool),
    Remove(&'static str, &'static str),
    Get(&'static str, bool),
    Count(&'static str),
    Upsert(&'static str, &'static str),
    Hget(&'static str),
    HgetOther,
}
fn dir(front: bool) -> QueueDirection {
    if front {
        QueueDirection::Front
    } else {
        QueueDirection::Back
    }
}
fn real(b: &InMemory, op: &Op) -> String {
    match op {
        Op::Push(q, i) => format!("{:?}", b.queue_push(q, i).is_ok()),
        Op::Move(f, t, n, x, y) => format!("{:?}", b.queue_move(f, t, *n, dir(*x), dir(*y)).ok()),
        Op::Remove(q, i) => format!("{:?}", b.queue_remove(q, i).is_ok()),
        Op::Get(q, f) => format!("{:?}", b.queue_get(q, 5, dir(*f)).ok()),
        Op::Count(q) => format!("{:?}", b.queue_count(q).ok()),
        Op::Upsert(k, v) => format!("{:?}", b.storage_upsert("h", k, v.to_string()).is_ok()),
        Op::Hget(k) => format!("{:?}", b.storage_get("h", k).ok()),
        Op::HgetOther => format!("{:?}", b.storage_get("g", "k").ok()),
    }
}
fn model(s: &mut Store, op: &Op) -> String {
    match op {
        Op::Push(q, i) => s.push(q, i),
        Op::Move(f, t, n, x, y) => {
            return format!("{:?}", Some((0..*n).filter_map(|_| s.mv1(f, t, *x, *y)).collect::<Vec<_>>()))
        }
        Op::Remove(q, i) => {
            s.remove(q, i);
        }
        Op::Get(q, f) => return format!("{:?}", Some(s.get(q, 5, *f))),
        Op::Count(q) => return format!("{:?}", Some(s.count(q))),
        Op::Upsert(k, v) => s.upsert("h", k, v),
        Op::Hget(k) => return format!("{:?}", Some(s.hget("h", k))),
        Op::HgetOther => return format!("{:?}", Some(s.hget("g", "k"))),
    }
    "true".into()
}
fn fill(b: &InMemory, s: &mut Store, what: usize) {
    let ops: &[Op] = match what {
        0 => &[Op::Push("a", "x"), Op::Push("a", "y"), Op::Upsert("k", "0")],
        1 => &[Op::Push("a", "x"), Op::Push("b", "y")],
        _ => &[],
    };
    for op in ops {
        real(b, op);
        model(s, op);
    }
}

/// One call: thread, position in the history of its call and its return, operation, answer.
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    call: usize,
    ret: usize,
    op: Op,
    answer: String,
}

/// Is there an order of the calls, compatible with the real-time order, in which one backend gives exactly
/// these answers and ends with these contents?
fn linearizable(calls: &[Call], s: &Store, end: &dyn Fn(&Store) -> bool) -> bool {
    if calls.is_empty() {
        return end(s);
    }
    for (i, c) in calls.iter().enumerate() {
        if calls.iter().any(|d| d.ret < c.call) {
            continue;
        }
        let mut s2 = s.clone();
        if model(&mut s2, &c.op) != c.answer {
            continue;
        }
        let mut rest = calls.to_vec();
        rest.remove(i);
        if linearizable(&rest, &s2, end) {
            return true;
        }
    }
    false
}

fn c14(progs: Vec<Vec<Op>>, what: usize, bound: usize) -> ! {
    let shown = format!("contents {what}, threads {progs:?}");
    let (execs, decisions) = sched::explore(
        bound,
        || {
            let b = Arc::new(InMemory::default());
            let mut s = Store::default();
            fill(&b, &mut s, what);
            let hist: Arc<Mutex<(usize, Vec<Call>)>> = Arc::default();
            let bodies = progs
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let (ops, b, hist) = (ops.clone(), b.clone(), hist.clone());
                    Box::new(move || {
                        for (i, op) in ops.into_iter().enumerate() {
                            if i > 0 {
                                sched::point();
                            }
                            let call = {
                                let mut h = hist.lock().unwrap();
                                h.0 += 1;
                                h.0
                            };
                            let answer = real(&b, &op);
                            let mut h = hist.lock().unwrap();
                            h.0 += 1;
                            let ret = h.0;
                            h.1.push(Call { thread: t, call, ret, op, answer });
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            (bodies, (b, s, hist))
        },
        |o, (b, s, hist)| {
            explore::note_eval();
            let order: Vec<usize> = o.trace.iter().map(|d| d.chosen).collect();
            let h = hist.lock().unwrap().1.clone();
            if o.diverged {
                // a different number of scheduling points than in the execution it continues
                violate(format!("{shown}: the operations do not behave the same when repeated (schedule {order:?})"));
            }
            if o.deadlock {
                violate(format!("{shown}: deadlock under schedule {order:?}, completed calls {h:?}"));
            }
            if !o.panics.is_empty() {
                violate(format!("{shown}: panic {:?} under schedule {order:?}", o.panics));
            }
            let read = |q: &str| (b.queue_get(q, 9, dir(true)).ok(), b.queue_count(q).ok());
            let got: Vec<_> = ["a", "b", "c"].iter().map(|q| read(q)).collect();
            let kv: Vec<_> = ["k", "l"].iter().map(|k| b.storage_get("h", k).ok().flatten()).collect();
            let end = |s: &Store| {
                ["a", "b", "c"].iter().zip(&got).all(|(q, g)| g.0.as_ref() == Some(&s.get(q, 9, true)) && g.1 == Some(s.count(q)))
                    && ["k", "l"].iter().zip(&kv).all(|(k, v)| *v == s.hget("h", k))
            };
            if !linearizable(&h, &s, &end) {
                violate(format!(
                    "{shown}: no order of the calls explains the answers {h:?} and the final contents {got:?} {kv:?} (schedule {order:?})"
                ));
            }
            let mut by: Vec<_> = h.iter().map(|c| (c.thread, c.call, c.answer.clone())).collect();
            by.sort();
            explore::note_state(&format!("{shown}{got:?}{kv:?}"));
            explore::note_outcome(&format!("{shown}{:?}{got:?}{kv:?}", by.iter().map(|x| &x.2).collect::<Vec<_>>()));
            explore::alive()
        },
    );
    explore::note_transitions(decisions);
    explore::note_leaves(execs.saturating_sub(1));
    explore::leaf(&shown, "");
    explore::finish()
}

fn menu() -> Vec<Op> {
    use Op::*;
    vec![
        Push("a", "z"),
        Move("a", "b", 1, false, true),
        Remove("a", "x"),
        Move("a", "b", 2, false, true),
        Upsert("k", "1"),
        Get("a", true),
        Count("b"),
        Hget("k"),
        Move("b", "a", 1, true, false),
        Push("b", "x"),
        Move("a", "a", 1, false, true),
        Upsert("l", "2"),
        Get("b", false),
        Count("a"),
        Upsert("k", "3"),
        Remove("b", "x"),
        HgetOther,
    ]
}
const ALL: usize = 99;

fn c14_1x3() {
    let what = choose(3, "contents");
    let m = menu();
    let i = choose(m.len(), "op");
    let j = i + choose(m.len() - i, "op");
    let k = j + choose(m.len() - j, "op");
    c14(vec![vec![m[i].clone()], vec![m[j].clone()], vec![m[k].clone()]], what, ALL)
}
fn c14_2x2() {
    let what = choose(2, "contents");
    let n = if thorough() { 13 } else { 10 };
    let m = &menu()[..n];
    let p: Vec<usize> = (0..4).map(|_| choose(n, "op")).collect();
    if (p[0], p[1]) > (p[2], p[3]) {
        explore::finish() // the same with the threads renamed
    }
    let p: Vec<Op> = p.iter().map(|i| m[*i].clone()).collect();
    c14(vec![p[..2].to_vec(), p[2..].to_vec()], what, ALL)
}
fn c14_fresh() {
    use Op::*;
    let m = [
        Push("c", "x"),
        Push("c", "y"),
        Move("a", "c", 1, false, true),
        Move("a", "c", 2, true, false),
        Upsert("k", "1"),
        Upsert("l", "2"),
        Get("c", true),
        Remove("c", "x"),
    ];
    let n = 2 + choose(2, "threads");
    let len = if n == 2 { 2 } else { 1 };
    let progs: Vec<Vec<usize>> = (0..n).map(|_| (0..len).map(|_| choose(m.len(), "op")).collect()).collect();
    if progs.windows(2).any(|w| w[0] > w[1]) {
        explore::finish() // the same with the threads renamed
    }
    let progs = progs.iter().map(|p| p.iter().map(|i| m[*i].clone()).collect()).collect();
    c14(progs, 1 + choose(2, "contents"), ALL)
}
fn c14_2x3() {
    let m = &menu()[..8];
    let p: Vec<Op> = (0..6).map(|_| pick(m, "op").clone()).collect();
    c14(vec![p[..3].to_vec(), p[3..].to_vec()], 0, ALL)
}
fn c14_3x2() {
    let m = &menu()[..7];
    let p: Vec<Op> = (0..6).map(|_| pick(m, "op").clone()).collect();
    c14(vec![p[..2].to_vec(), p[2..4].to_vec(), p[4..].to_vec()], 0, 3)
}

fn c18_threads() {
    let n = 2 + choose(2, "threads");
    let reads: Vec<bool> = (0..n).map(|_| choose(2, "reads first") == 1).collect();
    let twice = n == 2 && choose(2, "starts twice") == 1;
    if reads.windows(2).any(|w| w[0] > w[1]) {
        explore::finish() // the same with the threads renamed
    }
    let bound = if thorough() { 3 } else { 2 };
    // Each execution needs fresh program statics: run it in a child, which reports its decisions.
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut execs = 0;
    while let Some(prefix) = stack.pop() {
        if !explore::alive() {
            explore::finish()
        }
        let (reads, p2) = (reads.clone(), prefix.clone());
        let r = explore::in_child(move || {
            let addrs: Arc<Mutex<Vec<aj_core_addr::A>>> = Arc::default();
            let bodies = (0..n)
                .map(|i| {
                    let (addrs, read) = (addrs.clone(), reads[i]);
                    Box::new(move || {
                        if read {
                            if let Some(a) = aj_core_t::get_aj_address() {
                                addrs.lock().unwrap().push(a);
                            }
                        }
                        for _ in 0..1 + twice as usize {
                            let a = aj_core_t::AJ::start(InMemory::default());
                            addrs.lock().unwrap().push(a);
                            let a = aj_core_t::get_aj_address();
                            addrs.lock().unwrap().extend(a);
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let o = sched::run(&p2, bodies);
            let order: Vec<usize> = o.trace.iter().map(|d| d.chosen).collect();
            let mut bad = String::new();
            if o.deadlock {
                bad = format!("deadlock while starting, schedule {order:?}");
            } else if !o.panics.is_empty() {
                bad = format!("panic while starting: {:?}, schedule {order:?}", o.panics);
            } else {
                let a = addrs.lock().unwrap();
                let last = aj_core_t::get_aj_address();
                if last.is_none() {
                    bad = format!("no engine after {n} threads started it, schedule {order:?}");
                } else if !a.iter().all(|x| Some(x) == last.as_ref()) {
                    bad = format!("{n} threads that started the engine hold different engines, schedule {order:?}");
                } else if a.len() < n * 2 * (1 + twice as usize) {
                    bad = format!("the address is not readable after a start returned, schedule {order:?}");
                }
            }
            let trace: Vec<_> = o.trace.iter().map(|d| (d.enabled.clone(), d.running, d.chosen)).collect();
            serde_json::to_vec(&(bad, trace)).unwrap()
        });
        let (bad, trace): (String, Vec<(Vec<usize>, Option<usize>, usize)>) = match r {
            Ok(b) => serde_json::from_slice(&b).expect("child result"),
            Err(m) => violate(format!("the process died while starting: {m}")),
        };
        explore::note_eval();
        explore::note_transitions(trace.len() as u64);
        if !bad.is_empty() {
            violate(bad);
        }
        execs += 1;
        explore::note_state(&format!("{n}{:?}", trace));
        let mut cost = 0;
        for (i, (en, running, chosen)) in trace.iter().enumerate() {
            let pre = |to: usize| running.is_some_and(|r| r != to) as usize;
            if i >= prefix.len() {
                for alt in en.iter().filter(|a| *a != chosen) {
                    if cost + pre(*alt) <= bound {
                        let mut p: Vec<usize> = trace[..i].iter().map(|d| d.2).collect();
                        p.push(*alt);
                        stack.push(p);
                    }
                }
            }
            cost += pre(*chosen);
        }
    }
    explore::note_leaves(execs - 1);
    explore::leaf(&format!("{n} threads, {execs} schedules"), "");
    explore::finish()
}

// ---- two queues side by side ----

use aj_core_t::queue::{EnqueueConfig, UpdateWorkQueue, WorkQueue, WorkQueueConfig};

macro_rules! side {
    ($t:ident) => {
        #[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
        struct $t(u8);
        #[async_trait::async_trait]
        impl aj_core_t::Executable for $t {
            type Output = ();
            async fn execute(&mut self, _: &aj_core_t::JobContext) {}
        }
        impl From<u8> for $t {
            fn from(n: u8) -> Self {
                $t(n)
            }
        }
    };
}
side!(Left);
side!(Right);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Call2 {
    Submit,
    Poll,
    Cancel,
    Retry,
    Delayed,
    Again,
    Read,
    Limit,
}
const CALLS: [Call2; 8] = [Call2::Submit, Call2::Poll, Call2::Cancel, Call2::Again, Call2::Limit, Call2::Retry, Call2::Delayed, Call2::Read];

/// The queue of one type: what was submitted before, the calls, and what can
/// be seen of it afterwards.
struct Side<M> {
    name: &'static str,
    b: Arc<InMemory>,
    m: std::marker::PhantomData<M>,
}
impl<M> Side<M>
where
    M: aj_core_t::Executable + From<u8> + Send + Sync + Unpin + Clone + serde::Serialize + serde::de::DeserializeOwned + 'static,
{
    fn new(name: &'static str, b: &Arc<InMemory>) -> Self {
        Side { name, b: b.clone(), m: std::marker::PhantomData }
    }
    fn queue(&self) -> WorkQueue<M> {
        WorkQueue::new(self.name.to_string(), self.b.clone())
    }
    fn id(&self, k: &str) -> String {
        format!("{}-{k}", self.name)
    }
    fn job(&self, n: u8, k: &str) -> aj_core_t::Job<M> {
        aj_core_t::Job::new(M::from(n)).set_id(self.id(k))
    }
    fn before(&self, pre: usize) {
        let _system = actix_rt::System::new();
        let q = self.queue();
        if pre > 0 {
            q.run_with_config(self.job(1, "p"), EnqueueConfig::new(true, true)).expect("submission");
        }
        if pre > 1 {
            q.cancel_job(&self.id("p")).expect("cancellation");
        }
    }
    fn calls(&self, calls: &[Call2], between: &dyn Fn()) -> String {
        use actix::{Context, Handler};
        let system = actix_rt::System::new();
        let mut q = self.queue();
        let mut cx = Context::new();
        let mut seen = vec![];
        let show = |r: Result<(), aj_core_t::Error>| format!("{}", r.is_ok());
        for c in calls {
            between();
            seen.push(match c {
                Call2::Submit => show(q.run_with_config(self.job(2, "n"), EnqueueConfig::new(true, true))),
                Call2::Poll => {
                    q.process_jobs(&mut cx);
                    String::new()
                }
                Call2::Cancel => show(q.cancel_job(&self.id("p"))),
                Call2::Retry => format!("{:?}", q.retry_job(&self.id("p")).ok()),
                Call2::Delayed => show(q.run_with_config(self.job(3, "d").delay(chrono::Duration::hours(1)), EnqueueConfig::new(true, true))),
                Call2::Again => show(q.run_with_config(self.job(4, "p"), EnqueueConfig::new(true, true))),
                Call2::Read => format!("{:?}", q.get_job(&self.id("p")).ok().map(|j| j.map(|j| j.context.job_status))),
                Call2::Limit => {
                    q.handle(UpdateWorkQueue { config: WorkQueueConfig { max_processing_jobs: 0, ..Default::default() } }, &mut cx);
                    String::new()
                }
            });
        }
        drop(cx);
        drop(system);
        seen.join(" ")
    }
    fn after(&self) -> String {
        use aj_core_t::JobStatus;
        let _system = actix_rt::System::new();
        let q = self.queue();
        let mut seen = vec![];
        for s in [JobStatus::Queued, JobStatus::Running, JobStatus::Canceled, JobStatus::Finished, JobStatus::Failed] {
            seen.push(format!("{:?}", self.b.queue_get(&q.format_queue_name(s), 9, dir(true)).ok()));
        }
        for k in ["p", "n", "d"] {
            let j = q.get_job(&self.id(k)).ok().flatten();
            seen.push(format!("{:?}", j.map(|j| (serde_json::to_string(&j.data).ok(), j.context.job_status, j.context.run_count))));
        }
        seen.join(" ")
    }
    fn alone(name: &'static str, pre: usize, calls: &[Call2]) -> String {
        let s = Self::new(name, &Arc::default());
        s.before(pre);
        let c = s.calls(calls, &|| {});
        format!("{c}; {}", s.after())
    }
}

fn c17_threads() {
    let n = 1 + choose(2, "calls each");
    let pre = if n == 1 || thorough() { choose(3, "before") } else { 1 };
    let p: Vec<Call2> = (0..2 * n).map(|_| *pick(&CALLS, "call")).collect();
    if p[..n] > p[n..] {
        explore::finish() // the same with the threads renamed
    }
    let shown = format!("contents {pre}, queues {:?} and {:?}", &p[..n], &p[n..]);
    let bound = if n == 1 { 3 } else { 2 };
    let alone = [Side::<Left>::alone("Left", pre, &p[..n]), Side::<Right>::alone("Right", pre, &p[n..])];
    let (execs, decisions) = sched::explore(
        bound,
        || {
            let b: Arc<InMemory> = Arc::default();
            Side::<Left>::new("Left", &b).before(pre);
            Side::<Right>::new("Right", &b).before(pre);
            let out: Arc<Mutex<[String; 2]>> = Arc::default();
            let bodies = (0..2)
                .map(|t| {
                    let (calls, b, out) = (p[n * t..n * t + n].to_vec(), b.clone(), out.clone());
                    Box::new(move || {
                        let seen = if t == 0 {
                            Side::<Left>::new("Left", &b).calls(&calls, &sched::point)
                        } else {
                            Side::<Right>::new("Right", &b).calls(&calls, &sched::point)
                        };
                        out.lock().unwrap()[t] = seen;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            (bodies, (b, out))
        },
        |o, (b, out)| {
            explore::note_eval();
            let order: Vec<usize> = o.trace.iter().map(|d| d.chosen).collect();
            if o.deadlock {
                violate(format!("{shown}: deadlock under schedule {order:?}"));
            }
            if !o.panics.is_empty() {
                violate(format!("{shown}: panic {:?} under schedule {order:?}", o.panics));
            }
            let did = out.lock().unwrap().clone();
            let after = [Side::<Left>::new("Left", &b).after(), Side::<Right>::new("Right", &b).after()];
            for t in 0..2 {
                let got = format!("{}; {}", did[t], after[t]);
                if got != alone[t] {
                    violate(format!("{shown}: beside the other queue, schedule {order:?}: {got}; alone: {}", alone[t]));
                }
            }
            explore::note_state(&format!("{shown}{order:?}"));
            explore::alive()
        },
    );
    explore::note_transitions(decisions);
    explore::note_leaves(execs.saturating_sub(1));
    explore::leaf(&shown, "");
    explore::finish()
}
mod aj_core_addr {
    pub type A = actix::Addr<aj_core_t::AJ>;
}
