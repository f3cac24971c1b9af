//! Failing backend operations (C15) and crashes (C16).
use super::*;
use crate::backend::{Kind, RefBackend, Shared, Store, CTL, ON_CRASH, WIRE};
use crate::cli::thorough;
use crate::clock;
use crate::ensure;
use crate::explore::{self, choose, pick};
use crate::model::*;
use crate::with_ty;
use crate::world::*;
use actix_rt::mc;
use aj_core::{Job, AJ};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C15", "c15-one", "1 job of 10 kinds x 3 ways to submit x 6 follow-up calls, a bystander; one failure at any backend operation", c15_one),
        q("C15", "c15-batch", "every assignment of 7 kinds to 3 (4) jobs submitted together; one failure at any backend operation", c15_batch),
        q("C15", "c15-many", "1, 20, 21, 45 jobs waiting together, mixed kinds; one failure at any backend operation", c15_many),
        q("C15", "c15-again", "a job that is done or waiting is submitted, retried, cancelled again in every order of 3 (4) calls; one failure at any backend operation", c15_again),
        q("C15", "c15-redis", "the same on the real Redis backend, one job", c15_redis),
        t("C15", "c15-two", "two failures anywhere, one job: the engine still serves others, nothing runs twice at once", c15_two),
        q("C15", "c15-slot", "a failed removal from the running list, limit 1", c15_slot),
        q("C15", "c15-limit", "limit 1, 2, 3, 20; one job more than twice as many as fit, jobs that take 150 ms, fail, or are retried; one failure at any backend operation: never more at once than the limit, everything is served", limit_faults),
        q("C04", "c04-faults", "limit 1, 2, 3, 20 and more jobs than fit; one failure at any backend operation: never more at once than the limit", limit_faults),
        q("C16", "c16-one", "1 job of 9 kinds, follow-up call, bystander; process stopped before or after any backend operation; restarted at once or after 3 s", c16_one),
        q("C16", "c16-batch", "every assignment of 6 kinds to 3 jobs; process stopped before or after any backend operation; restarted", c16_batch),
        q("C16", "c16-calls", "submit, cancel, retry, resubmit of one id in every order of 3 (4) calls; stopped before or after any backend operation; restarted", c16_calls),
        q("C16", "c16-twice", "stopped during the run and again during the recovery, 1 job", c16_twice),
        q("C16", "c16-redis", "2 jobs of 6 kinds on the real Redis backend, stopped after any round trip of its client (also in the middle of a backend operation)", c16_redis),
        q("C16", "c16-clean", "stopped while idle: every kind of job waiting or done, restarted on the same data", c16_clean),
        q("C16", "c16-flight", "stopped while jobs are in flight, limit 1 after the restart", c16_flight),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Sub(usize, u8),
    Cancel(usize),
    Retry(usize),
    Get(usize),
    Adv(i64),
    Release(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Ans {
    Ok,
    Yes,
    No,
    Err,
    Lost,
}

fn id(i: usize) -> String {
    format!("j{i}")
}

fn perform(w: &World, kinds: &[Spec], st: &Step) -> Ans {
    match st {
        Step::Sub(i, via) => {
            let s = kinds[*i].clone();
            let via = *via;
            with_ty!(s.ty, T => {
                let r = w.call(&format!("submit {} via {via}: {:?} {:?} {:?}", s.id, s.data.acts, s.when, s.retry), async move {
                    let job: Job<T> = Sim::real_job(&s);
                    match via {
                        0 => job.run().await.map(|_| ()),
                        1 => { job.just_run(); Ok(()) }
                        3 => AJ::enqueue_job(job, aj_core::EnqueueConfig::new(true, false), <T as aj::BackgroundJob>::queue_name()).await,
                        _ => AJ::enqueue_job(job, aj_core::EnqueueConfig::new_skip_if_finished(), <T as aj::BackgroundJob>::queue_name()).await,
                    }
                });
                match r {
                    Some(Ok(())) => Ans::Ok,
                    Some(Err(_)) => Ans::Err,
                    None => Ans::Lost,
                }
            })
        }
        Step::Cancel(i) => {
            let k = id(*i);
            match w.call(&format!("cancel {k}"), async move { AJ::cancel_job::<Alpha>(k).await }) {
                Some(Ok(())) => Ans::Ok,
                Some(Err(_)) => Ans::Err,
                None => Ans::Lost,
            }
        }
        Step::Retry(i) => {
            let k = id(*i);
            match w.call(&format!("retry {k}"), async move { AJ::retry_job::<Alpha>(&k).await }) {
                Some(Ok(true)) => Ans::Yes,
                Some(Ok(false)) => Ans::No,
                Some(Err(_)) => Ans::Err,
                None => Ans::Lost,
            }
        }
        Step::Get(i) => {
            let k = id(*i);
            match w.call(&format!("get {k}"), async move { AJ::get_job::<Alpha>(&k).await }) {
                Some(Some(_)) => Ans::Yes,
                Some(None) => Ans::No,
                None => Ans::Lost,
            }
        }
        Step::Adv(ms) => {
            note(format!("advance {ms}ms"));
            w.advance(ms * MS);
            Ans::Ok
        }
        Step::Release(i) => {
            release(&format!("A{}", id(*i)), true);
            w.settle();
            Ans::Ok
        }
    }
}

const RETRIES: i32 = 2;
fn kind(i: usize, k: usize) -> Spec {
    let d = |acts: &[Act]| Data::acts(i as i64 * 10 + 1, acts);
    let n = id(i);
    let cron = |max| When::Cron { expr: "* * * * * * *".into(), max: Some(max), end_ms: None };
    match k {
        0 => Spec::new(&n, d(&[])),
        1 => Spec::new(&n, d(&[Act::Fail])),
        2 => Spec::new(&n, d(&[Act::Fail])).retry(Policy::Interval { max: Some(RETRIES), ms: 30 }),
        3 => Spec::new(&n, d(&[])).when(When::In(150_000)),
        4 => Spec::new(&n, d(&[Act::Sleep { us: 250_000, ok: true }])),
        5 => Spec::new(&n, d(&[])).when(cron(2)),
        6 => Spec::new(&n, d(&[Act::Panic])),
        7 => Spec::new(&n, d(&[Act::Fail, Act::Ok])).retry(Policy::Interval { max: Some(RETRIES), ms: 150 }),
        8 => Spec::new(&n, d(&[Act::Sleep { us: 50_000, ok: false }])).retry(Policy::Interval { max: Some(1), ms: 0 }),
        _ => Spec::new(&n, d(&[Act::PostFail])),
    }
}
/// (executions of one accepted submission, final status)
fn ideal(s: &Spec) -> (usize, char) {
    let n = match (&s.when, &s.retry) {
        (When::Cron { max, .. }, _) => max.unwrap() as usize,
        (_, Some(Policy::Interval { max, .. })) if s.data.acts == vec![Act::Fail, Act::Ok] => 1 + max.unwrap().min(1) as usize,
        (_, Some(Policy::Interval { max, .. })) => 1 + max.unwrap() as usize,
        _ => 1,
    };
    let last = s.data.acts.last().cloned().unwrap_or(Act::Ok);
    let ok = match last {
        Act::Ok => true,
        Act::Sleep { ok, .. } => ok,
        _ => false,
    };
    (n, if ok { 'F' } else { 'X' })
}

fn faults() -> Vec<(u64, String)> {
    CTL.with(|c| c.borrow().faulted.clone())
}
fn starts_of(i: usize) -> usize {
    starts('A', &id(i))
}
/// No execution overlaps another one of the same job; answers the number running now.
fn overlap(panicking: impl Fn(&str) -> bool) -> usize {
    let mut on: BTreeMap<String, usize> = BTreeMap::new();
    let mut bad = None;
    LOG.with(|l| {
        for e in l.borrow().iter() {
            match &e.ev {
                // a panicking execution has no end
                Ev::Start { id, .. } if !panicking(id) => {
                    let n = on.entry(id.clone()).or_default();
                    *n += 1;
                    if *n > 1 {
                        bad = Some(id.clone());
                    }
                }
                Ev::End { id, .. } => {
                    on.insert(id.clone(), 0);
                }
                _ => {}
            }
        }
    });
    if let Some(b) = bad {
        violate(format!("two executions of job {b} at the same time"));
    }
    on.values().sum()
}

fn panics(specs: &[Spec]) -> impl Fn(&str) -> bool + '_ {
    move |id| specs.iter().any(|s| s.id == id && s.data.acts.contains(&Act::Panic))
}

/// What may have happened to one id, as far as the answers tell.
#[derive(Default, Clone, Debug)]
struct Fate {
    lo: usize,
    hi: usize,
    accepted: bool,
    unsure: bool,
}

fn c15_run(kind_: Kind, specs: Vec<Spec>, script: Vec<Step>, budget: u32) -> ! {
    let w = World::new(kind_);
    CTL.with(|c| c.borrow_mut().fault_budget = budget);
    let n = specs.len();
    let mut fate: Vec<Fate> = vec![Fate::default(); n];
    let mut st: Vec<char> = vec!['-'; n];
    for s in &script {
        let before = faults().len();
        let status_of = |i: usize| st[i];
        let (tgt, was, ran) = match s {
            Step::Sub(i, _) | Step::Cancel(i) | Step::Retry(i) | Step::Get(i) => (Some(*i), status_of(*i), starts_of(*i)),
            _ => (None, '-', 0),
        };
        let a = perform(&w, &specs, s);
        let hit = faults().len() > before;
        ensure!(a != Ans::Lost, "{s:?} was never answered");
        ensure!(a != Ans::Err || hit, "{s:?} reports an error although no backend operation failed in it");
        if let Some(i) = tgt {
            let (per, _) = ideal(&specs[i]);
            let f = &mut fate[i];
            let done = matches!(was, 'F' | 'X' | 'C');
            match (s, &a) {
                (Step::Sub(_, via), Ans::Ok) => {
                    let fresh = was == '-';
                    let sure = *via != 1 || !hit;
                    if fresh || (done && *via != 2) {
                        f.hi += per;
                        f.lo += if sure { 1 } else { 0 };
                        f.accepted |= sure;
                        f.unsure |= !sure;
                    }
                    if was == 'R' || was == 'Q' || was == '?' {
                        // replaced or ignored: the executions left are the ones of either version
                        f.hi += per;
                    }
                }
                // (a cancellation that reports an error: see below)
                (Step::Cancel(_), Ans::Ok) if was == 'Q' => {
                    f.hi = f.hi.min(ran);
                    f.lo = f.lo.min(ran);
                }
                (Step::Retry(_), Ans::Yes) => {
                    f.hi += per;
                    f.lo += 1;
                    ensure!(was != 'R' && was != 'Q', "retry of a job in state {was} was accepted");
                }
                _ => {}
            }
        }
        overlap(panics(&specs));
        // the state the next step meets, read without failures
        let b = CTL.with(|c| std::mem::take(&mut c.borrow_mut().fault_budget));
        for i in 0..n {
            let k = id(i);
            let s = w.spawn(w.client, async move { AJ::get_job::<Alpha>(&k).await });
            w.settle();
            match s.take() {
                Some(j) => st[i] = j.map_or('-', |j| stc(j.context.job_status)),
                None => violate("get_job did not complete".into()),
            }
        }
        if let (Step::Cancel(i), Ans::Err, 'Q') = (s, &a, was) {
            // it has been cancelled or it has not: what is reported from now on decides
            if st[*i] == 'C' {
                fate[*i].hi = fate[*i].hi.min(ran);
                fate[*i].lo = fate[*i].lo.min(ran);
            }
        }
        CTL.with(|c| c.borrow_mut().fault_budget = b);
    }
    let fs = faults();
    // everything that can happen, happens; the failure may still come
    let cron = specs.iter().any(|s| matches!(s.when, When::Cron { .. }));
    for _ in 0..if cron { 14 } else { 5 } {
        w.advance(250 * MS);
    }
    let fs = if faults().len() > fs.len() { faults() } else { fs };
    CTL.with(|c| c.borrow_mut().fault_budget = 0);
    w.advance(if cron { 3_000 } else { 700 } * MS);
    overlap(panics(&specs));
    let about = |i: usize, what: &[&str]| {
        let k = id(i);
        fs.iter().any(|(_, o)| what.iter().any(|p| o.starts_with(p)) && (o.ends_with(&format!(" {k}")) || o.ends_with(&format!("/{k}"))))
    };
    let mut sum = String::new();
    for i in 0..n {
        let got = starts_of(i);
        let f = &fate[i];
        let (_, end) = ideal(&specs[i]);
        sum.push_str(&format!("{got}"));
        if budget == 1 {
            ensure!(got >= f.lo, "job {} ran {got} times although the answers promise at least {} ({f:?}); failed: {fs:?}", id(i), f.lo);
            ensure!(got <= f.hi, "job {} ran {got} times although the answers allow at most {} ({f:?}); failed: {fs:?}", id(i), f.hi);
            let cut = about(i, &["push", "upsert", "remove"]);
            if !cut && !f.unsure && f.accepted && f.lo > 0 && script.iter().filter(|s| matches!(s, Step::Cancel(_) | Step::Retry(_))).count() == 0
                && script.iter().filter(|s| matches!(s, Step::Sub(k, _) if *k == i)).count() == 1
            {
                let (per, _) = ideal(&specs[i]);
                ensure!(got == per, "job {} ran {got} times instead of {per}; failed: {fs:?}", id(i));
            }
            let v = w.get('A', &id(i));
            match v {
                None => ensure!(!f.accepted, "job {} was accepted and is unknown now; failed: {fs:?}", id(i)),
                Some(v) => {
                    ensure!(matches!(v.status, 'F' | 'X' | 'C'), "job {} is left in state {} for ever; failed: {fs:?}", id(i), v.status);
                    if !cut && got > 0 && v.status != 'C' {
                        ensure!(v.status == end, "job {} ended as {} instead of {end}; failed: {fs:?}", id(i), v.status);
                    }
                    sum.push(v.status);
                }
            }
        }
    }
    // the queue still works, with all its slots
    let probe = Spec::new("probe", Data::n(1));
    let a = perform(&w, &[probe], &Step::Sub(0, 0));
    ensure!(a == Ans::Ok, "a later submission is not accepted: {a:?}; failed: {fs:?}");
    w.advance(110 * MS);
    ensure!(starts('A', "probe") == 1, "a later job does not run; failed: {fs:?}");
    if !fs.iter().any(|(_, o)| o.starts_with("remove")) {
        let gates: Vec<Spec> = (0..20).map(|i| Spec::new(&format!("g{i}"), Data::acts(i, &[Act::Gate]))).collect();
        for i in 0..20 {
            let a = perform(&w, &gates, &Step::Sub(i, 0));
            ensure!(a == Ans::Ok, "a later submission is not accepted: {a:?}; failed: {fs:?}");
        }
        w.advance(110 * MS);
        let on = (0..20).filter(|i| starts('A', &format!("g{i}")) == 1).count();
        ensure!(on == 20, "only {on} of 20 slots are left; failed: {fs:?}");
    }
    let allowed = specs.iter().any(|s| s.data.acts.contains(&Act::Panic));
    ensure!(allowed || mc::panics().is_empty(), "panic in the engine: {:?}; failed: {fs:?}", mc::panics());
    explore::note_state(&format!("{sum}{fs:?}"));
    explore::leaf(&sum, &format!("failed: {fs:?}"));
    explore::finish()
}

fn c15_one() {
    let k = choose(10, "kind");
    let via = choose(3, "via") as u8;
    let then = choose(6, "then");
    let (a, b) = (kind(0, k), kind(1, 0));
    let mut sc = vec![Step::Sub(0, via), Step::Sub(1, 0)];
    sc.push(Step::Adv(*pick(&[0, 60, 110], "gap")));
    sc.push(match then {
        0 => Step::Get(0),
        1 => Step::Cancel(0),
        2 => Step::Retry(0),
        3 => Step::Sub(0, 0),
        4 => Step::Sub(0, 2),
        _ => Step::Get(1),
    });
    c15_run(Kind::Ref, vec![a, b], sc, 1)
}
fn c15_batch() {
    let n = if thorough() { 4 } else { 3 };
    let specs: Vec<Spec> = (0..n).map(|i| kind(i, choose(7, "kind"))).collect();
    let sc = (0..n).map(|i| Step::Sub(i, 0)).collect();
    c15_run(Kind::Ref, specs, sc, 1)
}
fn c15_many() {
    let n = *pick(&[1usize, 20, 21, 45], "jobs");
    let mix = choose(3, "mix");
    let specs: Vec<Spec> = (0..n)
        .map(|i| match mix {
            0 => kind(i, 0),
            1 => kind(i, [0, 1, 3][i % 3]),
            _ => kind(i, [0, 4][i % 2]),
        })
        .collect();
    let sc = (0..n).map(|i| Step::Sub(i, 0)).collect();
    c15_run(Kind::Ref, specs, sc, 1)
}
fn c15_again() {
    let k = *pick(if thorough() { &[0usize, 1, 3, 4, 2, 5, 8] } else { &[0, 1, 3, 4] }, "kind");
    let mut sc = vec![Step::Sub(0, 0)];
    let n = if thorough() { 4 } else { 3 };
    for _ in 0..n {
        sc.push(match choose(if thorough() { 7 } else { 6 }, "call") {
            0 => Step::Adv(110),
            1 => Step::Sub(0, 0),
            2 => Step::Retry(0),
            3 => Step::Cancel(0),
            4 => Step::Sub(0, 2),
            5 => Step::Sub(0, 3),
            _ => Step::Adv(55),
        });
    }
    c15_run(Kind::Ref, vec![kind(0, k)], sc, 1)
}
fn c15_redis() {
    let k = choose(4, "kind");
    c15_run(Kind::Redis, vec![kind(0, k), kind(1, 0)], vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(60), Step::Get(0)], 1)
}
fn c15_two() {
    let k = choose(5, "kind");
    c15_run(Kind::Ref, vec![kind(0, k), kind(1, 0)], vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(60), Step::Get(0)], 2)
}
fn c15_slot() {
    let w = World::new(Kind::Ref);
    let cfg = |w: &World| {
        let r = w.call("limit 1", async {
            AJ::update_work_queue::<Alpha>(aj_core::WorkQueueConfig { max_processing_jobs: 1, ..Default::default() }).await
        });
        ensure!(matches!(r, Some(Ok(()))), "update_work_queue: {r:?}");
    };
    let first = kind(0, 0);
    perform(&w, &[first.clone()], &Step::Sub(0, 0));
    cfg(&w);
    CTL.with(|c| c.borrow_mut().fault_budget = 1);
    w.advance(400 * MS);
    CTL.with(|c| c.borrow_mut().fault_budget = 0);
    w.advance(400 * MS);
    let fs = faults();
    let probe = Spec::new("probe", Data::n(1));
    perform(&w, &[probe], &Step::Sub(0, 0));
    w.advance(400 * MS);
    let removal = fs.iter().any(|(_, o)| o.starts_with("remove"));
    if starts('A', "probe") != 1 {
        if removal {
            violate(format!("slot lost: the removal of a finished job from the running list failed once and its slot is never released; failed: {fs:?}"));
        }
        violate(format!("with limit 1 a later job does not run; failed: {fs:?}"));
    }
    explore::leaf(&format!("{fs:?}"), "");
    explore::finish()
}

/// With the slots full, a failure makes no room that is not there.
fn limit_faults() {
    let w = World::new(Kind::Ref);
    let limit = *pick(&[1usize, 2, 3, 20], "limit");
    let how = choose(3, "jobs");
    perform(&w, &[Spec::new("warm", Data::n(0))], &Step::Sub(0, 0));
    w.advance(110 * MS);
    if limit != 20 {
        let r = w.call("limit", async move {
            AJ::update_work_queue::<Alpha>(aj_core::WorkQueueConfig { max_processing_jobs: limit, ..Default::default() }).await
        });
        ensure!(matches!(r, Some(Ok(()))), "update_work_queue: {r:?}");
    }
    let n = if limit == 20 { 23 } else { 2 * limit + 1 };
    let specs: Vec<Spec> = (0..n)
        .map(|i| match how {
            0 => Spec::new(&id(i), Data::acts(1, &[Act::Sleep { us: 150_000, ok: true }])),
            1 => Spec::new(&id(i), Data::acts(1, &[Act::Sleep { us: 150_000, ok: i % 2 == 0 }])),
            _ => Spec::new(&id(i), Data::acts(1, &[Act::Sleep { us: 150_000, ok: false }, Act::Sleep { us: 120_000, ok: true }]))
                .retry(Policy::Interval { max: Some(1), ms: 30 }),
        })
        .collect();
    for i in 0..n {
        let a = perform(&w, &specs, &Step::Sub(i, 0));
        ensure!(a == Ans::Ok, "submission {i}: {a:?}");
    }
    CTL.with(|c| c.borrow_mut().fault_budget = 1);
    w.advance(700 * MS);
    CTL.with(|c| c.borrow_mut().fault_budget = 0);
    w.advance(4_000 * MS);
    let fs = faults();
    overlap(|_| false);
    let (mut on, mut most) = (0i64, 0i64);
    LOG.with(|l| {
        for e in l.borrow().iter() {
            match &e.ev {
                Ev::Start { .. } => on += 1,
                Ev::End { .. } => on -= 1,
                _ => {}
            }
            most = most.max(on);
        }
    });
    ensure!(most <= limit as i64, "{most} jobs executing at once with limit {limit}; failed: {fs:?}");
    // a failed removal from the running list costs a slot (see c15-slot): with limit 1 nothing more runs
    if !fs.iter().any(|(_, o)| o.starts_with("remove")) {
        for i in 0..n {
            ensure!(starts_of(i) >= 1, "job {} never ran; failed: {fs:?}", id(i));
        }
    }
    explore::note_state(&format!("{most}{fs:?}"));
    explore::leaf(&format!("{most}"), &format!("limit {limit} how {how} failed: {fs:?}"));
    explore::finish()
}

// ---- crashes ----

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Phase {
    store: Store,
    log: Vec<Entry>,
    notes: Vec<String>,
    /// Answers of the calls that returned.
    answers: Vec<Ans>,
    /// Epoch ns of the crash.
    at: i64,
    ops: u64,
    /// Round trips of the Redis client.
    trips: u64,
    /// Observable status of every job before each step.
    crashed: bool,
}

/// Runs the script from the given contents until the crash point (or to the end) in a process of its own.
fn phase(kind_: Kind, start: &Store, base: i64, specs: &[Spec], script: &[Step], crash: Option<(u64, bool)>) -> Phase {
    let (start, specs, script) = (start.clone(), specs.to_vec(), script.to_vec());
    let r = explore::in_child(move || {
        clock::BASE.store(base, std::sync::atomic::Ordering::SeqCst);
        let store: Shared = Arc::new(Mutex::new(start));
        let answers: Rc<RefCell<Vec<Ans>>> = Rc::default();
        let result = {
            let (store, answers) = (store.clone(), answers.clone());
            move |crashed: bool| {
                let p = Phase {
                    store: store.lock().unwrap().clone(),
                    log: LOG.with(|l| l.borrow().clone()),
                    notes: NOTES.with(|l| l.borrow().clone()),
                    answers: answers.borrow().clone(),
                    at: now(),
                    ops: CTL.with(|c| c.borrow().ops),
                    trips: WIRE.lock().unwrap().trips,
                    crashed,
                };
                serde_json::to_vec(&p).unwrap()
            }
        };
        let r2 = result.clone();
        ON_CRASH.with(|c| *c.borrow_mut() = Some(Box::new(move || r2(true))));
        if kind_ == Kind::Redis {
            // the stop comes after a round trip, which may be in the middle of a backend operation
            WIRE.lock().unwrap().stop = crash.map(|c| c.0 + 1);
        } else {
            CTL.with(|c| c.borrow_mut().crash_at = crash);
        }
        let w = World::on(kind_, store);
        for s in &script {
            let a = perform(&w, &specs, s);
            answers.borrow_mut().push(a);
        }
        result(false)
    });
    match r {
        Ok(b) if !b.is_empty() => serde_json::from_slice(&b).expect("phase"),
        Ok(_) => explore::finish(), // a violation was reported in there
        Err(m) => violate(format!("the process died before its crash point: {m}")),
    }
}

/// A job as a new process finds it in the backend.
fn stored(store: &Store, id: &str) -> Option<View> {
    let b = RefBackend(Arc::new(Mutex::new(store.clone())));
    let j: Option<Job<Alpha>> = aj_core::types::get_from_storage(&b, id).ok().flatten();
    j.map(|j| View::of(&j.context, j.data.0.clone()))
}

fn count(log: &[Entry], id_: &str, start: bool) -> usize {
    log.iter()
        .filter(|e| match &e.ev {
            Ev::Start { id, .. } => start && id == id_,
            Ev::End { id, .. } => !start && id == id_,
            _ => false,
        })
        .count()
}

/// The process was stopped at `crash`; it comes up again and everything it owed happens.
fn restart(kind_: Kind, specs: Vec<Spec>, script: Vec<Step>, crash: Option<(u64, bool)>, p: Phase, down_ms: i64, again: bool) -> ! {
    let n = specs.len();
    for l in &p.notes {
        NOTES.with(|x| x.borrow_mut().push(format!("before the stop: {l}")));
    }
    for e in &p.log {
        NOTES.with(|x| x.borrow_mut().push(format!("before the stop: t={:.1}ms {:?}", rel(e.t), e.ev)));
    }
    note(format!("stopped at operation {crash:?}, down for {down_ms} ms"));
    let mut p = p;
    if again {
        // stopped a second time while coming up
        let dry = phase(kind_, &p.store, p.at + down_ms * MS, &[Spec::new("wake", Data::n(1))], &[Step::Sub(0, 0), Step::Adv(110)], None);
        let c2 = choose(dry.ops as usize * 2, "second stop");
        let crash2 = (c2 as u64 / 2, c2 % 2 == 0);
        let q = phase(kind_, &p.store, p.at + down_ms * MS, &[Spec::new("wake", Data::n(1))], &[Step::Sub(0, 0), Step::Adv(110)], Some(crash2));
        for e in &q.log {
            NOTES.with(|x| x.borrow_mut().push(format!("before the second stop: {:?}", e.ev)));
        }
        p.log.extend(q.log);
        p.store = q.store;
        p.at = q.at;
    }
    for i in 0..n {
        PRIOR.with(|x| x.borrow_mut().insert(('A', id(i)), count(&p.log, &id(i), true)));
    }
    clock::BASE.store(p.at + down_ms * MS, std::sync::atomic::Ordering::SeqCst);
    let store: Shared = Arc::new(Mutex::new(p.store.clone()));
    let w = World::on(kind_, store);
    let seen: Vec<Option<View>> = (0..n).map(|i| stored(&p.store, &id(i))).collect();
    let first = perform(&w, &[Spec::new("probe", Data::n(1))], &Step::Sub(0, 0));
    ensure!(first == Ans::Ok, "after the restart a submission is not accepted: {first:?}");
    w.advance(110 * MS);
    ensure!(starts('A', "probe") == 1, "after the restart a new job does not run");
    w.advance(6_000 * MS);
    overlap(panics(&specs));
    let mut sum = String::new();
    for i in 0..n {
        let k = id(i);
        let (ran, ended) = (count(&p.log, &k, true), count(&p.log, &k, false));
        let now_ran = starts('A', &k);
        let (per, end) = ideal(&specs[i]);
        let after = w.get('A', &k);
        let acked = script.iter().zip(&p.answers).any(|(s, a)| matches!(s, Step::Sub(j, v) if *j == i && *v != 1) && *a == Ans::Ok);
        let submitted = script.iter().zip(0..=p.answers.len()).any(|(s, _)| matches!(s, Step::Sub(j, _) if *j == i));
        let calls = script.iter().filter(|s| matches!(s, Step::Sub(j, _) | Step::Retry(j) | Step::Cancel(j) if *j == i)).count();
        sum.push_str(&format!("{ran}+{now_ran} "));
        ensure!(!acked || seen[i].is_some(), "job {k} was acknowledged before the stop and is unknown after the restart");
        ensure!(submitted || now_ran == 0, "job {k} was never submitted and ran");
        let Some(v) = &seen[i] else {
            ensure!(now_ran == 0, "job {k} is unknown after the restart but runs");
            continue;
        };
        match v.status {
            'Q' => {
                // a job that waits is served as if nothing had happened
                ensure!(now_ran >= 1, "job {k} was waiting when the process stopped and never runs after the restart");
                if calls == 1 {
                    let left = per.saturating_sub(ended.min(per));
                    ensure!(
                        now_ran == left.max(1) || now_ran == left + 1 || (again && now_ran == left + 2),
                        "job {k} was waiting with {left} of {per} executions left and ran {now_ran} times after the restart"
                    );
                    // each stop may have lost the outcome of the execution before it
                    if ran == ended && !again {
                        ensure!(now_ran == left.max(1), "job {k} was waiting with {left} of {per} executions left and ran {now_ran} times after the restart");
                    }
                }
                let due = match &v.jt {
                    aj_core::JobType::ScheduledAt(t) => t.timestamp_nanos_opt().unwrap(),
                    aj_core::JobType::Cron(_, t, ..) => t.timestamp_nanos_opt().unwrap(),
                    _ => i64::MIN,
                };
                let first = LOG.with(|l| l.borrow().iter().find(|e| matches!(&e.ev, Ev::Start { id, .. } if *id == k)).map(|e| e.t)).unwrap();
                ensure!(first >= due, "job {k} ran {} ms before its time after the restart", (due - first) / MS);
                let from = due.max(p.at + down_ms * MS);
                ensure!(first <= from + 105 * MS, "job {k} ran {} ms after it was due following the restart", (first - from) / MS);
                let st = after.as_ref().map(|v| v.status);
                ensure!(st == Some(end), "job {k} ended as {st:?} after the restart, expected {end}");
                ensure!(after.unwrap().data == specs[i].data, "job {k} has lost its data");
            }
            'F' | 'X' | 'C' => {
                ensure!(now_ran == 0, "job {k} was {} when the process stopped and runs again after the restart", v.status);
                if now_ran == 0 {
                    ensure!(after.as_ref().map(|a| a.status) == Some(v.status), "job {k} was {} and is {:?} now", v.status, after);
                }
            }
            'R' => {
                // in flight: may be run again, not more often than it was owed
                ensure!(now_ran <= per.max(1), "job {k} was in flight and ran {now_ran} times after the restart");
                if ran == 0 && !again {
                    // not even started: only while a poll was handing it out
                    let t = v.run_at.unwrap_or(0);
                    ensure!((p.at / MS - t).abs() <= 1, "job {k} was handed out {} ms before the stop and never started", p.at / MS - t);
                }
                if now_ran == 0 && ran > ended && !again {
                    // documented finding, see c16-flight
                }
            }
            _ => {}
        }
        explore::note_state(&format!("{k}{ran}{ended}{now_ran}{}", v.status));
    }
    ensure!(mc::panics().is_empty() || specs.iter().any(|s| s.data.acts.contains(&Act::Panic)), "panic in the engine after the restart: {:?}", mc::panics());
    explore::note_state(&sum);
    explore::leaf(&format!("{sum}{:?}", p.answers), &format!("{script:?} stop {crash:?} down {down_ms}"));
    explore::finish()
}

fn c16_run(kind_: Kind, specs: Vec<Spec>, script: Vec<Step>, downs: &[i64], again: bool) -> ! {
    let base = clock::BASE.load(std::sync::atomic::Ordering::SeqCst);
    let dry = phase(kind_, &Store::default(), base, &specs, &script, None);
    let crash = if kind_ == Kind::Redis {
        (choose(dry.trips as usize, "stop") as u64, false)
    } else {
        let c = choose(dry.ops as usize * 2, "stop");
        (c as u64 / 2, c % 2 == 0)
    };
    let down = *pick(downs, "down");
    let p = phase(kind_, &Store::default(), base, &specs, &script, Some(crash));
    ensure!(p.crashed, "the run is not reproducible: operation {} of {} was not reached", crash.0, dry.ops);
    explore::note_transitions(p.ops);
    restart(kind_, specs, script, Some(crash), p, down, again)
}

fn c16_one() {
    let k = *pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9], "kind");
    let then = choose(4, "then");
    let mut sc = vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(*pick(&[0, 60, 130], "gap"))];
    match then {
        1 => sc.push(Step::Cancel(0)),
        2 => sc.push(Step::Retry(0)),
        3 => sc.push(Step::Sub(0, 0)),
        _ => {}
    }
    sc.push(Step::Adv(if k == 5 { 1500 } else { 400 }));
    let far = choose(2, "bystander");
    c16_run(Kind::Ref, vec![kind(0, k), kind(1, [0, 3][far])], sc, &[0, 3000], false)
}
fn c16_batch() {
    let specs: Vec<Spec> = (0..3).map(|i| kind(i, *pick(&[0usize, 1, 2, 3, 4, 5], "kind"))).collect();
    let sc = vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(60), Step::Sub(2, 0), Step::Adv(450)];
    c16_run(Kind::Ref, specs, sc, &[500], false)
}
fn c16_calls() {
    let k = *pick(&[0usize, 3, 4, 2, 5], "kind");
    let mut sc = vec![Step::Sub(0, 0)];
    for _ in 0..if thorough() { 4 } else { 3 } {
        sc.push(match choose(5, "call") {
            0 => Step::Sub(0, 0),
            1 => Step::Cancel(0),
            2 => Step::Retry(0),
            3 => Step::Sub(0, 3),
            _ => Step::Adv(110),
        });
    }
    c16_run(Kind::Ref, vec![kind(0, k)], sc, &[200], false)
}
fn c16_twice() {
    let k = *pick(&[0usize, 2, 3], "kind");
    let sc = vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(250)];
    c16_run(Kind::Ref, vec![kind(0, k), kind(1, 3)], sc, &[100], true)
}
fn c16_redis() {
    let k = *pick(&[0usize, 1, 2, 3, 5, 7], "kind");
    let k2 = *pick(&[0usize, 3], "other");
    let sc = vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Adv(250)];
    c16_run(Kind::Redis, vec![kind(0, k), kind(1, k2)], sc, &[100], false)
}
fn c16_clean() {
    let ks: Vec<usize> = (0..3).map(|_| *pick(&[0usize, 1, 3, 5, 7], "kind")).collect();
    let specs: Vec<Spec> = ks.iter().enumerate().map(|(i, k)| kind(i, *k)).collect();
    let adv = *pick(&[0i64, 110, 350, 1100], "adv");
    let kind_ = *pick(&[Kind::Ref, Kind::Redis], "backend");
    let mut sc = vec![Step::Sub(0, 0), Step::Sub(1, 0), Step::Sub(2, 0), Step::Adv(adv)];
    if choose(2, "cancel") == 1 {
        sc.push(Step::Cancel(1));
    }
    let base = clock::BASE.load(std::sync::atomic::Ordering::SeqCst);
    let p = phase(kind_, &Store::default(), base, &specs, &sc, None);
    restart(kind_, specs, sc, None, p, *pick(&[0i64, 2000, 86_400_000], "down"), false)
}
/// Jobs that were in flight keep the slots they had and are never finished (a known finding).
fn c16_flight() {
    let base = clock::BASE.load(std::sync::atomic::Ordering::SeqCst);
    let specs = vec![Spec::new(&id(0), Data::acts(1, &[Act::Sleep { us: 250_000, ok: true }]))];
    let p = phase(Kind::Ref, &Store::default(), base, &specs, &[Step::Sub(0, 0), Step::Adv(150)], None);
    clock::BASE.store(p.at + 1000 * MS, std::sync::atomic::Ordering::SeqCst);
    let what = choose(2, "what");
    let w = World::on(Kind::Ref, Arc::new(Mutex::new(p.store.clone())));
    perform(&w, &[kind(1, 3)], &Step::Sub(0, 0));
    let r = w.call("limit 1", async {
        AJ::update_work_queue::<Alpha>(aj_core::WorkQueueConfig { max_processing_jobs: 1, ..Default::default() }).await
    });
    ensure!(matches!(r, Some(Ok(()))), "update_work_queue: {r:?}");
    w.advance(1_000 * MS);
    if what == 0 {
        let v = w.get('A', &id(0));
        ensure!(
            starts('A', &id(0)) > 0 && v.as_ref().is_some_and(|v| v.status == 'F'),
            "in flight: a job that was executing when the process stopped is left in state {:?} for ever after the restart",
            v.map(|v| v.status)
        );
    } else {
        ensure!(starts('A', &id(1)) == 1, "slot kept: with limit 1 the slot of a job that was executing when the process stopped is never released after the restart");
    }
    explore::leaf(&format!("{what}"), "");
    explore::finish()
}
