//! Several job types side by side (C17); starting the engine and first use of a type (C18).
use super::*;
use crate::backend::{Kind, Shared, Spy, Store};
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::with_ty;
use crate::world::*;
use super::life::at;
use aj_core::{Job, WorkQueueConfig, AJ};
use std::sync::{Arc, Mutex};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C17", "c17-history", "every history of 4 (5) steps over submit/cancel/retry/release/limit/advance for two job types sharing one backend", c17_history),
        q("C17", "c17-three", "every history of 4 steps over three job types, mixed job kinds", c17_three),
        q("C17", "c17-limits", "limits 0..3 and 20 per type x up to 25 gated jobs per type: each type keeps to its own limit and is served although the others are full", c17_limits),
        q("C17", "c17-ticks", "polling intervals {20, 100, 700} ms per type, delayed jobs in both", c17_ticks),
        q("C17", "c17-names", "12 pairs of job types with easily confused names (case, prefix, long, unicode, empty, looking like a list) x first use x backend: own limit, own configuration, own jobs", c17_names),
        q("C17", "c17-block", "1..2 jobs of one or two types occupy their threads for 250 or 1700 ms; another type, used before or for the first time, is answered and served on time (plain, delayed, cron, retried, cancelled jobs)", c17_block),
        q("C17", "c17-race", "two types first used or polled at the same instant; all schedules with at most 2 (3) deviations", c17_race),
        q("C17", "c17-redis", "histories of 3 steps over two types on the real Redis backend", c17_redis),
        q("C17", "c17-shared-id", "one id used in two job types", c17_shared_id),
        q("C17", "c17-foreign", "cancelling and retrying through the handle of another type", c17_foreign),
        q("C18", "c18-start", "2..3 starts with different backends from one or several clients, in every schedule with at most 2 (3) deviations; submissions before, between and after", c18_start),
        q("C18", "c18-first", "2..3 clients make the first submissions of one or two types at the same instant, by run, just_run, add_job; all schedules with at most 2 (3) deviations; one queue with one limit results", c18_first),
        q("C18", "c18-many", "up to 15 job types used for the first time, one after the other or all at once, by run or just_run, then all of them again", c18_many),
        q("C17", "c17-wide", "17 or 33 (65) job types at a time, four jobs in each, with or without limits of their own: each type is served and keeps to its limit", wide_types),
        q("C18", "c18-wide", "17 or 33 (65) job types at a time, used for the first time one after the other or all at once", wide_types),
        q("C18", "c18-taken", "a second type claims the queue name of another one, before or after other types are used, 1..2 times, by run or just_run: it is refused, everything else goes on", c18_taken),
        q("C18", "c18-unused", "every order of 3 (4) calls on types that were never used, mixed with first submissions", c18_unused),
        q("C18", "c18-outside", "engine started outside of an actix system, types first used from several clients", c18_outside),
    ]
}

#[derive(Clone, Debug)]
enum M {
    Sub(usize),
    Cancel(usize),
    Retry(usize),
    Rel(usize),
    Limit(char, usize),
    Adv(i64),
}

fn play(s: &mut Sim, specs: &[Spec], alphabet: &[M], depth: usize) {
    let mut last: Option<M> = None;
    let mut n = 100;
    for _ in 0..depth {
        let opts: Vec<&M> = alphabet
            .iter()
            .filter(|m| match m {
                M::Rel(i) => s.status(specs[*i].ty, &specs[*i].id) == 'R' && specs[*i].data.acts.contains(&Act::Gate),
                M::Limit(t, _) => s.queues[t].registered,
                M::Adv(_) => !matches!(last, Some(M::Adv(_))),
                _ => true,
            })
            .collect();
        let m = (*pick(&opts, "step")).clone();
        n += 1;
        match &m {
            M::Sub(i) => {
                let mut sp = specs[*i].clone();
                sp.data.n = n;
                s.submit(&sp, Via::Run);
            }
            M::Cancel(i) => s.cancel(specs[*i].ty, &specs[*i].id),
            M::Retry(i) => s.retry(specs[*i].ty, &specs[*i].id),
            M::Rel(i) => s.release(specs[*i].ty, &specs[*i].id, true),
            M::Limit(t, l) => s.configure(*t, *l, 100),
            M::Adv(ms) => s.advance_ms(*ms),
        }
        s.check();
        last = Some(m);
    }
    for t in ['A', 'B', 'G'] {
        if s.queues[&t].registered && s.queues[&t].limit == 0 {
            s.configure(t, 2, 100);
        }
    }
    s.drain();
}

fn two_types() -> Vec<Spec> {
    vec![
        Spec::new("a", Data::acts(1, &[Act::Gate])),
        Spec::new("a2", Data::acts(1, &[Act::Fail])),
        Spec::new("b", Data::acts(1, &[Act::Gate])).ty('B'),
        Spec::new("b2", Data::n(1)).ty('B').when(When::In(150_000)),
    ]
}
fn two_alphabet() -> Vec<M> {
    vec![
        M::Adv(100),
        M::Sub(0),
        M::Sub(1),
        M::Sub(2),
        M::Sub(3),
        M::Cancel(0),
        M::Cancel(3),
        M::Retry(1),
        M::Retry(2),
        M::Rel(0),
        M::Rel(2),
        M::Limit('A', 0),
        M::Limit('B', 1),
    ]
}
fn c17_history() {
    let mut s = Sim::new(Kind::Mem);
    let sp = two_types();
    play(&mut s, &sp, &two_alphabet(), if thorough() { 5 } else { 4 });
    s.end()
}
fn c17_redis() {
    let mut s = Sim::new(Kind::Redis);
    let sp = two_types();
    play(&mut s, &sp, &two_alphabet(), if thorough() { 4 } else { 3 });
    s.end()
}
fn c17_three() {
    let mut s = Sim::new(Kind::Mem);
    let sp = vec![
        Spec::new("a", Data::acts(1, &[Act::Fail, Act::Ok])).retry(Policy::Interval { max: Some(2), ms: 120 }),
        Spec::new("b", Data::acts(1, &[Act::Panic])).ty('B'),
        Spec::new("g", Data::n(1)).ty('G').when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None }),
        Spec::new("g2", Data::acts(1, &[Act::Gate])).ty('G'),
        Spec::new("b2", Data::acts(1, &[Act::Sleep { us: 250_000, ok: true }])).ty('B'),
    ];
    let al = [M::Adv(100), M::Sub(0), M::Sub(1), M::Sub(2), M::Sub(3), M::Sub(4), M::Cancel(2), M::Limit('A', 0), M::Rel(3)];
    play(&mut s, &sp, &al, if thorough() { 5 } else { 4 });
    s.end()
}
fn c17_limits() {
    let mut s = Sim::new(Kind::Mem);
    let la = *pick(&[0usize, 1, 2, 20], "limit A");
    let lb = *pick(&[0usize, 1, 3, 20], "limit B");
    let (na, nb) = (*pick(&[1i64, 3, 25], "jobs A"), *pick(&[1i64, 4, 25], "jobs B"));
    s.submit(&Spec::new("wa", Data::n(0)), Via::Run);
    s.submit(&Spec::new("wb", Data::n(0)).ty('B'), Via::Run);
    s.advance_ms(110);
    s.configure('A', la, 100);
    s.configure('B', lb, 100);
    for i in 0..na.max(nb) {
        if i < na {
            s.submit(&Spec::new(&format!("a{i}"), Data::acts(i, &[Act::Gate])), Via::Run);
        }
        if i < nb {
            s.submit(&Spec::new(&format!("b{i}"), Data::acts(i, &[Act::Gate])).ty('B'), Via::Run);
        }
    }
    s.advance_ms(110);
    s.check();
    // one of the two swaps its limit, the other one keeps its own
    if choose(2, "swap") == 1 {
        s.configure('A', lb, 100);
        s.advance_ms(110);
    }
    let ra = s.queues[&'A'].running.len();
    let rb = s.queues[&'B'].running.len();
    ensure!(rb == lb.min(nb as usize), "{rb} jobs of the second type run, limit {lb}, {nb} are waiting");
    let _ = ra;
    for t in ['A', 'B'] {
        s.configure(t, 20, 100);
    }
    s.drain();
    s.end()
}
fn c17_ticks() {
    let mut s = Sim::new(Kind::Mem);
    let ta = *pick(&[20i64, 100, 700], "tick A");
    let tb = *pick(&[20i64, 100, 700], "tick B");
    s.submit(&Spec::new("wa", Data::n(0)), Via::Run);
    s.submit(&Spec::new("wb", Data::n(0)).ty('B'), Via::Run);
    s.configure('A', 20, ta);
    s.configure('B', 20, tb);
    s.advance_ms(110);
    for i in 0..2 {
        let d = *pick(&[0i64, 30_000, 250_000], "delay");
        s.submit(&Spec::new(&format!("a{i}"), Data::n(i)).when(When::In(d)), Via::Run);
        let d = *pick(&[0i64, 30_000, 250_000], "delay");
        s.submit(&Spec::new(&format!("b{i}"), Data::n(i)).ty('B').when(When::In(d)), Via::Run);
    }
    for _ in 0..6 {
        s.advance_ms(170);
        s.check();
    }
    s.drain();
    s.end()
}
fn pair<X, Y>(x: char, y: char) -> !
where
    X: aj_core::BackgroundJob + aj_core::Executable + From<Data> + Unpin + Send + Sync + Clone + serde::Serialize + serde::de::DeserializeOwned + 'static,
    Y: aj_core::BackgroundJob + aj_core::Executable + From<Data> + Unpin + Send + Sync + Clone + serde::Serialize + serde::de::DeserializeOwned + 'static,
{
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let (lx, ly) = *pick(&[(1usize, 2usize), (2, 1), (0, 3), (3, 20)], "limits");
    let act = pick(&[Act::Gate, Act::Fail], "act").clone();
    let w = World::new(kind);
    let cfg = |n| WorkQueueConfig { max_processing_jobs: n, process_tick_duration: std::time::Duration::from_millis(100) };
    let ok = |what: &str, r: Option<Result<String, aj_core::Error>>| ensure!(matches!(r, Some(Ok(_))), "{what} answered {r:?}");
    ok("first use of the first type", w.call("x", Job::new(X::from(Data::n(0))).set_id("x".into()).run()));
    w.call("configure X", AJ::update_work_queue::<X>(cfg(lx)));
    w.advance(110 * MS);
    ok("first use of the second type", w.call("y", Job::new(Y::from(Data::n(0))).set_id("y".into()).run()));
    w.call("configure Y", AJ::update_work_queue::<Y>(cfg(ly)));
    w.advance(110 * MS);
    for i in 0..4i64 {
        ok("submit", w.call("x", Job::new(X::from(Data::acts(i, &[act.clone()]))).set_id(format!("x{i}")).run()));
        ok("submit", w.call("y", Job::new(Y::from(Data::acts(i, &[act.clone()]))).set_id(format!("y{i}")).run()));
    }
    w.advance(110 * MS);
    let st = |t: char, p: char| (0..4).filter(|i| starts(t, &format!("{p}{i}")) > 0).count();
    let gate = act == Act::Gate;
    for (t, p, l, other) in [(x, 'x', lx, y), (y, 'y', ly, x)] {
        let want = l.min(4);
        let got = st(t, p);
        // (jobs that end at once free their slots for the next poll)
        ensure!(if gate { got == want } else { got <= 4 && got >= want }, "limit {l}, 4 jobs waiting: {got} of the type's jobs were started");
        ensure!(st(other, p) == 0, "jobs of one type were executed by the other one");
    }
    w.call("configure X", AJ::update_work_queue::<X>(cfg(20)));
    w.call("configure Y", AJ::update_work_queue::<Y>(cfg(20)));
    w.advance(110 * MS);
    for i in 0..4 {
        release(&format!("{x}x{i}"), true);
        release(&format!("{y}y{i}"), true);
    }
    w.advance(410 * MS);
    for i in 0..4 {
        for (t, p) in [(x, 'x'), (y, 'y')] {
            ensure!(starts(t, &format!("{p}{i}")) == 1, "job {p}{i} was executed {} times", starts(t, &format!("{p}{i}")));
        }
    }
    done()
}

fn c17_names() {
    use alike::*;
    match choose(12, "pair") {
        0 => pair::<Alpha, ALPHA>('A', '1'),
        1 => pair::<alpha, Alpha>('2', 'A'),
        2 => pair::<Alpha, AlphaBeta>('A', '3'),
        3 => pair::<Alph, Alpha>('4', 'A'),
        4 => pair::<Alpha_, Alpha>('5', 'A'),
        5 => pair::<
            TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCountry,
            TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCounty,
        >('6', '7'),
        6 => pair::<Named, Alpha>('8', 'A'),
        7 => pair::<Spaced, Alpha>('9', 'A'),
        8 => pair::<Empty, Spaced>('0', '9'),
        9 => pair::<Accent, Accent2>('a', 'e'),
        10 => pair::<ALPHA, alpha>('1', '2'),
        _ => pair::<Named, Empty>('8', '0'),
    }
}

/// A type whose jobs never yield holds up itself only.
fn c17_block() {
    let w = World::new(*pick(&[Kind::Mem, Kind::Redis], "backend"));
    let us = *pick(&[250_000u64, 1_700_000], "block");
    let (na, nb) = (1 + choose(2, "jobs A"), choose(2, "jobs B"));
    let warm = choose(2, "used before") == 1;
    let kind = choose(5, "kind");
    if warm {
        w.call("submit G warm", Job::new(Gamma(Data::n(0))).set_id("warm".into()).run());
    }
    for i in 0..na {
        w.call("submit A", Job::new(Alpha(Data::acts(1, &[Act::Block { us }]))).set_id(format!("a{i}")).run());
    }
    for i in 0..nb {
        w.call("submit B", Job::new(Beta(Data::acts(1, &[Act::Block { us }]))).set_id(format!("b{i}")).run());
    }
    w.advance(*pick(&[100i64, 130, 220], "at") * MS);
    ensure!(starts('A', "a0") == 1, "the blocking job did not start");
    let late: Vec<_> = (0..2)
        .map(|i| w.spawn(w.new_client(), Job::new(Alpha(Data::n(9))).set_id(format!("late{i}")).run()))
        .collect();
    let t0 = now();
    let sp = Spec::new("g", Data::n(1)).ty('G');
    let (sp, due, owed) = match kind {
        1 => (sp.when(When::In(150_000)), t0 + 150 * MS, 1),
        // the next whole second
        2 => (sp.when(When::Cron { expr: "* * * * * * *".into(), max: Some(1), end_ms: None }), (t0 / (1000 * MS) + 1) * 1000 * MS, 1),
        3 => (Spec::new("g", Data::acts(1, &[Act::Fail, Act::Ok])).ty('G').retry(Policy::Interval { max: Some(2), ms: 50 }), t0, 2),
        4 => (sp.when(When::In(300_000)), t0, 0),
        _ => (sp, t0, 1),
    };
    let r = w.call("submit G g", async move { Sim::real_job::<Gamma>(&sp).run().await });
    ensure!(matches!(r, Some(Ok(_))), "while another type blocks its thread a submission is not answered: {:?}", r.map(|r| r.is_ok()));
    ensure!(w.get('G', "g").is_some(), "the job is unknown");
    if kind == 4 {
        let r = w.call("cancel G g", async { AJ::cancel_job::<Gamma>("g".into()).await });
        ensure!(matches!(r, Some(Ok(()))), "while another type blocks its thread a cancellation is not answered: {r:?}");
    }
    w.advance((due - t0) + 110 * MS);
    ensure!(starts('G', "g") == owed.min(1), "job g of another type ran {} times within 110 ms of its time although only another type blocks its thread", starts('G', "g"));
    w.advance(1_500 * MS);
    ensure!(starts('G', "g") == owed, "job g of another type ran {} times instead of {owed}", starts('G', "g"));
    let v = w.get('G', "g").map(|v| v.status);
    ensure!(v == Some(if kind == 4 { 'C' } else { 'F' }), "job g of another type is {v:?}");
    // and the blocking type itself catches up
    w.advance(2_500 * MS);
    for i in 0..na {
        ensure!(starts('A', &format!("a{i}")) == 1, "job a{i} ran {} times", starts('A', &format!("a{i}")));
    }
    for (i, l) in late.iter().enumerate() {
        ensure!(matches!(l.take(), Some(Ok(_))), "a submission to the blocking type was never answered");
        let n = starts('A', &format!("late{i}"));
        ensure!(n == 1, "job late{i}, submitted while its type was blocked, ran {n} times");
    }
    for i in 0..nb {
        ensure!(starts('B', &format!("b{i}")) == 1, "job b{i} ran {} times", starts('B', &format!("b{i}")));
    }
    done()
}

fn c17_race() {
    let w = World::new(Kind::Mem);
    let warm = choose(2, "registered") == 1;
    if warm {
        w.call("submit wa", Job::new(Alpha(Data::n(0))).set_id("wa".into()).run());
        w.call("submit wb", Job::new(Beta(Data::n(0))).set_id("wb".into()).run());
    }
    let when = *pick(&[0i64, 100], "at");
    let mut slots = vec![];
    for c in 0..2i64 {
        let how = choose(2, "how");
        let cl = w.new_client();
        let a = at(when);
        slots.push(with_ty!(['A', 'B'][c as usize], T => w.spawn(cl, async move {
            a.await;
            let j = Job::new(T::from(Data::n(c))).set_id(format!("c{c}"));
            if how == 0 {
                j.run().await.map(|_| ())
            } else {
                j.just_run();
                Ok(())
            }
        })));
    }
    w.dev.set(if thorough() { 3 } else { 2 });
    w.advance(102 * MS);
    w.dev.set(0);
    w.advance(350 * MS);
    for (i, s) in slots.iter().enumerate() {
        match s.take() {
            Some(Ok(())) => {}
            o => violate(format!("submission by client {i} did not succeed: {o:?}")),
        }
    }
    for (t, c) in [('A', "c0"), ('B', "c1")] {
        let n = starts(t, c);
        ensure!(n == 1, "job {c} of type {t} was executed {n} times");
        let v = w.get(t, c);
        ensure!(v.as_ref().is_some_and(|v| v.status == 'F'), "job {c} ends as {:?}", v.map(|v| v.status));
    }
    ensure!(starts('A', "c1") == 0 && starts('B', "c0") == 0, "a job ran in the queue of another type");
    done()
}

/// One id used in two types.
fn c17_shared_id() {
    let w = World::new(Kind::Mem);
    let gap = *pick(&[0i64, 110], "gap");
    let mut d = Data::n(1);
    d.text = "first".into();
    w.call("submit A x", Job::new(Alpha(d.clone())).set_id("x".into()).run());
    w.advance(gap * MS);
    let d2 = Data::acts(2, &[Act::Fail]);
    w.call("submit B x", Job::new(Beta(d2.clone())).set_id("x".into()).run());
    w.advance(500 * MS);
    let ran = |t, text: &str| {
        LOG.with(|l| l.borrow().iter().filter(|e| matches!(&e.ev, Ev::Start { ty, id, data, .. } if *ty == t && id == "x" && data.text == text)).count())
    };
    ensure!(
        ran('A', "first") == 1 && ran('B', "") == 1,
        "shared id: the job of the first type ran {} times with its own data, the one of the second type {} times",
        ran('A', "first"),
        ran('B', "")
    );
    let v = w.get('A', "x");
    ensure!(
        v.as_ref().is_some_and(|v| v.status == 'F' && v.data.text == "first"),
        "shared id: get_job of the first type answers {:?}",
        v.map(|v| (v.status, v.data))
    );
    done()
}
/// The handle of another type is used on an id.
fn c17_foreign() {
    let w = World::new(Kind::Mem);
    w.call("submit B y", Job::new(Beta(Data::n(2))).set_id("y".into()).run());
    let what = choose(3, "what");
    let j = Job::new(Alpha(Data::n(1))).set_id("x".into());
    let j = if what == 2 { j } else { j.delay(chrono::Duration::milliseconds(200)) };
    w.call("submit A x", j.run());
    match what {
        0 => {
            w.call("cancel x as B", AJ::cancel_job::<Beta>("x".into()));
        }
        1 => {
            w.call("retry x as B", AJ::retry_job::<Beta>("x"));
        }
        _ => {
            w.advance(110 * MS);
            w.call("retry x as B", AJ::retry_job::<Beta>("x"));
        }
    }
    let v = w.get('A', "x");
    let want = if what == 2 { 'F' } else { 'Q' };
    ensure!(
        v.as_ref().is_some_and(|v| v.status == want),
        "foreign handle: after {} through another type the job is {:?}",
        ["a cancel", "a retry", "a retry"][what],
        v.map(|v| v.status)
    );
    w.advance(400 * MS);
    ensure!(
        starts('B', "x") == 0 && starts('A', "x") == 1,
        "foreign handle: after {} through another type the job ran {} times and {} times as that type",
        ["a cancel", "a retry", "a retry"][what],
        starts('A', "x"),
        starts('B', "x")
    );
    done()
}

// ---- C18 ----

fn contents(s: &Shared) -> bool {
    let s = s.lock().unwrap();
    *s != Store::default()
}

fn c18_start() {
    let w = World::bare(Shared::default());
    let n = 2 + choose(2, "starts");
    let one_client = choose(2, "from one client") == 1;
    let timing = choose(3, "starts later");
    let stores: Vec<Shared> = (0..n).map(|_| Shared::default()).collect();
    let addrs = Arc::new(Mutex::new(vec![]));
    let mut slots = vec![];
    for (i, st) in stores.iter().enumerate() {
        let cl = if one_client { w.client } else { w.new_client() };
        let (st, addrs) = (st.clone(), addrs.clone());
        let a = at(if i == 0 { 0 } else { [0i64, 50, 150][timing] });
        slots.push(w.spawn(cl, async move {
            a.await;
            let a = AJ::start(Spy::new(Kind::Ref, &st));
            addrs.lock().unwrap().push(a);
            let a = aj_core::get_aj_address();
            if let Some(a) = a {
                addrs.lock().unwrap().push(a);
            }
            Job::new(Alpha(Data::n(i as i64))).set_id(format!("s{i}")).run().await
        }));
    }
    w.dev.set(if thorough() { 3 } else { 2 });
    w.advance(160 * MS);
    w.dev.set(0);
    w.advance(300 * MS);
    for (i, s) in slots.iter().enumerate() {
        match s.take() {
            Some(Ok(_)) => {}
            o => violate(format!("client {i} started the engine and its submission answered {o:?}")),
        }
        let r = starts('A', &format!("s{i}"));
        ensure!(r == 1, "job s{i}, submitted by a client that had started the engine, was executed {r} times");
    }
    let a = addrs.lock().unwrap();
    ensure!(a.len() == 2 * n, "the address of the engine is not known after it was started");
    ensure!(a.windows(2).all(|p| p[0] == p[1]), "{n} starts returned different engines");
    let used: Vec<usize> = (0..n).filter(|i| contents(&stores[*i])).collect();
    ensure!(used.len() == 1, "{n} starts with a backend each: backends {used:?} are in use");
    if timing > 0 {
        ensure!(used == vec![0], "a later start replaced the backend: {used:?}");
    }
    drop(a);
    done()
}

fn c18_first() {
    let w = World::new(Kind::Mem);
    let n = 2 + choose(2, "clients");
    let types = choose(2, "types") == 1;
    let dev = if thorough() { 3 } else { 2 };
    let mut slots = vec![];
    let mut ids = vec![];
    for c in 0..n as i64 {
        let how = choose(3, "how");
        let cl = w.new_client();
        let ty = if types && c % 2 == 1 { 'B' } else { 'A' };
        ids.push((ty, format!("c{c}")));
        slots.push(with_ty!(ty, T => w.spawn(cl, async move {
            let j = Job::new(T::from(Data::n(c))).set_id(format!("c{c}"));
            match how {
                0 => j.run().await.map(|_| ()),
                1 => { j.just_run(); Ok(()) }
                _ => AJ::add_job(j, <T as aj::BackgroundJob>::queue_name()).await.map(|_| ()),
            }
        })));
    }
    w.dev.set(if n == 3 { dev - 1 } else { dev });
    w.settle();
    w.dev.set(0);
    w.advance(220 * MS);
    for (i, s) in slots.iter().enumerate() {
        match s.take() {
            Some(Ok(())) => {}
            o => violate(format!("first submission by client {i} did not succeed: {o:?}")),
        }
    }
    for (t, c) in &ids {
        let n = starts(*t, c);
        ensure!(n == 1, "first job {c} of type {t} was executed {n} times");
    }
    // one queue, with one limit, that every handle reaches
    for t in ['A', 'B'] {
        if !ids.iter().any(|(x, _)| *x == t) {
            continue;
        }
        with_ty!(t, T => {
            let r = w.call("limit 2", AJ::update_work_queue::<T>(WorkQueueConfig { max_processing_jobs: 2, ..Default::default() }));
            ensure!(matches!(r, Some(Ok(()))), "update_work_queue: {r:?}");
            for i in 0..5 {
                let r = w.call("submit", Job::new(T::from(Data::acts(i, &[Act::Gate]))).set_id(format!("{t}g{i}")).run());
                ensure!(matches!(r, Some(Ok(_))), "submission: {r:?}");
            }
        });
        w.advance(350 * MS);
        let on = (0..5).filter(|i| starts(t, &format!("{t}g{i}")) > 0).count();
        ensure!(on == 2, "{on} jobs of type {t} run at once, limit 2: there is more than one queue");
    }
    ensure!(actix_rt::mc::panics().is_empty(), "panic in the engine: {:?}", actix_rt::mc::panics());
    done()
}

macro_rules! each_type {
    ($n:expr, $T:ident, $c:ident => $e:expr) => {{
        use alike::*;
        let mut i = 0;
        each_type!(@ $n, i, $T, $c, $e; Alpha 'A' Beta 'B' Gamma 'G' ALPHA '1' alpha '2' AlphaBeta '3' Alph '4' Alpha_ '5'
            TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCountry '6'
            TheVeryLongNameOfAJobTypeThatSomebodyGaveToItBecauseItDescribesWhatItDoesInOneCounty '7'
            Named '8' Spaced '9' Empty '0' Accent 'a' Accent2 'e');
        let _ = i;
    }};
    (@ $n:expr, $i:ident, $T:ident, $c:ident, $e:expr; $($t:ident $l:literal)*) => {
        $(
            if $i < $n {
                type $T = $t;
                let $c: char = $l;
                $e;
            }
            $i += 1;
        )*
    };
}
fn c18_many() {
    let n = 1 + choose(15, "types");
    let just = choose(2, "just_run") == 1;
    let together = choose(2, "together") == 1;
    let w = World::new(*pick(&[Kind::Mem, Kind::Redis], "backend"));
    for round in 0..2 {
        let mut slots = vec![];
        each_type!(n, T, c => {
            let j = Job::new(T::from(Data::n(round))).set_id(format!("{c}{round}"));
            let s = w.spawn(w.client, async move {
                if just { j.just_run(); true } else { j.run().await.is_ok() }
            });
            if !together {
                w.settle();
            }
            slots.push((c, s));
        });
        w.advance(110 * MS);
        for (c, s) in slots {
            ensure!(s.take() == Some(true), "with {n} types a submission to type {c} is not accepted");
            let k = starts(c, &format!("{c}{round}"));
            ensure!(k == 1, "with {n} types the job of type {c} ran {k} times");
        }
    }
    ensure!(actix_rt::mc::panics().is_empty(), "panic in the engine: {:?}", actix_rt::mc::panics());
    done()
}

/// Many types at a time: each is served, with the limit that was given to it, and none of them minds the others.
macro_rules! number_types {
    ($n:expr, $T:ident, $i:ident => $e:expr) => {
        number_types!(@ $n, $T, $i, $e; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
            32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64)
    };
    (@ $n:expr, $T:ident, $i:ident, $e:expr; $($k:literal)*) => {
        $(
            if $k < $n {
                type $T = Many<$k>;
                let $i: usize = $k;
                $e;
            }
        )*
    };
}
fn wide_types() {
    let n = *pick(if thorough() { &[17, 33, 65] } else { &[17, 33] }, "types");
    let together = choose(2, "together") == 1;
    let limit = choose(2, "limits");
    let w = World::new(*pick(&[Kind::Mem, Kind::Redis], "backend"));
    let max = |i: usize| if limit == 0 { usize::MAX } else { 1 + i % 3 };
    let per = 4;
    if limit == 1 {
        number_types!(n, T, i => {
            let r = w.call("first", Job::new(T::from(Data::n(0))).set_id(format!("f{i}")).run());
            ensure!(matches!(r, Some(Ok(_))), "first submission to type {i} of {n}: {r:?}");
        });
        w.advance(110 * MS);
        number_types!(n, T, i => {
            ensure!(starts('N', &format!("f{i}")) == 1, "first job of type {i} of {n} ran {} times", starts('N', &format!("f{i}")));
            let r = w.call("limit", AJ::update_work_queue::<T>(WorkQueueConfig { max_processing_jobs: max(i), ..Default::default() }));
            ensure!(matches!(r, Some(Ok(()))), "update_work_queue for type {i} of {n}: {r:?}");
        });
    }
    let mut slots = vec![];
    number_types!(n, T, i => {
        for k in 0..per {
            let j = Job::new(T::from(Data::acts(i as i64, &[Act::Sleep { us: 300_000, ok: true }]))).set_id(format!("{i}-{k}"));
            slots.push((i, w.spawn(w.client, async move { j.run().await.is_ok() })));
            if !together {
                w.settle();
            }
        }
    });
    w.advance(220 * MS);
    for (i, s) in slots {
        ensure!(s.take() == Some(true), "with {n} types a submission to type {i} is not accepted");
    }
    for i in 0..n {
        let on = (0..per).filter(|k| starts('N', &format!("{i}-{k}")) > 0).count();
        let want = max(i).min(per);
        ensure!(on == want, "with {n} types, {on} jobs of type {i} run at once, expected {want}");
    }
    w.advance(2500 * MS);
    for i in 0..n {
        for k in 0..per {
            let s = starts('N', &format!("{i}-{k}"));
            ensure!(s == 1, "with {n} types job {k} of type {i} ran {s} times");
        }
    }
    ensure!(actix_rt::mc::panics().is_empty(), "panic in the engine: {:?}", actix_rt::mc::panics());
    done()
}

/// Two types with one queue name.
fn c18_taken() {
    type Twin = alike::other::Alpha;
    let w = World::new(Kind::Mem);
    let beta_first = choose(2, "beta before") == 1;
    let times = 1 + choose(2, "times");
    let just = choose(2, "just_run") == 1;
    let with_config = choose(2, "config") == 1;
    let ok = |what: &str, r: Option<Result<String, aj_core::Error>>| ensure!(matches!(r, Some(Ok(_))), "{what} answered {r:?}");
    ok("first use of the first type", w.call("a", Job::new(Alpha(Data::n(1))).set_id("a".into()).run()));
    if beta_first {
        ok("first use of another type", w.call("b0", Job::new(Beta(Data::n(1))).set_id("b0".into()).run()));
    }
    for i in 0..times {
        let j = Job::new(Twin::from(Data::n(7))).set_id(format!("t{i}"));
        if just {
            w.call("twin", async move { j.just_run() });
        } else {
            let r = w.call("twin", j.run());
            ensure!(matches!(r, Some(Err(_))), "a submission to a type whose queue name is taken answered {r:?}");
        }
        w.advance(50 * MS);
    }
    if with_config {
        let r = w.call("configure twin", AJ::update_work_queue::<Twin>(WorkQueueConfig::default()));
        ensure!(matches!(r, Some(Err(_))), "update_work_queue of a type whose queue name is taken answered {r:?}");
    }
    ok("a later use of the first type", w.call("a2", Job::new(Alpha(Data::n(2))).set_id("a2".into()).run()));
    ok("first use of a third type after a queue name was claimed twice", w.call("g", Job::new(Gamma(Data::n(3))).set_id("g".into()).run()));
    ok("use of another type", w.call("b", Job::new(Beta(Data::n(3))).set_id("b".into()).run()));
    w.call("just_run", async { Job::new(alike::Named(Data::n(4))).set_id("n".into()).just_run() });
    w.advance(220 * MS);
    for (t, id) in [('A', "a"), ('A', "a2"), ('G', "g"), ('B', "b"), ('8', "n")] {
        ensure!(starts(t, id) == 1, "job {id} ran {} times after a queue name was claimed twice", starts(t, id));
    }
    for i in 0..times {
        let id = format!("t{i}");
        ensure!(starts('A', &id) == 0, "the job of the second type was executed as one of the first");
        ensure!(starts('o', &id) == 0, "the job of the second type was refused and ran");
    }
    done()
}

fn c18_unused() {
    let mut s = Sim::new(Kind::Mem);
    for _ in 0..if thorough() { 4 } else { 3 } {
        let ty = *pick(&['A', 'B'], "type");
        let id = if ty == 'A' { "a" } else { "b" };
        match choose(7, "call") {
            0 => s.cancel(ty, id),
            1 => s.retry(ty, id),
            2 => s.configure(ty, 3, 50),
            3 => {
                let v = s.w.get(ty, id);
                ensure!(v.is_some() == (s.status(ty, id) != '-'), "get_job answers {v:?}");
            }
            4 => s.update(ty, id, Data::n(7), None),
            5 => s.submit(&Spec::new(id, Data::n(1)).ty(ty), Via::Run),
            _ => s.submit(&Spec::new(id, Data::n(2)).ty(ty), Via::JustRun),
        }
        s.check();
        if choose(2, "adv") == 1 {
            s.advance_ms(100);
        }
    }
    s.drain();
    s.end()
}

fn c18_outside() {
    crate::clock::VIRTUAL.store(true, std::sync::atomic::Ordering::SeqCst);
    let n = 1 + choose(2, "starts");
    let stores: Vec<Shared> = (0..n).map(|_| Shared::default()).collect();
    let mut addrs = vec![];
    for st in &stores {
        let st = st.clone();
        let r = std::thread::spawn(move || AJ::start(Spy::new(Kind::Ref, &st))).join();
        match r {
            Ok(a) => addrs.push(a),
            Err(_) => violate("AJ::start panicked outside of an actix system".into()),
        }
    }
    ensure!(addrs.windows(2).all(|p| p[0] == p[1]), "two starts returned different engines");
    let w = World::foreign();
    let mut slots = vec![];
    for c in 0..2i64 {
        let how = choose(2, "how");
        let cl = actix_rt::mc::new_foreign();
        let ty = *pick(&['A', 'B'], "type");
        slots.push((ty, c, with_ty!(ty, T => w.spawn(cl, async move {
            let j = Job::new(T::from(Data::n(c))).set_id(format!("c{c}"));
            if how == 0 {
                j.run().await.map(|_| ())
            } else {
                j.just_run();
                Ok(())
            }
        }))));
    }
    w.dev.set(2);
    w.settle();
    w.dev.set(0);
    w.advance(300 * MS);
    for (t, c, s) in &slots {
        match s.take() {
            Some(Ok(())) => {}
            o => violate(format!("first submission by client {c} did not succeed: {o:?}")),
        }
        let n = starts(*t, &format!("c{c}"));
        ensure!(n == 1, "first job c{c} of type {t} was executed {n} times");
    }
    ensure!(contents(&stores[0]) && !stores.iter().skip(1).any(contents), "a later start replaced the backend");
    done()
}
