//! Life of jobs: exactly-once (C01), status (C02), cancellation (C05), manual retry (C08), resubmission (C11).
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;
use aj::BackgroundJob;
use aj_core::{EnqueueConfig, Job, JobContext, AJ};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C01", "c01-mix", "3 jobs (4 in thorough) x outcome {ok, fail, gated, 150 ms} x {run, just_run, add_job, enqueue_job} x polling between or not, InMemory", c01_mix),
        q("C01", "c01-bulk", "job counts around the batch size 20 (1..61) x slot limits x {all due, some delayed, all delayed} x run length, InMemory", c01_bulk),
        q("C01", "c01-wide", "100..513 (1030) jobs waiting together x limit x {due, delayed, mixed}, InMemory", c01_wide),
        q("C01", "c01-race", "2 clients submit at the same instant as a poll; all schedules of the actors with at most 2 (3) deviations", c01_race),
        q("C01", "c01-long", "330 (1100) polls with 1 to 3 new jobs before each, some delayed, failing or cancelled x limit x run length", c01_long),
        q("C04", "c04-long", "the same with the limit and its use in view: 330 (1100) polls, jobs that outlast polls, retries", c01_long),
        q("C22", "c22-long", "the same with the order of acceptance in view", c01_long),
        q("C17", "c17-long", "the same with jobs of two types in turn", c17_long),
        q("C02", "c02-long", "a job that has been executed 0 to 257 times by retries, cron, resubmissions, manual retries: its record after each step", c02_long),
        q("C01", "c01-again", "one id submitted again by any path while it waits, runs or is done: every history of 4 (5) steps with a second job beside it", c01_again),
        q("C01", "c01-redis", "as c01-mix with 2 jobs, on the real Redis backend over its wire protocol", c01_redis),
        q("C01", "c01-redis-bulk", "bulk submissions on the real Redis backend", c01_redis_bulk),
        q("C01", "c01-nosystem", "engine started from a thread without an actix system", c01_nosystem),
        q("C02", "c02-history", "every history of 5 (6) steps over submit/cancel/retry/release/advance on one job, 7 job kinds; status, run_count and timestamps compared after every step", c02_history),
        q("C02", "c02-again", "every history of 5 (6) steps over submit/cancel/retry/release/advance on jobs with retries, crons and both", c02_again),
        q("C02", "c02-two", "every history of 4 (5) steps over two jobs sharing one slot", c02_two),
        q("C02", "c02-observer", "a second client reads the job at every scheduling point while it is submitted, runs and ends; at most 2 (3) deviations", c02_observer),
        q("C02", "c02-redis", "histories of 3 steps on the real Redis backend", c02_redis),
        q("C05", "c05-history", "every history of 4 (5) steps over cancel/submit/retry/advance/release for 7 job kinds", c05_history),
        q("C05", "c05-bulk", "cancel any subset-of-one or two of n queued jobs (n up to 41): exactly the others run", c05_bulk),
        q("C05", "c05-wide", "one of 100 to 260 waiting jobs cancelled x position x limit", c05_wide),
        q("C05", "c05-long", "a job that has been executed 0 to 257 times (retries, cron, resubmissions, manual retries) cancelled before its next execution, then submitted or retried again", c05_long),
        q("C05", "c05-race", "cancel lands at the same instant as the poll; all schedules with at most 3 (4) deviations", c05_race),
        q("C05", "c05-redis", "cancel histories of 3 steps on the real Redis backend", c05_redis),
        q("C08", "c08-history", "every history of 4 (5) steps over retry/submit/cancel/advance/release for 7 job kinds", c08_history),
        q("C08", "c08-race", "two clients retry one finished job concurrently, at the instant of a poll", c08_race),
        q("C08", "c08-long", "one job retried by hand 300 times in a row, after successes, failures, cancellations", c08_long),
        q("C08", "c08-cron", "every history of 5 (6) steps over retry/cancel/resubmit/advance for cron jobs with maximum, end, both, retries", c08_cron),
        q("C08", "c08-bulk", "retry k of n done jobs", c08_bulk),
        q("C11", "c11-matrix", "existing status {none, queued, delayed, running, finished, failed, cancelled, waiting for retry} x re_run x override x API, then two further steps", c11_matrix),
        q("C11", "c11-history", "every history of 4 (5) steps over resubmissions with all EnqueueConfigs, update_job with and without context, polls", c11_history),
        q("C11", "c11-cron", "histories of 4 (5) steps over an existing cron job (3 kinds): resubmitted as another cron job, at once or delayed x 4 configurations, updated, cancelled, waits", c11_cron),
        q("C11", "c11-long", "one id submitted or updated 300 times: waiting, done, each with a payload of its own", c11_long),
        q("C11", "c11-race", "resubmission or update lands at the same instant as the poll", c11_race),
    ]
}

pub const GATE: [Act; 1] = [Act::Gate];

/// Steps of an explored history.
#[derive(Clone, Debug)]
pub enum H {
    Sub(usize, Via),
    Cancel(&'static str),
    Retry(&'static str),
    Upd(&'static str),
    UpdCtx(&'static str),
    /// With the context the job has.
    UpdOwn(&'static str),
    /// With a context that has the id of no job.
    UpdOther(&'static str),
    Adv(i64),
    Rel(&'static str, bool),
}

pub fn applicable(s: &Sim, h: &H, last: Option<&H>, ty: char) -> bool {
    match h {
        H::Rel(id, _) => {
            s.jobs.get(&(ty, id.to_string())).is_some_and(|j| j.status == 'R' && j.data.acts.last() == Some(&Act::Gate))
        }
        // two waits in a row are one longer wait, explored through other values
        H::Adv(a) => !matches!(last, Some(H::Adv(b)) if b < a),
        _ => true,
    }
}

/// Every sequence of `depth` steps from the alphabet; the machine is compared after each of them.
pub fn history(s: &mut Sim, specs: &[Spec], alphabet: &[H], depth: usize) {
    steps(s, specs, alphabet, depth);
    s.drain();
}
pub fn steps(s: &mut Sim, specs: &[Spec], alphabet: &[H], depth: usize) {
    let ty = specs[0].ty;
    let mut last: Option<H> = None;
    let mut n = 100;
    for _ in 0..depth {
        let opts: Vec<&H> = alphabet.iter().filter(|h| applicable(s, h, last.as_ref(), ty)).collect();
        let h = (*pick(&opts, "step")).clone();
        n += 1;
        match &h {
            H::Sub(k, via) => {
                let mut sp = specs[*k].clone();
                sp.data.n = n;
                s.submit(&sp, via.clone());
            }
            H::Cancel(id) => s.cancel(ty, id),
            H::Retry(id) => s.retry(ty, id),
            H::Upd(id) => {
                let mut d = specs[0].data.clone();
                d.n = n;
                s.update(ty, id, d, None);
            }
            H::UpdCtx(id) => {
                let mut d = specs[0].data.clone();
                d.n = n;
                let mut c = JobContext::new(id.to_string());
                c.job_type = aj_core::JobType::ScheduledAt(dt(now() + 120 * MS));
                s.update(ty, id, d, Some(c));
            }
            H::UpdOwn(id) => {
                let mut d = specs[0].data.clone();
                d.n = n;
                s.update_own(ty, id, d);
            }
            H::UpdOther(id) => {
                let mut d = specs[0].data.clone();
                d.n = n;
                let mut c = JobContext::new("other".into());
                c.job_type = aj_core::JobType::ScheduledAt(dt(now() + 120 * MS));
                s.update(ty, id, d, Some(c));
                ensure!(s.w.get(ty, "other").is_none(), "updating job {id} with a context made another job");
            }
            H::Adv(ms) => s.advance_ms(*ms),
            H::Rel(id, ok) => s.release(ty, id, *ok),
        }
        s.check();
        last = Some(h);
    }
}

/// The kinds of job the histories start from.
pub fn kinds(id: &str) -> Vec<Spec> {
    vec![
        Spec::new(id, Data::n(1)),
        Spec::new(id, Data::acts(1, &[Act::Fail])),
        Spec::new(id, Data::acts(1, &GATE)),
        Spec::new(id, Data::n(1)).when(When::In(150_000)),
        Spec::new(id, Data::acts(1, &[Act::Fail, Act::Ok])).retry(Policy::Interval { max: Some(2), ms: 120 }),
        Spec::new(id, Data { n: 1, bump: 1000, acts: vec![Act::PostFail, Act::Ok], ..Data::default() }),
        Spec::new(id, Data::acts(1, &[Act::Sleep { us: 130_000, ok: true }])),
    ]
}

fn mix(kind: Kind, jobs: i64, vias: &[Via]) -> ! {
    let mut s = Sim::new(kind);
    let acts = [vec![], vec![Act::Fail], vec![Act::Gate], vec![Act::Sleep { us: 150_000, ok: true }]];
    for i in 0..jobs {
        let a = pick(&acts, "act").clone();
        let via = pick(vias, "via").clone();
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i, &a)), via);
        s.check();
        if choose(2, "adv") == 1 {
            s.advance_ms(100);
            s.check();
        }
    }
    s.drain();
    s.advance_ms(1000);
    s.end()
}
const VIAS: [Via; 4] = [Via::Run, Via::JustRun, Via::Add, Via::Enq { re_run: false, over: true }];

fn c01_mix() {
    mix(Kind::Mem, if thorough() { 4 } else { 3 }, &VIAS)
}
fn c01_redis() {
    mix(Kind::Redis, 2, &VIAS[..2])
}

fn stream(types: &[char]) -> ! {
    let per = *pick(&[1usize, 3], "jobs per poll");
    let limit = *pick(&[1usize, 2, 20], "limit");
    let how = choose(5, "how");
    let mut s = Sim::new(Kind::Mem);
    for t in types {
        s.submit(&Spec::new(&format!("w{t}"), Data::n(0)).ty(*t), Via::Run);
        s.configure(*t, limit, 100);
    }
    for r in 0..if thorough() { 1_100usize } else { 330 } {
        let ty = types[r % types.len()];
        for i in 0..per {
            let k = r * per + i;
            let act = match how {
                0 => Act::Ok,
                1 => Act::Sleep { us: 130_000, ok: k % 3 != 0 },
                _ => {
                    if k % 4 == 0 {
                        Act::Fail
                    } else {
                        Act::Ok
                    }
                }
            };
            let mut sp = Spec::new(&format!("j{k}"), Data::acts(k as i64, &[act.clone()])).ty(ty);
            if how == 2 && k % 3 == 0 {
                sp = sp.when(When::In(130_000 + (k as i64 % 7) * 100_000));
            }
            if how == 4 && k % 4 == 0 {
                sp.data.acts = vec![Act::Fail, Act::Ok];
                sp = sp.retry(Policy::Interval { max: Some(1), ms: 70 });
            }
            s.submit(&sp, Via::Run);
            if how == 3 && k % 5 == 0 {
                s.cancel(ty, &sp.id);
            }
        }
        s.advance_ms(105);
        if r % 60 == 59 {
            s.check();
        }
    }
    s.check();
    s.advance_ms(1_000);
    s.check();
    s.end()
}
fn c01_long() {
    stream(&['A'])
}
fn c17_long() {
    stream(&['A', 'B'])
}

fn c01_again() {
    let act = pick(&[Act::Ok, Act::Fail, Act::Gate, Act::Sleep { us: 150_000, ok: true }], "act").clone();
    let mut s = Sim::new(Kind::Mem);
    let a = Spec::new("a", Data::acts(1, &[act]));
    let b = Spec::new("b", Data::acts(2, &GATE));
    s.submit(&a, pick(&VIAS, "via").clone());
    s.configure('A', *pick(&[1usize, 20], "limit"), 100);
    s.submit(&b, Via::Run);
    s.check();
    let al = [
        H::Adv(100),
        H::Sub(0, Via::Run),
        H::Sub(0, Via::JustRun),
        H::Sub(0, Via::Add),
        H::Sub(0, Via::Skip),
        H::Sub(1, Via::ReRun),
        H::Rel("a", true),
        H::Rel("b", false),
    ];
    history(&mut s, &[a, b], &al, if thorough() { 5 } else { 4 });
    s.advance_ms(300);
    s.end()
}

fn bulk(kind: Kind, counts: &[i64], limits: &[usize]) -> ! {
    let n = *pick(counts, "jobs");
    let limit = *pick(limits, "limit");
    let pattern = choose(6, "pattern");
    let act = pick(&[Act::Ok, Act::Sleep { us: 30_000, ok: true }, Act::Sleep { us: 150_000, ok: true }], "act").clone();
    let mut s = Sim::new(kind);
    let mut first = true;
    for i in 0..n {
        let delayed = match pattern {
            0 => false,
            1 => i % 2 == 0,
            2 => i < 20,
            3 => i >= 20,
            4 => i == n - 1 || i == 0,
            _ => true,
        };
        let mut sp = Spec::new(&format!("j{i}"), Data::acts(i, &[act.clone()]));
        if delayed {
            sp = sp.when(When::In(250_000));
        }
        s.submit(&sp, Via::Run);
        if first {
            first = false;
            s.configure('A', limit, 100);
        }
    }
    s.check();
    s.drain();
    for i in 0..n {
        let j = &s.jobs[&('A', format!("j{i}"))];
        ensure!(j.starts == 1, "job j{i} was executed {} times", j.starts);
    }
    s.advance_ms(300);
    s.end()
}
fn c01_bulk() {
    let c: &[i64] = if thorough() {
        &[1, 2, 3, 5, 10, 18, 19, 20, 21, 22, 23, 38, 39, 40, 41, 42, 45, 59, 60, 61, 79, 80, 81, 101]
    } else {
        &[1, 2, 3, 19, 20, 21, 22, 39, 40, 41, 45, 61]
    };
    bulk(Kind::Mem, c, &[1, 2, 3, 7, 19, 20, 21, 40, 1000])
}
/// More jobs than any batch or buffer in the engine.
fn c01_wide() {
    let n = *pick(if thorough() { &[100i64, 129, 257, 300, 513, 1030] } else { &[100i64, 129, 257, 300, 513] }, "jobs");
    let limit = *pick(&[20usize, 64, 1000], "limit");
    let pattern = choose(3, "pattern");
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        let mut sp = Spec::new(&format!("j{i}"), Data::n(i));
        if pattern == 1 || (pattern == 2 && i % 3 == 0) {
            sp = sp.when(When::In(250_000));
        }
        s.submit(&sp, Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    s.drain();
    for i in 0..n {
        let j = &s.jobs[&('A', format!("j{i}"))];
        ensure!(j.starts == 1, "job j{i} was executed {} times", j.starts);
    }
    s.advance_ms(300);
    s.end()
}
fn c01_redis_bulk() {
    bulk(Kind::Redis, &[3, 20, 21, 41], &[2, 20])
}

/// Lets both clients act at the instant of a poll.
pub fn at(t_ms: i64) -> impl std::future::Future<Output = ()> {
    let target = now() + t_ms * MS;
    async move {
        let d = (target - now()).max(0) as u64;
        actix_rt::time::sleep(std::time::Duration::from_nanos(d)).await;
    }
}

fn c01_race() {
    let w = World::new(Kind::Mem);
    w.dev.set(0);
    let warm = choose(2, "registered") == 1;
    if warm {
        w.call("submit w", Job::new(Alpha(Data::n(0))).set_id("w".into()).run());
    }
    let when = *pick(&[0i64, 100], "at");
    let mut slots = vec![];
    for c in 0..2 {
        let how = choose(2, "how");
        let data = Data::acts(c, &[if c == 0 { Act::Ok } else { Act::Fail }]);
        let cl = w.new_client();
        let a = at(when);
        slots.push(w.spawn(cl, async move {
            a.await;
            let j = Job::new(Alpha(data)).set_id(format!("c{c}"));
            if how == 0 {
                j.run().await.map(|_| ())
            } else {
                j.just_run();
                Ok(())
            }
        }));
    }
    w.dev.set(if thorough() { 3 } else { 2 });
    w.advance(102 * MS);
    w.dev.set(0);
    w.advance(350 * MS);
    for (i, s) in slots.iter().enumerate() {
        match s.take() {
            Some(Ok(())) => {}
            o => violate(format!("submission by client {i} did not succeed: {o:?}")),
        }
    }
    for c in ["c0", "c1"].iter().chain(if warm { ["w"].iter() } else { [].iter() }) {
        let n = starts('A', c);
        ensure!(n == 1, "accepted job {c} was executed {n} times");
        let v = w.get('A', c);
        let want = if *c == "c1" { 'X' } else { 'F' };
        ensure!(v.as_ref().is_some_and(|v| v.status == want), "job {c} ends as {:?}", v.map(|v| v.status));
    }
    done()
}

fn c01_nosystem() {
    let start_twice = choose(2, "twice") == 1;
    let acts = [vec![], vec![Act::Fail], vec![Act::Sleep { us: 150_000, ok: true }]];
    clock_on();
    let start = || {
        std::thread::spawn(|| {
            AJ::start(aj_core::mem::InMemory::default());
        })
        .join()
    };
    ensure!(start().is_ok(), "AJ::start panicked outside of an actix system");
    if start_twice {
        ensure!(start().is_ok(), "AJ::start panicked outside of an actix system");
    }
    let w = World::foreign();
    let mut s = Sim::with(w);
    for i in 0..2 {
        let a = pick(&acts, "act").clone();
        let via = pick(&VIAS, "via").clone();
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i, &a)), via);
    }
    s.drain();
    s.end()
}
fn clock_on() {
    crate::clock::VIRTUAL.store(true, std::sync::atomic::Ordering::SeqCst);
}

fn life_alphabet() -> Vec<H> {
    vec![
        H::Adv(100),
        H::Adv(50),
        H::Sub(0, Via::Run),
        H::Cancel("a"),
        H::Retry("a"),
        H::Rel("a", true),
        H::Rel("a", false),
    ]
}

fn c02_history() {
    let spec = pick(&kinds("a"), "kind").clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    s.check();
    history(&mut s, &[spec], &life_alphabet(), if thorough() { 6 } else { 5 });
    s.end()
}
fn c02_again() {
    let fail = Data { n: 1, bump: 1, acts: vec![Act::Fail], ..Data::default() };
    let mixed = Data { n: 1, bump: 1, acts: vec![Act::Fail, Act::Ok, Act::Fail, Act::Fail, Act::Ok], ..Data::default() };
    let every = |max| When::Cron { expr: "* * * * * * *".into(), max, end_ms: None };
    let spec = pick(
        &[
            Spec::new("a", fail.clone()).retry(Policy::Interval { max: Some(1), ms: 60 }),
            Spec::new("a", Data::acts(1, &GATE)).retry(Policy::Interval { max: Some(2), ms: 120 }),
            Spec::new("a", Data::acts(1, &GATE)).when(every(Some(2))),
            Spec::new("a", fail).when(every(Some(3))),
            Spec::new("a", mixed).when(every(Some(3))).retry(Policy::Interval { max: Some(3), ms: 150 }),
            Spec::new("a", Data::acts(1, &GATE)).when(every(Some(4))).retry(Policy::Expo { max: Some(1), ms: 100 }),
        ],
        "kind",
    )
    .clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    s.check();
    let mut al = life_alphabet();
    al[0] = H::Adv(1000);
    al[1] = H::Adv(110);
    history(&mut s, &[spec], &al, if thorough() { 6 } else { 5 });
    s.end()
}
fn c02_redis() {
    let spec = pick(&kinds("a"), "kind").clone();
    let mut s = Sim::new(Kind::Redis);
    s.submit(&spec, Via::Run);
    s.check();
    history(&mut s, &[spec], &[H::Adv(100), H::Cancel("a"), H::Retry("a"), H::Rel("a", true), H::Rel("a", false)], 3);
    s.end()
}
fn c02_two() {
    let ka = pick(&kinds("a")[..5], "kind").clone();
    let kb = Spec::new("b", Data::acts(2, &GATE));
    let mut s = Sim::new(Kind::Mem);
    s.submit(&ka, Via::Run);
    s.configure('A', 1, 100);
    s.submit(&kb, Via::Run);
    s.check();
    let al = [
        H::Adv(100),
        H::Cancel("a"),
        H::Cancel("b"),
        H::Retry("a"),
        H::Retry("b"),
        H::Rel("a", true),
        H::Rel("b", true),
        H::Rel("b", false),
    ];
    history(&mut s, &[ka, kb], &al, if thorough() { 5 } else { 4 });
    s.end()
}

fn c02_observer() {
    let w = World::new(Kind::Mem);
    let act = pick(&[Act::Ok, Act::Fail, Act::Yield(2), Act::Sleep { us: 100_000, ok: true }], "act").clone();
    let ok = act != Act::Fail;
    let cl = w.new_client();
    let sub = w.spawn(cl, Job::new(Alpha(Data::acts(1, &[act]))).set_id("a".into()).run());
    w.dev.set(if thorough() { 3 } else { 2 });
    w.settle();
    ensure!(matches!(sub.take(), Some(Ok(_))), "submission failed");
    // an observer that reads the job over and over at the instant of the polls
    let obs = w.new_client();
    let seen = w.spawn(obs, {
        let a = at(100);
        async move {
            let mut v = vec![];
            a.await;
            for _ in 0..5 {
                let j = AJ::get_job::<Alpha>("a").await;
                let s = starts('A', "a");
                let e = LOG.with(|l| l.borrow().iter().any(|e| matches!(&e.ev, Ev::End { .. })));
                v.push((j.map(|j| View::of(&j.context, j.data.0)), s, e));
                actix_rt::task::yield_now().await;
            }
            v
        }
    });
    w.advance(102 * MS);
    w.dev.set(0);
    w.advance(150 * MS);
    let Some(seen) = seen.take() else { violate("get_job never answered".into()) };
    let mut rank = 0;
    for (v, started, ended) in seen {
        let Some(v) = v else { violate("an accepted job is not found".into()) };
        let r = match v.status {
            'Q' => 0,
            'R' => 1,
            _ => 2,
        };
        ensure!(r >= rank, "the status went back to {} ", v.status);
        rank = r;
        match v.status {
            'Q' => ensure!(started == 0 || v.run_count == 0, "queued job has run_count {}", v.run_count),
            'R' => ensure!(v.run_at.is_some(), "running job without run_at"),
            'F' => ensure!(ok && ended, "status Finished, but the execution has ended: {ended}, outcome ok: {ok}"),
            'X' => ensure!(!ok && ended, "status Failed, but the execution has ended: {ended}, outcome ok: {ok}"),
            c => violate(format!("status {c}")),
        }
    }
    let v = w.get('A', "a").unwrap();
    ensure!(v.status == if ok { 'F' } else { 'X' } && v.run_count == 1, "final status {} run_count {}", v.status, v.run_count);
    done()
}

fn c05_history() {
    let mut ks = kinds("a");
    ks.push(Spec::new("a", Data::n(1)).when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None }));
    let spec = pick(&ks, "kind").clone();
    let mut s = Sim::new(Kind::Mem);
    s.cancel('A', "a"); // before the first submission: no queue
    s.submit(&spec, Via::Run);
    s.check();
    let al = [H::Adv(100), H::Adv(60), H::Cancel("a"), H::Cancel("zz"), H::Sub(0, Via::Run), H::Retry("a"), H::Rel("a", true)];
    history(&mut s, &[spec], &al, if thorough() { 5 } else { 4 });
    s.advance_ms(1200);
    s.end()
}
fn c05_redis() {
    let spec = pick(&kinds("a")[..5], "kind").clone();
    let mut s = Sim::new(Kind::Redis);
    s.submit(&spec, Via::Run);
    history(&mut s, &[spec], &[H::Adv(100), H::Cancel("a"), H::Sub(0, Via::Run)], 3);
    s.end()
}
fn c05_bulk() {
    let n = *pick(&[1usize, 2, 3, 19, 20, 21, 22, 40, 41], "jobs");
    let limit = *pick(&[1usize, 2, 20, 50], "limit");
    let delayed = choose(2, "delayed") == 1;
    let first = choose(n, "cancel");
    let second = if n <= 3 || thorough() { choose(n + 1, "cancel2") } else { n - 1 - choose(2, "cancel2") };
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        let mut sp = Spec::new(&format!("j{i}"), Data::n(i as i64));
        if delayed {
            sp = sp.when(When::In(350_000));
        }
        s.submit(&sp, Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    if choose(2, "polls first") == 1 {
        s.advance_ms(100);
    }
    for k in [first, second] {
        if k < n {
            s.cancel('A', &format!("j{k}"));
        }
    }
    s.check();
    s.drain();
    s.advance_ms(300);
    s.end()
}
fn c08_long() {
    let how = choose(3, "outcome");
    let cancel = choose(3, "cancel every");
    let mut s = Sim::new(Kind::Mem);
    let acts = match how {
        0 => vec![Act::Ok],
        1 => vec![Act::Fail],
        // every second execution is an automatic retry
        _ => (0..700).map(|i| if i % 2 == 0 { Act::Fail } else { Act::Ok }).collect(),
    };
    let mut sp = Spec::new("a", Data { n: 0, bump: 1, acts, ..Data::default() });
    if how == 2 {
        sp = sp.retry(Policy::Interval { max: None, ms: 20 });
    }
    s.submit(&sp, Via::Run);
    for i in 0..300 {
        if cancel > 0 && i % (cancel + 1) == 0 {
            s.cancel('A', "a");
        } else {
            s.advance_ms(if how == 2 { 210 } else { 105 });
        }
        s.check();
        s.retry('A', "a");
        s.check();
    }
    s.advance_ms(205);
    s.check();
    s.end()
}
fn c08_cron() {
    let every = |max, end_ms| When::Cron { expr: "* * * * * * *".into(), max, end_ms };
    let (once, ends) = (every(Some(1), None), every(None, Some(1_700)));
    let spec = pick(
        &[
            Spec::new("a", Data::n(1)).when(once.clone()),
            Spec::new("a", Data::acts(1, &GATE)).when(every(Some(2), None)),
            Spec::new("a", Data::acts(1, &[Act::Fail])).when(ends.clone()),
            Spec::new("a", Data::n(1)).when(every(Some(2), Some(2_700))),
            Spec::new("a", Data::acts(1, &[Act::Fail, Act::Ok])).when(once).retry(Policy::Interval { max: Some(1), ms: 120 }),
            Spec::new("a", Data::acts(1, &GATE)).when(ends).retry(Policy::Interval { max: Some(1), ms: 1_200 }),
        ],
        "kind",
    )
    .clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    s.check();
    let al = [H::Adv(1000), H::Adv(130), H::Retry("a"), H::Cancel("a"), H::Sub(0, Via::Run), H::Rel("a", true), H::Rel("a", false)];
    history(&mut s, &[spec], &al, if thorough() { 6 } else { 5 });
    s.end()
}
fn c11_long() {
    let how = choose(4, "how");
    let polls = *pick(&[1usize, 2, 40], "submissions per poll");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("a", Data::n(0)), Via::Run);
    for i in 1..300 {
        let sp = Spec::new("a", Data::n(i));
        match how {
            0 => s.submit(&sp, Via::Run),
            1 => s.update('A', "a", Data::n(i), None),
            2 => s.submit(&sp, Via::Enq { re_run: true, over: false }),
            _ => s.submit(&sp, Via::Enq { re_run: i % 2 == 0, over: true }),
        }
        if i as usize % polls == 0 {
            s.check();
            s.advance_ms(105);
            s.check();
        }
    }
    s.advance_ms(205);
    s.check();
    s.end()
}
fn c05_wide() {
    let n = *pick(&[100usize, 130, 260], "jobs");
    let limit = *pick(&[1usize, 20, 500], "limit");
    let k = *pick(&[0usize, 19, 20, 50, 99, n / 2, n - 21, n - 1], "cancel");
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        s.submit(&Spec::new(&format!("j{i}"), Data::n(i as i64)), Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    if choose(2, "polls first") == 1 {
        s.advance_ms(100);
    }
    s.cancel('A', &format!("j{k}"));
    s.check();
    s.advance_ms(1_500);
    s.check();
    s.end()
}
fn many_runs(check: bool) -> (Sim, Spec) {
    let k = *pick(&[0usize, 1, 2, 3, 4, 5, 8, 17, 33, 65, 129, 257], "executions");
    let how = choose(6, "how");
    let d = |acts: Vec<Act>| Data { n: 0, bump: 1, acts, ..Data::default() };
    let mut s = Sim::new(Kind::Mem);
    let every = When::Cron { expr: "* * * * * * *".into(), max: None, end_ms: None };
    let sp = match how {
        0 => Spec::new("a", d(vec![Act::Fail])).retry(Policy::Interval { max: None, ms: 150 }),
        1 => Spec::new("a", d(vec![Act::Fail])).retry(Policy::Interval { max: Some(k as i32 + 1), ms: 150 }),
        2 => Spec::new("a", d(vec![])).when(every),
        3 => Spec::new("a", d(vec![Act::Fail, Act::Ok])).when(every).retry(Policy::Interval { max: None, ms: 150 }),
        _ => Spec::new("a", d(vec![])),
    };
    s.submit(&sp, Via::Run);
    for _ in 0..3_000 {
        let j = &s.jobs[&('A', "a".to_string())];
        let (n, st) = (j.starts, j.status);
        if n >= k && st == 'Q' {
            break;
        }
        match (how, st) {
            (4, 'F' | 'X') => s.submit(&sp, Via::ReRun),
            (5, 'F' | 'X') => s.retry('A', "a"),
            _ => s.advance_ms(50),
        }
        if check {
            s.check();
        }
    }
    (s, sp)
}
fn c02_long() {
    let (mut s, _) = many_runs(true);
    s.cancel('A', "a");
    s.check();
    s.end()
}
fn c05_long() {
    let (mut s, sp) = many_runs(false);
    s.check();
    s.cancel('A', "a");
    s.check();
    s.advance_ms(2_300);
    s.check();
    match choose(3, "then") {
        0 => s.retry('A', "a"),
        1 => s.submit(&sp, Via::ReRun),
        _ => {}
    }
    s.check();
    s.advance_ms(1_300);
    s.check();
    s.cancel('A', "a");
    s.check();
    s.advance_ms(1_300);
    s.check();
    s.end()
}
fn c05_race() {
    let w = World::new(Kind::Mem);
    let act = pick(&[Act::Ok, Act::Gate], "act").clone();
    let other = choose(2, "other job") == 1;
    w.call("submit a", Job::new(Alpha(Data::acts(1, &[act.clone()]))).set_id("a".into()).run());
    if other {
        w.call("submit b", Job::new(Alpha(Data::n(2))).set_id("b".into()).run());
    }
    let cancels = 1 + choose(2, "second cancel");
    let mut slots = vec![];
    for _ in 0..cancels {
        let c = w.new_client();
        let a = at(100);
        slots.push(w.spawn(c, async move {
            a.await;
            let r = AJ::cancel_job::<Alpha>("a".into()).await;
            let v = AJ::get_job::<Alpha>("a").await.map(|j| stc(j.context.job_status));
            (r, v, starts('A', "a"))
        }));
    }
    w.dev.set(if thorough() { 4 } else { 3 });
    w.advance(102 * MS);
    w.dev.set(0);
    release("Aa", true);
    w.advance(300 * MS);
    let n = starts('A', "a");
    let v = w.get('A', "a").map(|v| v.status);
    for s in slots {
        match s.take() {
            Some((Ok(()), Some('C'), st)) => {
                ensure!(st == 0, "reported Canceled after it had started");
                ensure!(n == 0, "cancelled job was executed {n} times");
                ensure!(v == Some('C'), "cancelled job ends as {v:?}");
            }
            Some((Ok(()), Some('R' | 'F'), _)) => {
                ensure!(n == 1 && v == Some('F'), "job that was too late to cancel: {n} executions, status {v:?}");
            }
            o => violate(format!("cancel answered {o:?}")),
        }
    }
    if other {
        ensure!(starts('A', "b") == 1, "another job was affected: {} executions", starts('A', "b"));
    }
    log(Ev::Ack { what: format!("{v:?}") });
    done()
}

fn c08_history() {
    let mut ks = kinds("a");
    ks.push(Spec::new("a", Data { n: 1, bump: 10, acts: vec![Act::Fail, Act::Fail, Act::Ok], ..Data::default() }).retry(Policy::Interval { max: Some(1), ms: 60 }));
    let spec = pick(&ks, "kind").clone();
    let mut s = Sim::new(Kind::Mem);
    s.retry('A', "a");
    s.submit(&spec, Via::Run);
    let al = [H::Retry("a"), H::Adv(100), H::Adv(60), H::Retry("zz"), H::Cancel("a"), H::Rel("a", true), H::Rel("a", false)];
    history(&mut s, &[spec], &al, if thorough() { 6 } else { 5 });
    s.advance_ms(300);
    s.end()
}
fn c08_bulk() {
    let n = *pick(&[1usize, 2, 20, 21, 41], "jobs");
    let outcome = pick(&[Act::Ok, Act::Fail], "outcome").clone();
    let limit = *pick(&[1usize, 20], "limit");
    let k = *pick(&[1usize, 2, 20, 21, 41], "retry");
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i as i64, &[outcome.clone()])), Via::Run);
    }
    s.drain();
    s.configure('A', limit, 100);
    for i in 0..k.min(n) {
        s.retry('A', &format!("j{i}"));
    }
    s.check();
    s.drain();
    for i in 0..n {
        let j = &s.jobs[&('A', format!("j{i}"))];
        ensure!(j.starts == 1 + (i < k) as usize, "job j{i}: {} executions", j.starts);
    }
    s.end()
}
fn c08_race() {
    let w = World::new(Kind::Mem);
    let outcome = choose(3, "outcome");
    let data = Data::acts(1, &[if outcome == 1 { Act::Fail } else { Act::Ok }]);
    let mut j = Job::new(Alpha(data)).set_id("a".into());
    if outcome == 2 {
        j = j.delay(chrono::Duration::milliseconds(50));
    }
    w.call("submit a", j.run());
    if outcome == 2 {
        w.call("cancel", AJ::cancel_job::<Alpha>("a".into()));
    }
    w.advance(150 * MS);
    let before = starts('A', "a");
    let mut slots = vec![];
    for _ in 0..2 {
        let c = w.new_client();
        let a = at(51);
        slots.push(w.spawn(c, async move {
            a.await;
            AJ::retry_job::<Alpha>("a").await
        }));
    }
    w.dev.set(if thorough() { 4 } else { 3 });
    w.advance(55 * MS);
    w.dev.set(0);
    w.advance(300 * MS);
    let mut yes = 0;
    for s in slots {
        match s.take() {
            Some(Ok(b)) => yes += b as usize,
            o => violate(format!("retry answered {o:?}")),
        }
    }
    let runs = starts('A', "a") - before;
    ensure!(yes >= 1, "no retry of a done job was accepted");
    ensure!(runs == yes, "{yes} retries accepted, {runs} further executions");
    let v = w.get('A', "a").unwrap();
    ensure!(matches!(v.status, 'F' | 'X'), "after retry: status {}", v.status);
    done()
}

/// Brings job "a" into one of the statuses.
fn prepare(s: &mut Sim, which: usize) -> &'static str {
    let gate = Data::acts(1, &GATE);
    match which {
        0 => return "none",
        1 => s.submit(&Spec::new("a", gate), Via::Run),
        2 => s.submit(&Spec::new("a", gate).when(When::In(350_000)), Via::Run),
        3 => {
            s.submit(&Spec::new("a", gate), Via::Run);
            s.advance_ms(105);
        }
        4 => {
            s.submit(&Spec::new("a", Data { n: 1, bump: 7, ..Data::default() }), Via::Run);
            s.advance_ms(105);
        }
        5 => {
            s.submit(&Spec::new("a", Data::acts(1, &[Act::Fail])), Via::Run);
            s.advance_ms(105);
        }
        6 => {
            s.submit(&Spec::new("a", gate).when(When::In(350_000)), Via::Run);
            s.cancel('A', "a");
        }
        _ => {
            s.submit(&Spec::new("a", Data::acts(1, &[Act::Fail])).retry(Policy::Interval { max: Some(1), ms: 300 }), Via::Run);
            s.advance_ms(105);
        }
    }
    s.check();
    ["", "queued", "delayed", "running", "finished", "failed", "cancelled", "retrying"][which]
}

fn resub_specs() -> Vec<Spec> {
    vec![
        Spec::new("a", Data::n(50)),
        Spec::new("a", Data::acts(51, &GATE)),
        Spec::new("a", Data::n(52)).when(When::In(160_000)),
        Spec::new("a", Data::acts(53, &[Act::Fail])).retry(Policy::Interval { max: Some(1), ms: 90 }),
    ]
}

fn resub_ops() -> Vec<H> {
    let mut v = vec![];
    for k in 0..3 {
        for (r, o) in [(false, false), (false, true), (true, false), (true, true)] {
            v.push(H::Sub(k, Via::Enq { re_run: r, over: o }));
        }
    }
    v.push(H::Sub(0, Via::Run));
    v.push(H::Sub(0, Via::Add));
    v.push(H::Sub(0, Via::JustRun));
    v.push(H::Sub(0, Via::Skip));
    v.push(H::Sub(0, Via::ReRun));
    v.push(H::Sub(3, Via::Run));
    v.push(H::Upd("a"));
    v.push(H::UpdCtx("a"));
    v.push(H::UpdOwn("a"));
    v.push(H::UpdOther("a"));
    v
}

fn c11_matrix() {
    let mut s = Sim::new(Kind::Mem);
    let st = choose(8, "existing");
    prepare(&mut s, st);
    let specs = resub_specs();
    history(&mut s, &specs, &resub_ops(), 1);
    let al = [H::Adv(100), H::Cancel("a"), H::Retry("a"), H::Rel("a", true), H::Sub(0, Via::Enq { re_run: true, over: true }), H::Sub(0, Via::Enq { re_run: false, over: true }), H::Upd("a")];
    // note: `history` drains at the end; here we look at the state right after the resubmission as well
    history(&mut s, &specs, &al, 2);
    s.advance_ms(400);
    s.end()
}

fn c11_history() {
    let mut s = Sim::new(Kind::Mem);
    let st = *pick(&[0usize, 1, 2, 3, 4, 6], "existing");
    prepare(&mut s, st);
    let specs = resub_specs();
    let al = [
        H::Adv(105),
        H::Sub(0, Via::Enq { re_run: true, over: true }),
        H::Sub(1, Via::Enq { re_run: true, over: false }),
        H::Sub(2, Via::Enq { re_run: false, over: true }),
        H::Sub(0, Via::Enq { re_run: false, over: false }),
        H::Upd("a"),
        H::UpdOwn("a"),
        H::UpdOther("a"),
        H::Rel("a", true),
    ];
    history(&mut s, &specs, &al, if thorough() { 5 } else { 4 });
    s.advance_ms(400);
    s.end()
}

/// A cron job waits, runs or is done after some of its slots; its new context counts from the start.
fn c11_cron() {
    let every = |max, end_ms| When::Cron { expr: "* * * * * * *".into(), max, end_ms };
    let first = pick(&[every(Some(3), None), every(None, None), every(Some(4), Some(3_600))], "existing").clone();
    let data = |n| Data { n, bump: 10, acts: vec![Act::Ok], ..Data::default() };
    let specs = vec![
        Spec::new("a", data(1)).when(first),
        Spec::new("a", data(2)).when(every(Some(2), None)),
        Spec::new("a", data(3)).when(When::Now),
        Spec::new("a", data(4)).when(every(None, Some(1_500))),
        Spec::new("a", data(5)).when(When::In(1_300_000)),
    ];
    let mut s = Sim::new(Kind::Mem);
    s.submit(&specs[0], Via::Run);
    let via = pick(&[Via::Run, Via::Enq { re_run: true, over: false }, Via::Enq { re_run: false, over: true }, Via::Enq { re_run: false, over: false }], "config").clone();
    let sub = |i| H::Sub(i, via.clone());
    let al = [H::Adv(1_000), sub(1), sub(2), sub(3), sub(4), H::Upd("a"), H::UpdCtx("a"), H::UpdOwn("a"), H::Cancel("a")];
    steps(&mut s, &specs, &al, if thorough() { 5 } else { 4 });
    for _ in 0..7 {
        s.advance_ms(900);
        s.check();
    }
    s.end()
}

fn c11_race() {
    let w = World::new(Kind::Mem);
    let act = pick(&[Act::Ok, Act::Gate], "act").clone();
    w.call("submit a", Job::new(Alpha(Data::acts(1, &[act.clone()]))).set_id("a".into()).run());
    let how = choose(3, "how");
    let c = w.new_client();
    let a = at(100);
    let act2 = act.clone();
    let r = w.spawn(c, async move {
        a.await;
        let d = Data::acts(2, &[act2]);
        match how {
            0 => AJ::enqueue_job(Job::new(Alpha(d)).set_id("a".into()), EnqueueConfig::new_skip_if_finished(), Alpha::queue_name()).await,
            1 => AJ::enqueue_job(Job::new(Alpha(d)).set_id("a".into()), EnqueueConfig::new(false, false), Alpha::queue_name()).await,
            _ => AJ::enqueue_job(Job::new(Alpha(d)).set_id("a".into()), EnqueueConfig::new_re_run(), Alpha::queue_name()).await,
        }
    });
    w.dev.set(if thorough() { 4 } else { 3 });
    w.advance(102 * MS);
    w.dev.set(0);
    release("Aa", true);
    w.advance(150 * MS);
    release("Aa", true);
    w.advance(300 * MS);
    ensure!(matches!(r.take(), Some(Ok(()))), "resubmission did not succeed");
    let runs: Vec<i64> = LOG.with(|l| {
        l.borrow().iter().filter_map(|e| if let Ev::Start { data, .. } = &e.ev { Some(data.n) } else { None }).collect()
    });
    let v = w.get('A', "a").unwrap();
    ensure!(v.status == 'F', "ends as {}", v.status);
    let allowed: &[&[i64]] = match how {
        0 => &[&[1], &[2]],
        1 => &[&[1]],
        _ => &[&[1], &[2], &[1, 2]],
    };
    ensure!(allowed.contains(&runs.as_slice()), "executions with data {runs:?}, allowed {allowed:?}");
    log(Ev::Ack { what: format!("{runs:?} {}", v.data.n) });
    done()
}
