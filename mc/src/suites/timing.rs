//! Time: schedules (C03), slots (C04), cron (C09, C10), order (C22).
use super::life::{history, GATE, H};
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;

pub fn suites() -> Vec<Suite> {
    vec![
        q("C03", "c03-offsets", "one delayed job: 16 offsets from -1 day to +3 days (down to 1 us) x schedule_at / delay x phase of submission within the polling interval x polling interval, InMemory", c03_offsets),
        q("C03", "c03-far", "one job 24 days .. 219 years ahead, by schedule_at or delay, both backends: it waits; around the ranges of 32-bit milliseconds", c03_far),
        q("C03", "c03-built", "a job built in stages (created, later given its instant by delay / schedule_at / a context, later submitted by run, just_run, add_job or a resubmission): due exactly when the builder said, never earlier, executed once", c03_built),
        q("C03", "c03-combos", "3 jobs (4) with every combination of 6 delays x slot limit x gap between submissions", c03_combos),
        q("C03", "c03-many", "0..61 far-future jobs around 1..3 due ones, at any of 4 positions, limits 1..20: the due ones start within one interval", c03_many),
        q("C03", "c03-wide", "2 due jobs before, among and behind 130, 260 and 600 waiting ones x limit", c03_wide),
        q("C03", "c03-drift", "the clock moves by 1 us..1 ms at every reading: a job still never starts before its due time", c03_drift),
        q("C03", "c03-history", "histories of 4 (5) steps over submit delayed / move the due time by resubmission or update_job / cancel / advance", c03_history),
        q("C03", "c03-redis", "delays on the real Redis backend", c03_redis),
        q("C04", "c04-default", "n gated jobs under the default configuration: exactly 20 at a time", c04_default),
        q("C04", "c04-limits", "limit 0..41 x number of jobs around multiples of it x number released between polls", c04_limits),
        q("C04", "c04-wide", "limits 64 .. 70000, 2^31, 2^32 and usize::MAX with up to 300 jobs", c04_wide),
        q("C04", "c04-history", "every history of 5 (6) steps over submit/release/configure/cancel/poll with 3 jobs", c04_history),
        q("C04", "c04-release", "3 jobs of 9 kinds (ok, fail, retry, cron, panic, post-failure ...) one after another, then a probe that every slot is available again", c04_release),
        q("C04", "c04-tick", "polling interval 1 ms..10 s, changed while jobs wait", c04_tick),
        q("C04", "c04-types", "two job types have separate limits", c04_types),
        q("C04", "c04-redis", "limits on the real Redis backend", c04_redis),
        q("C09", "c09-cadence", "13 cron expressions x 8 start dates (month end, leap day, year end, exactly on a slot, half a millisecond after one) x run length (shorter and longer than the period) x outcome", c09_cadence),
        q("C09", "c09-retry", "cron x retry policy x every outcome sequence of length 4", c09_retry),
        q("C09", "c09-history", "histories of 4 (5) steps over cancel/retry/resubmit/advance on a cron job", c09_history),
        q("C09", "c09-many", "several cron jobs share slots with each other and with one-shot jobs", c09_many),
        q("C09", "c09-long", "one cron job over 300 slots, both backends, run lengths and outcomes", c09_long),
        q("C09", "c09-redis", "cron on the real Redis backend", c09_redis),
        q("C10", "c10-limits", "max_repeat {none,1,2,3,5,0,negative,i32::MAX} x end_at {none, past, now, between slots, on a slot, far} x run length x outcome", c10_limits),
        q("C10", "c10-retry", "limited cron x retry x every outcome sequence of length 4", c10_retry),
        q("C10", "c10-history", "histories of 4 (5) steps over cancel/retry/resubmit/advance on a limited cron job", c10_history),
        q("C10", "c10-calendar", "expressions with an explicit last occurrence (year field) and blocked slots", c10_calendar),
        q("C10", "c10-none", "an expression without any slot left: no execution and done at the next poll, then 3 (4) further steps", c10_none),
        q("C09", "c09-none", "an expression without any slot left is never executed, 3 (4) further steps", c10_none),
        q("C02", "c02-count", "jobs that have been executed, repeated or retried up to 2^31 times before (contexts with counts of their own) x limits: the counts go on from there", far_counts),
        q("C06", "c06-count", "jobs that have been executed, repeated or retried up to 2^31 times before (contexts with counts of their own) x limits: the counts go on from there", far_counts),
        q("C09", "c09-count", "jobs that have been executed, repeated or retried up to 2^31 times before (contexts with counts of their own) x limits: the counts go on from there", far_counts),
        q("C10", "c10-count", "jobs that have been executed, repeated or retried up to 2^31 times before (contexts with counts of their own) x limits: the counts go on from there", far_counts),
        q("C09", "c09-near", "executions that end 60 ms .. 1 us before, on, and up to 50 ms after one of the next slots x outcome x retry", c09_near),
        q("C10", "c10-long", "max_repeat 10 .. 300, both backends, outcomes", c10_long),
        q("C10", "c10-redis", "limited cron on the real Redis backend", c10_redis),
        q("C22", "c22-order", "n jobs (1..61) x limit x run length x delayed jobs between x cancelled jobs between: starts in acceptance order", c22_order),
        q("C22", "c22-wide", "the same with 100 to 260 (520) jobs", c22_wide),
        q("C22", "c22-waves", "3 submission waves at different phases of the polling interval x limit x run length", c22_waves),
        q("C22", "c22-again", "waiting jobs submitted again keep their place; done jobs that are retried, submitted again or updated take a place behind all that wait: n jobs x limit x which x when x how", c22_again),
        q("C22", "c22-redis", "order on the real Redis backend", c22_redis),
    ]
}

/// 2025-03-14T09:26:53.250333217Z is the default start.
fn start_at(s: &str) {
    let t = chrono::DateTime::parse_from_rfc3339(s).unwrap().timestamp_nanos_opt().unwrap();
    crate::clock::BASE.store(t, std::sync::atomic::Ordering::SeqCst);
}

fn c03_offsets() {
    let off = *pick(
        &[-86_400_000_000i64, -1_000_000, -1, 0, 1, 999, 1_000, 49_999, 99_999, 100_000, 100_001, 150_000, 250_000, 999_999, 61_000_000, 3 * 86_400_000_000],
        "offset us",
    );
    let far = off > 10_000_000;
    let by_delay = choose(2, "delay") == 1;
    let tick = if far { *pick(&[7_000i64, 3_600_000], "tick") } else { *pick(&[100i64, 10, 330], "tick") };
    let phase = *pick(&[0i64, 1, 30_000, 99_999], "phase us");
    let act = pick(&[Act::Ok, Act::Fail], "act").clone();
    let ty = *pick(&['A', 'G'], "type");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)).ty(ty), Via::Run);
    s.configure(ty, 20, tick);
    s.advance_ms(if far { 100 } else { 400 });
    s.advance(phase * 1000);
    let when = if by_delay { When::Delay(off) } else { When::In(off) };
    s.submit(&Spec::new("a", Data::acts(1, &[act])).ty(ty).when(when), Via::Run);
    s.check();
    if off > 0 {
        s.advance(off * 1000 - 1000);
        s.check();
        s.advance(2000);
        s.check();
    }
    s.advance_ms(tick + 10);
    s.check();
    let j = &s.jobs[&(ty, "a".to_string())];
    ensure!(j.starts == 1, "the job was executed {} times", j.starts);
    s.end()
}

/// The instant of a delay is fixed when delay is called, not before and not after.
fn c03_built() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let g1 = *pick(&[0i64, 1, 30_000, 199_999, 3_000_000], "created before us");
    let how = choose(4, "by");
    let g2 = *pick(&[0i64, 1, 150_000, 199_999, 200_000, 500_000], "submitted after us");
    let via = choose(4, "via");
    let w = World::new(kind);
    w.call("other", aj_core::Job::new(Alpha(Data::n(0))).run());
    w.advance(130 * MS);
    let created = now();
    let ctx = aj_core::JobContext::new("a".into());
    let mut j = aj_core::Job::new(Alpha(Data::n(1))).set_id("a".into());
    if how == 3 {
        // replaced below
        j = j.delay(chrono::Duration::milliseconds(10));
    }
    w.advance(g1 * 1000);
    let due = now() + 200 * MS;
    j = match how {
        0 => j.delay(chrono::Duration::milliseconds(200)),
        1 => j.schedule_at(dt(due)),
        2 => {
            let mut ctx = ctx;
            ctx.job_type = aj_core::JobType::new_schedule(dt(due));
            j.set_context(ctx)
        }
        _ => j.delay(chrono::Duration::milliseconds(200)),
    };
    w.advance(g2 * 1000);
    let submitted = now();
    match via {
        0 => {
            w.call("run", j.run());
        }
        1 => {
            w.call("just_run", async move { j.just_run() });
        }
        2 => {
            w.call("add_job", aj_core::AJ::add_job(j, "Alpha"));
        }
        _ => {
            // first something else under this id
            w.call("run", aj_core::Job::new(Alpha(Data::n(9))).set_id("a".into()).delay(chrono::Duration::hours(1)).run());
            w.call("run", j.run());
        }
    }
    w.advance(800 * MS);
    let runs: Vec<(i64, i64)> = LOG.with(|l| {
        l.borrow().iter().filter_map(|e| if let Ev::Start { id, data, .. } = &e.ev { (id == "a").then_some((e.t, data.n)) } else { None }).collect()
    });
    ensure!(runs.len() == 1 && runs[0].1 == 1, "executed {runs:?}, expected one execution with the payload 1");
    let latest = due.max(submitted) + 101 * MS;
    ensure!(
        runs[0].0 >= due && runs[0].0 <= latest,
        "due at {:.3} ms, submitted at {:.3} ms, executed at {:.3} ms",
        rel(due),
        rel(submitted),
        rel(runs[0].0)
    );
    let c = w.call("get_job", aj_core::AJ::get_job::<Alpha>("a")).flatten().map(|j| (j.context.created_at, j.context.job_type));
    ensure!(
        c == Some((created / MS, aj_core::JobType::ScheduledAt(dt(due / 1000 * 1000)))),
        "created {} for {:?}, reported is {c:?}",
        created / MS,
        dt(due)
    );
    crate::explore::leaf(&format!("{g1} {how} {g2} {via}"), "executed when due");
    crate::explore::finish()
}

/// Instants so far away that no wait reaches them: they must not wrap around.
fn c03_far() {
    const DAY: i64 = 86_400_000_000;
    let off = *pick(&[24 * DAY, 25 * DAY, 36 * DAY, 49 * DAY, 50 * DAY, 60 * DAY, 366 * DAY, 36_525 * DAY, 80_000 * DAY, -40 * DAY, -25_000 * DAY, -60_000 * DAY], "offset us");
    let by_delay = choose(2, "delay") == 1;
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let mut s = Sim::new(kind);
    let when = if by_delay { When::Delay(off) } else { When::In(off) };
    s.submit(&Spec::new("a", Data::n(1)).when(when), Via::Run);
    s.submit(&Spec::new("b", Data::n(2)), Via::Run);
    s.advance_ms(110);
    s.check();
    s.configure('A', 20, 3_600_000);
    s.advance_ms(86_400_000 * 5);
    s.check();
    if off < 0 {
        ensure!(s.jobs[&('A', "a".to_string())].starts == 1, "the job of the far past was not executed once");
        s.end()
    }
    ensure!(s.jobs[&('A', "a".to_string())].starts == 0, "the far job was executed");
    if off <= 25 * DAY && kind == Kind::Mem {
        s.advance(off * 1000);
        s.check();
        ensure!(s.jobs[&('A', "a".to_string())].starts == 1, "the far job was not executed once");
    }
    s.end()
}

fn c03_wide() {
    let far = *pick(&[130i64, 260, 600], "waiting");
    let at = *pick(&[0, far / 2, far], "position");
    let limit = *pick(&[2usize, 20, 1000], "limit");
    let delay = *pick(&[None, Some(60_000i64), Some(130_000)], "delay");
    let mut s = Sim::new(Kind::Mem);
    for i in 0..=far {
        if i == at {
            for d in 0..2 {
                let mut sp = Spec::new(&format!("d{d}"), Data::n(d));
                if let Some(x) = delay {
                    sp = sp.when(When::In(x));
                }
                s.submit(&sp, Via::Run);
            }
        }
        if i < far {
            s.submit(&Spec::new(&format!("f{i}"), Data::n(i)).when(When::In(3_600_000_000)), Via::Run);
        }
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    s.advance_ms(260);
    for d in 0..2 {
        ensure!(s.jobs[&('A', format!("d{d}"))].starts == 1, "due job d{d} did not run exactly once");
    }
    s.check();
    s.end()
}
fn c03_combos() {
    let n = if thorough() { 4 } else { 3 };
    let limit = *pick(&[1usize, 2, 20], "limit");
    let gap = *pick(&[0i64, 37, 100], "gap");
    let act = pick(&[Act::Ok, Act::Sleep { us: 120_000, ok: true }], "act").clone();
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        let d = *pick(&[None, Some(-5_000i64), Some(1), Some(100_000), Some(150_000), Some(420_000)], "delay");
        let mut sp = Spec::new(&format!("j{i}"), Data::acts(i, &[act.clone()]));
        if let Some(d) = d {
            sp = sp.when(When::In(d));
        }
        s.submit(&sp, Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
        s.advance_ms(gap);
        s.check();
    }
    s.drain();
    s.end()
}

fn c03_many() {
    let far = *pick(&[0i64, 1, 18, 19, 20, 21, 38, 39, 40, 41, 61], "waiting");
    let due = 1 + choose(3, "due") as i64;
    let pos = choose(4, "position");
    let limit = *pick(&[1usize, 3, 20], "limit");
    let delay = *pick(&[None, Some(60_000i64), Some(130_000)], "delay");
    let mut s = Sim::new(Kind::Mem);
    let at = match pos {
        0 => 0,
        1 => far / 2,
        2 => (far - 1).max(0),
        _ => far,
    };
    let mut k = 0;
    for i in 0..=far {
        if i == at {
            for d in 0..due {
                let mut sp = Spec::new(&format!("d{d}"), Data::n(d));
                if let Some(x) = delay {
                    sp = sp.when(When::In(x));
                }
                s.submit(&sp, Via::Run);
            }
        }
        if i < far {
            s.submit(&Spec::new(&format!("f{k}"), Data::n(k)).when(When::In(3_600_000_000)), Via::Run);
            k += 1;
        }
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    s.check();
    s.advance_ms(110);
    s.check();
    s.advance_ms(150);
    s.advance_ms(400);
    s.check();
    for d in 0..due {
        ensure!(s.jobs[&('A', format!("d{d}"))].starts == 1, "due job d{d} did not run exactly once");
    }
    // the waiting ones are all still there and run when their time comes
    s.configure('A', 100, 3_600_000);
    s.advance_ms(110);
    s.advance_ms(2 * 3_600_000 + 10_000);
    s.check();
    for i in 0..k {
        ensure!(s.jobs[&('A', format!("f{i}"))].starts == 1, "far job f{i} did not run exactly once");
    }
    s.end()
}

/// No timing model here: only "never early, exactly once".
fn c03_drift() {
    let drift = *pick(&[1_000u64, 50_000, 1_000_000], "drift");
    let off = *pick(&[0i64, 1, 500, 1000, 99_000, 100_000, 101_000, 230_000], "offset us");
    let others = *pick(&[0i64, 3, 25], "others");
    let w = World::new(Kind::Mem);
    crate::clock::DRIFT_PER_READ.store(drift, std::sync::atomic::Ordering::SeqCst);
    let due = now() + off * 1000;
    for i in 0..others {
        let j = aj_core::Job::new(Alpha(Data::n(i))).set_id(format!("o{i}")).schedule_at(dt(due + 77_000));
        ensure!(matches!(w.call("submit", j.run()), Some(Ok(_))), "submission failed");
    }
    let j = aj_core::Job::new(Alpha(Data::n(1))).set_id("a".into()).schedule_at(dt(due));
    ensure!(matches!(w.call("submit", j.run()), Some(Ok(_))), "submission failed");
    w.advance(1200 * MS);
    let log = LOG.with(|l| l.borrow().clone());
    for e in &log {
        if let Ev::Start { id, .. } = &e.ev {
            let d = if id == "a" { due } else { due + 77_000 };
            ensure!(e.t >= d, "job {id} started {} ns before its due time", d - e.t);
        }
    }
    for id in (0..others).map(|i| format!("o{i}")).chain(["a".to_string()]) {
        ensure!(starts('A', &id) == 1, "job {id} ran {} times", starts('A', &id));
    }
    done()
}

fn c03_history() {
    let mut s = Sim::new(Kind::Mem);
    let specs = [
        Spec::new("a", Data::n(1)).when(When::In(150_000)),
        Spec::new("a", Data::n(1)).when(When::In(310_000)),
        Spec::new("a", Data::n(1)),
        Spec::new("b", Data::n(1)).when(When::In(90_000)),
    ];
    s.submit(&specs[0], Via::Run);
    let al = [
        H::Adv(100),
        H::Adv(35),
        H::Sub(0, Via::Run),
        H::Sub(1, Via::Run),
        H::Sub(2, Via::Run),
        H::Sub(3, Via::Run),
        H::UpdCtx("a"),
        H::Upd("a"),
        H::Cancel("a"),
        H::Retry("a"),
    ];
    history(&mut s, &specs, &al, if thorough() { 5 } else { 4 });
    s.advance_ms(400);
    s.end()
}

fn c03_redis() {
    let n = 3;
    let mut s = Sim::new(Kind::Redis);
    for i in 0..n {
        let d = *pick(&[None, Some(1i64), Some(150_001), Some(420_000)], "delay");
        let mut sp = Spec::new(&format!("j{i}"), Data::n(i));
        if let Some(d) = d {
            sp = sp.when(When::In(d));
        }
        s.submit(&sp, Via::Run);
    }
    s.drain();
    s.end()
}

// ---- C04 ----

fn running(s: &Sim, ty: char) -> usize {
    s.queues[&ty].running.len()
}

fn c04_default() {
    let n = *pick(&[1usize, 19, 20, 21, 39, 40, 41, 45, 60, 61], "jobs");
    let rel = *pick(&[0usize, 1, 2, 10, 20], "released per poll");
    let delayed = choose(2, "delayed") == 1;
    let mut s = Sim::new(*pick(&[Kind::Mem], "backend"));
    for i in 0..n {
        let mut sp = Spec::new(&format!("j{i}"), Data::acts(i as i64, &GATE));
        if delayed {
            sp = sp.when(When::In(50_000));
        }
        s.submit(&sp, Via::Run);
    }
    s.advance_ms(110);
    ensure!(running(&s, 'A') == n.min(20), "{} of {n} jobs run under the default configuration, expected {}", running(&s, 'A'), n.min(20));
    s.check();
    let mut left = n;
    for _ in 0..8 {
        let ids: Vec<String> = s.queues[&'A'].running.iter().take(rel).cloned().collect();
        for id in ids {
            s.release('A', &id, true);
            left -= 1;
        }
        s.advance_ms(105);
        ensure!(running(&s, 'A') == left.min(20), "{} jobs run, expected {}", running(&s, 'A'), left.min(20));
    }
    s.check();
    s.drain();
    s.end()
}

fn limits(kind: Kind, ls: &[usize], extra: &[usize]) -> ! {
    let limit = *pick(ls, "limit");
    let n = limit + *pick(extra, "beyond");
    let rel = *pick(&[1usize, 2, 100], "released per poll");
    let late = choose(2, "configured late") == 1;
    let mut s = Sim::new(kind);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    if !late {
        s.configure('A', limit, 100);
    }
    for i in 0..n {
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i as i64, &GATE)), Via::Run);
    }
    if late {
        s.configure('A', limit, 100);
    }
    s.advance_ms(210);
    s.check();
    let mut left = n;
    for _ in 0..4 {
        let want = left.min(limit);
        ensure!(running(&s, 'A') == want, "limit {limit}: {} jobs run, expected {want}", running(&s, 'A'));
        let ids: Vec<String> = s.queues[&'A'].running.iter().take(rel).cloned().collect();
        for id in ids {
            s.release('A', &id, rel != 2);
            left -= 1;
        }
        s.advance_ms(105);
    }
    s.check();
    if limit == 0 {
        // nothing runs until slots are granted
        s.configure('A', 2, 100);
        s.advance_ms(105);
    }
    s.drain();
    s.end()
}
fn c04_limits() {
    limits(Kind::Mem, &[0, 1, 2, 3, 5, 19, 20, 21, 25, 40, 41], &[0, 1, 2, 3, 19, 20, 21, 41])
}
fn c04_wide() {
    let limit = *pick(&[64usize, 127, 128, 129, 255, 256, 257, 1_000, 40_000, 70_000, 1 << 31, 1 << 32, usize::MAX], "limit");
    let n = limit.saturating_add(5).min(300);
    let late = choose(2, "configured late") == 1;
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    if !late {
        s.configure('A', limit, 100);
    }
    for i in 0..n {
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i as i64, &GATE)), Via::Run);
    }
    if late {
        s.configure('A', limit, 100);
    }
    s.advance_ms(210);
    let want = n.min(limit);
    ensure!(running(&s, 'A') == want, "limit {limit}: {} jobs run, expected {want}", running(&s, 'A'));
    s.check();
    s.drain();
    s.end()
}
fn c04_redis() {
    limits(Kind::Redis, &[1, 2, 21], &[0, 1, 2])
}

fn c04_history() {
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("a", Data::acts(1, &GATE)), Via::Run);
    s.configure('A', *pick(&[1usize, 2], "limit"), 100);
    let mut next = 0;
    for _ in 0..if thorough() { 6 } else { 5 } {
        match choose(8, "step") {
            0 => s.advance_ms(100),
            1 => {
                s.submit(&Spec::new(["b", "c", "d"][next % 3], Data::acts(2, &GATE)), Via::Run);
                next += 1;
            }
            2 => {
                if let Some(id) = s.queues[&'A'].running.iter().next().cloned() {
                    s.release('A', &id, true);
                }
            }
            3 => s.configure('A', 1, 100),
            4 => s.configure('A', 2, 100),
            5 => s.configure('A', 3, 50),
            6 => s.cancel('A', "b"),
            _ => {
                s.submit(&Spec::new("e", Data::acts(3, &[Act::Fail])).retry(Policy::Interval { max: Some(1), ms: 10 }), Via::Run);
            }
        }
        s.check();
    }
    s.drain();
    s.end()
}

fn c04_release() {
    let limit = *pick(&[1usize, 2, 3], "limit");
    let kinds: Vec<(&str, Spec)> = vec![
        ("ok", Spec::new("k", Data::n(1))),
        ("fail", Spec::new("k", Data::acts(1, &[Act::Fail]))),
        ("sleep", Spec::new("k", Data::acts(1, &[Act::Sleep { us: 250_000, ok: true }]))),
        ("postfail", Spec::new("k", Data::acts(1, &[Act::PostFail]))),
        ("retry", Spec::new("k", Data::acts(1, &[Act::Fail, Act::Ok])).retry(Policy::Interval { max: Some(2), ms: 50 })),
        ("retry all", Spec::new("k", Data::acts(1, &[Act::Fail])).retry(Policy::Expo { max: Some(2), ms: 20 })),
        ("cron", Spec::new("k", Data::n(1)).when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None })),
        ("cron fail", Spec::new("k", Data::acts(1, &[Act::Fail])).when(When::Cron { expr: "* * * * * * *".into(), max: Some(1), end_ms: None })),
        ("panic", Spec::new("k", Data::acts(1, &[Act::Panic]))),
        ("own retry", Spec::new("k", Data { n: 1, bump: 1, own_retry: Some((30, 3)), ..Data::default() }).retry(Policy::Default)),
    ];
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, 100);
    for i in 0..3 {
        let (_, k) = pick(&kinds, "kind").clone();
        let mut sp = k;
        sp.id = format!("k{i}");
        s.submit(&sp, Via::Run);
        if choose(2, "wait") == 1 {
            s.advance_ms(100);
        }
    }
    if choose(2, "cancel") == 1 {
        s.cancel('A', "k2");
    }
    s.drain();
    for i in 0..limit + 2 {
        s.submit(&Spec::new(&format!("p{i}"), Data::acts(9, &GATE)), Via::Run);
    }
    s.advance_ms(110);
    ensure!(running(&s, 'A') == limit, "after all jobs were done, {} of {limit} slots are usable", running(&s, 'A'));
    s.drain();
    s.end()
}

fn c04_tick() {
    let t1 = *pick(&[1i64, 10, 99, 100, 101, 1000, 10_000], "tick");
    let t2 = *pick(&[1i64, 100, 700], "second tick");
    let limit = *pick(&[1usize, 20], "limit");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, t1);
    s.advance_ms(150);
    for i in 0..3 {
        s.submit(&Spec::new(&format!("a{i}"), Data::acts(i, &[Act::Sleep { us: 20_000, ok: true }])), Via::Run);
    }
    s.advance_ms(t1 * 2 + 10);
    s.check();
    s.configure('A', limit, t2);
    for i in 0..3 {
        s.submit(&Spec::new(&format!("b{i}"), Data::acts(i, &[Act::Sleep { us: 20_000, ok: true }])), Via::Run);
    }
    for _ in 0..6 {
        s.advance_ms(t1.max(t2) + 30);
        s.check();
    }
    for i in 0..3 {
        ensure!(s.jobs[&('A', format!("b{i}"))].starts == 1, "job b{i} did not run");
    }
    s.end()
}

fn c04_types() {
    let la = *pick(&[1usize, 2, 20], "limit A");
    let lb = *pick(&[1usize, 3, 20], "limit B");
    let na = *pick(&[1usize, 3, 22], "jobs A");
    let nb = *pick(&[1usize, 3, 22], "jobs B");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("wa", Data::n(0)), Via::Run);
    s.submit(&Spec::new("wb", Data::n(0)).ty('B'), Via::Run);
    s.configure('A', la, 100);
    s.configure('B', lb, 100);
    for i in 0..na.max(nb) {
        if i < na {
            s.submit(&Spec::new(&format!("a{i}"), Data::acts(1, &GATE)), Via::Run);
        }
        if i < nb {
            s.submit(&Spec::new(&format!("b{i}"), Data::acts(1, &GATE)).ty('B'), Via::Run);
        }
    }
    s.advance_ms(210);
    ensure!(running(&s, 'A') == na.min(la), "type A: {} run, expected {}", running(&s, 'A'), na.min(la));
    ensure!(running(&s, 'B') == nb.min(lb), "type B: {} run, expected {}", running(&s, 'B'), nb.min(lb));
    s.check();
    s.drain();
    s.end()
}

// ---- cron ----

fn cron(id: &str, expr: &str, data: Data) -> Spec {
    Spec::new(id, data).when(When::Cron { expr: expr.into(), max: None, end_ms: None })
}

fn c09_cadence() {
    let dates = [
        "2025-03-14T09:26:53.250Z",
        "2024-02-29T23:59:58.900Z",
        "2025-12-31T23:59:57.000Z",
        "2025-04-30T23:58:59.999Z",
        "2026-01-01T00:00:00Z",
        "2025-03-30T00:59:30.5Z",
        // submitted (105 ms later) exactly on a slot, and less than a millisecond after one
        "2025-12-31T23:59:59.895Z",
        "2025-03-14T09:26:53.895400001Z",
    ];
    let d = *pick(&dates, "date");
    // expression, rough period in ms
    let exprs: [(&str, i64); 13] = [
        ("* * * * * * *", 1_000),
        ("*/2 * * * * * *", 2_000),
        ("0/5 * * * * *", 5_000),
        ("10,20,59 * * * * * *", 20_000),
        ("0-3 * * * * *", 1_000),
        ("0 * * * * * *", 60_000),
        ("30 */7 * * * * *", 420_000),
        ("0 0 * * * * *", 3_600_000),
        ("0 0 0 * * * *", 86_400_000),
        ("0 0 0 1 * * *", 31 * 86_400_000),
        ("0 30 1 * * Mon-Fri *", 86_400_000),
        ("5 4 3 28,29 2 * *", 366 * 86_400_000),
        ("0 0 12 31 * * 2025-2040", 62 * 86_400_000),
    ];
    let (e, period) = *pick(&exprs, "expr");
    let dur = pick(
        &[Act::Ok, Act::Fail, Act::Sleep { us: 300_000, ok: true }, Act::Sleep { us: 1_700_000, ok: false }, Act::Sleep { us: 2_000_000, ok: true }],
        "run",
    )
    .clone();
    start_at(d);
    let mut s = Sim::new(Kind::Mem);
    let tick = (period / 20).clamp(50, 6 * 3_600_000);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', 20, tick);
    s.advance_ms(105);
    s.submit(&cron("c", e, Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() }), Via::Run);
    s.check();
    // (timers reach about two years)
    let rounds = if period <= 5_000 { 8 } else if period < 300 * 86_400_000 { 3 } else { 2 };
    let mut n = 0;
    while n < rounds || (n < 60 && s.jobs[&('A', "c".to_string())].starts < 2) {
        let j = &s.jobs[&('A', "c".to_string())];
        let wait = if j.status == 'Q' { (j.ready_at() - now()).max(0) } else { 0 };
        if wait > 1000 {
            s.advance(wait - 1000);
            s.check();
            s.advance(2000);
        }
        s.advance_ms(tick + 10);
        s.check();
        n += 1;
    }
    s.advance_ms(2_500);
    s.check();
    let st = s.jobs[&('A', "c".to_string())].starts;
    ensure!(st >= 2, "an endless cron job ran only {st} times");
    s.end()
}

fn seq(n: usize) -> Vec<Act> {
    (0..n).map(|_| pick(&[Act::Ok, Act::Fail], "outcome").clone()).collect()
}

fn c09_retry() {
    let p = pick(
        &[
            Policy::Interval { max: Some(1), ms: 100 },
            Policy::Interval { max: Some(2), ms: 400 },
            Policy::Interval { max: None, ms: 700 },
            Policy::Expo { max: Some(2), ms: 300 },
            Policy::Interval { max: Some(1), ms: 2_300 },
            Policy::Default,
        ],
        "policy",
    )
    .clone();
    let ty = *pick(&['A', 'G'], "type");
    let mut acts = seq(4);
    acts.push(Act::Ok);
    let mut s = Sim::new(Kind::Mem);
    s.submit(&cron("c", "*/2 * * * * * *", Data { n: 0, bump: 1, acts, ..Data::default() }).ty(ty).retry(p), Via::Run);
    for _ in 0..22 {
        s.advance_ms(500);
        s.check();
    }
    s.end()
}

fn c09_history() {
    let spec = pick(
        &[
            cron("a", "* * * * * * *", Data::n(1)),
            cron("a", "*/2 * * * * * *", Data::acts(1, &GATE)),
            cron("a", "* * * * * * *", Data::acts(1, &[Act::Fail])),
        ],
        "kind",
    )
    .clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    let al = [H::Adv(1000), H::Adv(380), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Upd("a"), H::Rel("a", true), H::Rel("a", false)];
    nodrain(&mut s, &[spec], &al, if thorough() { 5 } else { 4 });
    if s.status('A', "a") == 'R' {
        s.release('A', "a", true);
    }
    for _ in 0..3 {
        s.advance_ms(900);
        s.check();
        if s.status('A', "a") == 'R' {
            s.release('A', "a", true);
        }
    }
    s.end()
}
fn nodrain(s: &mut Sim, specs: &[Spec], al: &[H], depth: usize) {
    super::life::steps(s, specs, al, depth);
}

fn c09_many() {
    let limit = *pick(&[1usize, 2, 20], "limit");
    let n = *pick(&[2i64, 3, 21], "crons");
    let act = pick(&[Act::Ok, Act::Sleep { us: 30_000, ok: true }], "run").clone();
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        let e = ["* * * * * * *", "*/2 * * * * * *", "*/3 * * * * * *"][(i % 3) as usize];
        s.submit(&cron(&format!("c{i}"), e, Data::acts(i, &[act.clone()])), Via::Run);
        if i == 0 {
            s.configure('A', limit, 20);
        }
    }
    s.submit(&Spec::new("one", Data::n(1)), Via::Run);
    for _ in 0..8 {
        s.advance_ms(500);
        s.check();
    }
    s.end()
}

fn c09_long() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let e = *pick(&["* * * * * * *", "*/2 * * * * * *"], "expr");
    let dur = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 1_300_000, ok: true }], "run").clone();
    let mut s = Sim::new(kind);
    s.submit(&cron("c", e, Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() }), Via::Run);
    for _ in 0..if thorough() { 90 } else { 31 } {
        s.advance_ms(10_000);
        s.check();
    }
    s.end()
}
fn c09_redis() {
    let e = *pick(&["* * * * * * *", "*/2 * * * * * *", "10,55 * * * * *"], "expr");
    let dur = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 1_300_000, ok: true }], "run").clone();
    let mut sp = cron("c", e, Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() });
    if choose(2, "retry") == 1 {
        sp = sp.retry(Policy::Interval { max: Some(1), ms: 200 });
    }
    let mut s = Sim::new(Kind::Redis);
    s.submit(&sp, Via::Run);
    for _ in 0..12 {
        s.advance_ms(500);
        s.check();
    }
    s.end()
}

fn lim(id: &str, max: Option<i32>, end_ms: Option<i64>, data: Data) -> Spec {
    Spec::new(id, data).when(When::Cron { expr: "* * * * * * *".into(), max, end_ms })
}

// the default start is at .25 s: slots are at 750, 1750, 2750 ... ms after it
fn c10_limits() {
    let max = *pick(&[None, Some(1), Some(2), Some(3), Some(5), Some(0), Some(-1), Some(i32::MIN), Some(i32::MAX)], "max");
    let end = *pick(&[None, Some(-500i64), Some(-1), Some(0), Some(400), Some(749), Some(750), Some(900), Some(1_750), Some(2_300), Some(2_760), Some(60_000)], "end ms");
    let dur = pick(
        &[Act::Ok, Act::Fail, Act::Sleep { us: 300_000, ok: true }, Act::Sleep { us: 1_400_000, ok: true }, Act::Sleep { us: 2_500_000, ok: false }],
        "run",
    )
    .clone();
    let tick = *pick(&[100i64, 40, 650], "tick");
    // with the first one, end_at can be exactly on a slot
    start_at(*pick(&["2025-03-14T09:26:53.250Z", "2025-03-14T09:26:53.250333217Z"], "date"));
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', 20, tick);
    s.submit(&lim("c", max, end, Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() }), Via::Run);
    s.check();
    for _ in 0..14 {
        s.advance_ms(470);
        s.check();
    }
    if max.is_some_and(|m| m < i32::MAX) && end.is_none() {
        s.advance_ms(14_000);
        s.check();
        let j = &s.jobs[&('A', "c".to_string())];
        ensure!(j.starts == max.unwrap().max(0) as usize, "max_repeat {max:?}: {} executions", j.starts);
        ensure!(matches!(j.status, 'F' | 'X'), "max_repeat reached, but the status is {}", j.status);
    }
    s.end()
}

/// Executions that end just before, on or just after a slot.
fn c09_near() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let (expr, period) = *pick(&[("* * * * * * *", 1_000_000i64), ("*/3 * * * * * *", 3_000_000)], "expr");
    let slots = *pick(&[1i64, 2], "slots");
    let by = *pick(if kind == Kind::Redis { &[-1_000, 1] } else { &[-60_000i64, -10_000, -5_000, -4_000, -2_000, -1_000, -999, -500, -1, 0, 1, 500, 999, 1_000, 5_000, 50_000] }, "us");
    let ok = choose(2, "ok") == 1;
    let retry = choose(2, "retry") == 1;
    start_at("2025-03-14T09:26:50.250Z");
    let mut s = Sim::new(kind);
    // (polls are 50 ms after full tenths of a second)
    let act = Act::Sleep { us: (period * slots - 50_000 + by) as u64, ok };
    let mut sp = cron("c", expr, Data { n: 0, bump: 1, acts: vec![act, Act::Ok, Act::Fail], ..Data::default() });
    if retry {
        sp = sp.retry(Policy::Interval { max: Some(1), ms: 130 });
    }
    s.submit(&sp, Via::Run);
    for _ in 0..12 {
        s.advance_ms(period / 1000 / 2);
        s.check();
    }
    s.end()
}
fn c10_long() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let max = if kind == Kind::Mem { *pick(&[10, 11, 16, 32, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300], "max") } else { *pick(&[10, 130], "max") };
    let act = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 20_000, ok: true }], "run").clone();
    let mut s = Sim::new(kind);
    s.submit(&lim("c", Some(max), None, Data { n: 0, bump: 1, acts: vec![act], ..Data::default() }), Via::Run);
    for _ in 0..max / 20 + 2 {
        s.advance_ms(20_000);
        s.check();
    }
    let j = &s.jobs[&('A', "c".to_string())];
    ensure!(j.starts == max as usize, "max_repeat {max}: {} executions", j.starts);
    ensure!(matches!(j.status, 'F' | 'X'), "max_repeat reached, but the status is {}", j.status);
    s.end()
}
fn c10_retry() {
    let max = *pick(&[Some(1), Some(2), Some(3)], "max");
    let end = *pick(&[None, Some(2_000i64)], "end ms");
    let p = pick(&[Policy::Interval { max: Some(1), ms: 100 }, Policy::Interval { max: Some(2), ms: 450 }, Policy::Interval { max: None, ms: 300 }, Policy::Interval { max: Some(1), ms: 3_000 }], "policy").clone();
    let mut acts = seq(4);
    acts.push(Act::Ok);
    let mut s = Sim::new(Kind::Mem);
    s.submit(&lim("c", max, end, Data { n: 0, bump: 1, acts, ..Data::default() }).retry(p), Via::Run);
    for _ in 0..16 {
        s.advance_ms(520);
        s.check();
    }
    s.end()
}

fn c10_history() {
    let spec = pick(
        &[
            lim("a", Some(1), None, Data::n(1)),
            lim("a", Some(2), None, Data::acts(1, &GATE)),
            lim("a", None, Some(1_900), Data::n(1)),
            lim("a", Some(2), Some(2_900), Data::acts(1, &[Act::Fail])),
        ],
        "kind",
    )
    .clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    let al = [H::Adv(1000), H::Adv(380), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Upd("a"), H::Rel("a", true)];
    nodrain(&mut s, &[spec], &al, if thorough() { 5 } else { 4 });
    for _ in 0..4 {
        if s.status('A', "a") == 'R' {
            s.release('A', "a", true);
        }
        s.advance_ms(900);
        s.check();
    }
    s.end()
}

fn c10_calendar() {
    // the expression itself ends: no slot after 2025
    let (d, e) = *pick(
        &[
            ("2025-12-31T23:59:56.700Z", "* * * * * * 2025"),
            ("2025-12-31T23:59:58.000Z", "* * * * * * 2025"),
            ("2025-12-31T23:59:50.000Z", "*/7 * * * * * 2025"),
            ("2025-12-30T23:59:59.000Z", "0 0 0 31 12 * 2025"),
        ],
        "date",
    );
    let dur = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 1_500_000, ok: true }], "run").clone();
    let blocked = choose(2, "slot blocked") == 1;
    let max = *pick(&[None, Some(2)], "max");
    start_at(d);
    let mut s = Sim::new(Kind::Mem);
    if blocked {
        s.submit(&Spec::new("w", Data::acts(0, &[Act::Sleep { us: 2_600_000, ok: true }])), Via::Run);
        s.configure('A', 1, 100);
        s.advance_ms(105);
    }
    s.submit(&Spec::new("c", Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() }).when(When::Cron { expr: e.into(), max, end_ms: None }), Via::Run);
    for _ in 0..14 {
        s.advance_ms(700);
        s.check();
    }
    let st = s.status('A', "c");
    ensure!(matches!(st, 'F' | 'X'), "the expression has no further occurrence, but the job is {st}");
    s.end()
}

fn c10_none() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let e = *pick(&["* * * * * * 2020", "0 0 0 1 1 * 2025", "0 0 0 30 2 * *"], "expr");
    let (max, end) = *pick(&[(None, None), (Some(2), None), (None, Some(1_300i64))], "limit");
    let d = Data { n: 1, bump: 1, acts: vec![], ..Data::default() };
    let mut s = Sim::new(kind);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    let sp = Spec::new("a", d.clone()).when(When::Cron { expr: e.into(), max, end_ms: end });
    let sp = if choose(2, "retry") == 1 { sp.retry(Policy::Interval { max: Some(1), ms: 50 }) } else { sp };
    s.submit(&sp, pick(&[Via::Run, Via::JustRun], "via").clone());
    s.check();
    let al = [H::Adv(130), H::Adv(700), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run)];
    nodrain(&mut s, &[sp], &al, if thorough() { 4 } else { 3 });
    s.advance_ms(300);
    s.check();
    ensure!(s.jobs[&('A', "a".to_string())].starts == 0, "executed although the expression has no slot left");
    s.end()
}
fn c10_redis() {
    let max = *pick(&[None, Some(1), Some(2)], "max");
    let end = *pick(&[None, Some(400i64), Some(900), Some(2_300)], "end ms");
    let dur = pick(&[Act::Ok, Act::Sleep { us: 1_400_000, ok: false }], "run").clone();
    let mut s = Sim::new(Kind::Redis);
    s.submit(&lim("c", max, end, Data { n: 0, bump: 1, acts: vec![dur], ..Data::default() }), Via::Run);
    for _ in 0..10 {
        s.advance_ms(470);
        s.check();
    }
    s.end()
}

// ---- C22 ----

/// Jobs that were due when accepted start in the order of acceptance (those of one poll start together).
fn in_order(order: &[String]) {
    let at = |id: &str| -> Option<i64> {
        LOG.with(|l| l.borrow().iter().find_map(|e| matches!(&e.ev, Ev::Start { id: i, .. } if i == id).then_some(e.t)))
    };
    let mut last = (i64::MIN, "");
    for id in order {
        let Some(t) = at(id) else { violate(format!("job {id} never started")) };
        ensure!(
            t >= last.0,
            "job {id} was accepted after {} but started before it: {:.3}ms and {:.3}ms",
            last.1,
            rel(t),
            rel(last.0)
        );
        last = (t, id);
    }
}

fn order(kind: Kind, ns: &[usize], ls: &[usize]) -> ! {
    let n = *pick(ns, "jobs");
    let limit = *pick(ls, "limit");
    let act = pick(&[Act::Ok, Act::Sleep { us: 30_000, ok: true }, Act::Sleep { us: 150_000, ok: false }], "run").clone();
    let between = choose(4, "between");
    let cancelled = choose(2, "cancelled") == 1;
    let mut s = Sim::new(kind);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, 100);
    let mut ids = vec![];
    for i in 0..n {
        let delayed = match between {
            0 => false,
            1 => i % 3 == 1,
            2 => i < n / 2,
            _ => i >= 20,
        };
        // not an order in which sorting by id would help
        let id = format!("j{}", (i * 7 + 3) % 1009);
        let mut sp = Spec::new(&id, Data::acts(i as i64, &[act.clone()]));
        if delayed {
            sp = sp.when(When::In(60_000_000));
        } else {
            ids.push(id);
        }
        s.submit(&sp, Via::Run);
    }
    if cancelled && !ids.is_empty() {
        let k = ids.len() / 2;
        let id = ids.remove(k);
        s.cancel('A', &id);
    }
    for _ in 0..2 * n + 6 {
        s.advance_ms(105);
        if ids.iter().all(|i| s.status('A', i) != 'Q') {
            break;
        }
    }
    s.advance_ms(200);
    s.check();
    in_order(&ids);
    s.end()
}
fn c22_order() {
    order(Kind::Mem, &[1, 2, 3, 5, 19, 20, 21, 22, 40, 41, 61], &[1, 2, 3, 7, 19, 20, 21])
}
fn c22_redis() {
    order(Kind::Redis, &[3, 21, 23], &[1, 2])
}
fn c22_wide() {
    order(Kind::Mem, if thorough() { &[100, 130, 260, 520] } else { &[100, 130, 260] }, &[7, 20, 50])
}
fn c22_again() {
    let n = *pick(&[2usize, 5, 21, 26], "jobs");
    let limit = *pick(&[1usize, 2, 20], "limit");
    let run = *pick(&[40_000u64, 130_000], "run");
    let act = Act::Sleep { us: run, ok: true };
    let mut s = Sim::new(Kind::Mem);
    // done before, cancelled before
    s.submit(&Spec::new("d", Data::n(0)), Via::Run);
    s.submit(&Spec::new("e", Data::acts(0, &[Act::Fail])), Via::Run);
    s.advance_ms(110);
    s.configure('A', limit, 100);
    s.submit(&Spec::new("f", Data::n(0)), Via::Run);
    s.cancel('A', "f");
    let mut ids = vec![];
    for i in 0..n {
        let id = format!("j{}", (i * 7 + 3) % 1009);
        s.submit(&Spec::new(&id, Data::acts(i as i64, &[act.clone()])), Via::Run);
        ids.push(id);
    }
    let which = *pick(&["d", "e", "f", "first", "middle", "last"], "which");
    s.advance_ms(*pick(&[0i64, 55, 110], "gap"));
    let id = match which {
        "first" => ids[0].clone(),
        "middle" => ids[n / 2].clone(),
        "last" => ids[n - 1].clone(),
        o => o.to_string(),
    };
    let how = choose(3, "how");
    let was = s.status('A', &id);
    let before = starts('A', &id);
    match how {
        0 => s.submit(&Spec::new(&id, Data::acts(77, &[act.clone()])), pick(&[Via::Run, Via::Enq { re_run: true, over: true }], "via").clone()),
        1 => s.retry('A', &id),
        _ => s.update('A', &id, Data::acts(78, &[act.clone()]), None),
    }
    let again = matches!(was, 'F' | 'X' | 'C');
    // one more behind everything
    s.submit(&Spec::new("z", Data::acts(1, &[act.clone()])), Via::Run);
    for _ in 0..3 * n + 8 {
        s.advance_ms(105);
        if ids.iter().all(|i| s.status('A', i) != 'Q') && s.status('A', "z") != 'Q' && s.status('A', &id) != 'Q' {
            break;
        }
    }
    s.advance_ms(200);
    s.check();
    let nth = |id: &str, k: usize| LOG.with(|l| l.borrow().iter().filter(|e| matches!(&e.ev, Ev::Start { id: i, .. } if i == id)).nth(k).map(|e| e.t));
    if again {
        let Some(t) = nth(&id, before) else { violate(format!("job {id} was queued again and never started")) };
        for i in &ids {
            if *i == id {
                continue;
            }
            let o = nth(i, 0);
            ensure!(o.is_some_and(|o| o <= t), "job {id} was queued again after {i} was accepted but started before it");
        }
        ensure!(nth("z", 0).is_some_and(|z| z >= t), "job {id} was queued again before z was accepted but started after it");
    }
    ids.push("z".into());
    in_order(&ids);
    s.end()
}
fn c22_waves() {
    let limit = *pick(&[1usize, 2, 5, 20], "limit");
    let act = pick(&[Act::Ok, Act::Sleep { us: 130_000, ok: true }, Act::Sleep { us: 40_000, ok: true }], "run").clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, 100);
    let mut ids = vec![];
    for wave in 0..3 {
        let n = *pick(&[1usize, 4, 22], "wave");
        for i in 0..n {
            let id = format!("{}{}", ["m", "c", "x"][wave], (i * 5) % 23);
            s.submit(&Spec::new(&id, Data::acts(i as i64, &[act.clone()])), pick(&[Via::Run], "via").clone());
            ids.push(id);
        }
        s.advance_ms(*pick(&[0i64, 55, 210], "gap"));
        s.check();
    }
    for _ in 0..150 {
        s.advance_ms(105);
        if ids.iter().all(|i| s.status('A', i) != 'Q') {
            break;
        }
    }
    s.check();
    in_order(&ids);
    s.end()
}

/// Jobs that have been executed, repeated or retried many times before: the counts go on from there.
fn far_counts() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let before = *pick(if kind == Kind::Redis { &[254, i32::MAX - 4] } else { &[0i32, 1, 9, 99, 126, 127, 253, 254, 255, 999, 1022, 32_765, 32_766, 65_533, 65_534, 99_999, 16_777_214, i32::MAX - 4, i32::MAX - 3] }, "before");
    let runs = if before == 0 { *pick(&[0usize, 1, 254, 65_534, u32::MAX as usize - 1, 1 << 53], "run count") } else { before as usize };
    let what = choose(8, "what");
    let w = World::new(kind);
    let mut c = aj_core::JobContext::new("a".into());
    c.run_count = runs;
    let (mut fails, mut expect, mut more) = (false, 3, false);
    let cron = |max: Option<i32>| {
        let fresh = aj_core::JobType::new_cron("* * * * * * *", aj_core::CronContext { max_repeat: max, ..Default::default() }).unwrap();
        match fresh {
            aj_core::JobType::Cron(e, at, first, cx) => aj_core::JobType::Cron(e, at, first + before, cx),
            o => o,
        }
    };
    let every = aj_core::RetryStrategy::Interval(chrono::Duration::milliseconds(150));
    match what {
        0 => c.job_type = cron(Some(before + 3)),
        1 => (c.job_type, expect) = (cron(Some(before + 1)), 1),
        2 => (c.job_type, more) = (cron(None), true),
        3 => {
            c.job_type = cron(Some(before + 3));
            fails = true;
        }
        4 => {
            c.retry = Some(aj_core::Retry::new(before, Some(before + 2), every));
            fails = true;
        }
        5 => {
            c.retry = Some(aj_core::Retry::new(before, Some(before), every));
            (fails, expect) = (true, 1);
        }
        6 => {
            c.retry = Some(aj_core::Retry::new(before, None, every));
            (fails, more) = (true, true);
        }
        _ => {
            c.retry = Some(aj_core::Retry::new(before, Some(before + 2), every));
            expect = 1;
        }
    }
    let act = if fails { Act::Fail } else { Act::Ok };
    let r = w.call("run", aj_core::Job::new(Alpha(Data { n: 0, bump: 1, acts: vec![act], ..Data::default() })).context(c).run());
    ensure!(matches!(r, Some(Ok(_))), "submission: {r:?}");
    let mut last = 0;
    for _ in 0..26 {
        w.advance(230 * MS);
        let n = starts('A', "a");
        let v = w.get('A', "a");
        let Some(v) = v else { violate(format!("the job is not found after {n} executions")) };
        ensure!(v.run_count == runs + n, "after {n} executions the run count went from {runs} to {}", v.run_count);
        last = n;
    }
    if more {
        ensure!(last >= 5, "an endless job was executed {last} times in six seconds, {before} before them");
    } else {
        ensure!(last == expect, "a job that had been repeated or retried {before} times was executed {last} times, expected {expect}");
        let v = w.get('A', "a").unwrap();
        let want = if fails { 'X' } else { 'F' };
        ensure!(v.status == want, "status {:?} after {last} executions", v.status);
    }
    done()
}
