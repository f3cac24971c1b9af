//! Automatic retries: how many (C06) and when (C07).
use super::life::{history, steps, H};
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;
use aj_core::{Retry, RetryStrategy};
use chrono::{DateTime, Duration, Utc};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C06", "c06-outcomes", "every outcome sequence of length 4 (5) over {ok, fail, post_execute turns it into a failure, slow failure} x 15 policies (down to a maximum of i32::MIN, up to i32::MAX retries used) x default/own retry decision", c06_outcomes),
        q("C06", "c06-endless", "policies without a maximum or with a large one: up to 260 consecutive failures, then a success or not", c06_endless),
        q("C06", "c06-own", "jobs with a retry_at of their own that retries whatever the outcome", c06_own),
        q("C06", "c06-history", "histories of 5 (6) steps over manual retry/cancel/resubmit/advance while retries are pending", c06_history),
        q("C06", "c06-bulk", "n failing jobs share slots and retry together", c06_bulk),
        q("C06", "c06-redis", "outcome sequences of length 3 on the real Redis backend", c06_redis),
        q("C07", "c07-engine", "strategy x 12 base delays (1 ms .. 10 days) x 7 consecutive failures: due time after every failure, and the start, compared to the exact value", c07_engine),
        q("C07", "c07-phase", "failure at any of 7 phases (microseconds) of the polling interval x base delay x run length", c07_phase),
        q("C07", "c07-type", "the retry type itself: strategy x base delay (0 .. years) x used retries x reference dates x 70 consecutive calls, with and without a round trip through JSON", c07_type),
        q("C07", "c07-redis", "delays on the real Redis backend", c07_redis),
    ]
}

fn policies() -> Vec<Policy> {
    vec![
        Policy::Interval { max: Some(0), ms: 50 },
        Policy::Interval { max: Some(-1), ms: 50 },
        Policy::Expo { max: Some(i32::MIN), ms: 50 },
        Policy::Interval { max: Some(i32::MAX), ms: 50 },
        Policy::Used { done: i32::MAX - 1, max: None, ms: 60 },
        Policy::Used { done: i32::MAX - 1, max: Some(i32::MAX), ms: 60 },
        Policy::Interval { max: Some(1), ms: 50 },
        Policy::Interval { max: Some(2), ms: 120 },
        Policy::Interval { max: Some(3), ms: 100 },
        Policy::Interval { max: None, ms: 30 },
        Policy::Expo { max: Some(2), ms: 40 },
        Policy::Expo { max: None, ms: 25 },
        Policy::Default,
        Policy::Used { done: 2, max: Some(3), ms: 60 },
        Policy::Used { done: 3, max: Some(3), ms: 60 },
    ]
}
fn outcomes(n: usize) -> Vec<Act> {
    let mut v: Vec<Act> =
        (0..n).map(|_| pick(&[Act::Ok, Act::Fail, Act::PostFail, Act::Sleep { us: 70_000, ok: false }], "outcome").clone()).collect();
    v.push(Act::Ok);
    v
}

fn c06_outcomes() {
    let p = choose(policies().len() + 1, "policy");
    let ty = *pick(&['A', 'G'], "type");
    let acts = outcomes(if thorough() { 5 } else { 4 });
    let mut sp = Spec::new("a", Data { n: 0, bump: 1, acts, ..Data::default() }).ty(ty);
    if p > 0 {
        sp = sp.retry(policies()[p - 1].clone());
    }
    let mut s = Sim::new(Kind::Mem);
    s.submit(&sp, Via::Run);
    for _ in 0..4 {
        s.advance_ms(90);
        s.check();
    }
    s.drain();
    s.advance_ms(500);
    s.end()
}

fn c06_endless() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let n = 300usize;
    let max = *pick(&[None, Some(4), Some(9), Some(15), Some(31), Some(127), Some(128), Some(255), Some(256)], "max");
    let p = pick(&[Policy::Interval { max, ms: 20 }, Policy::Interval { max, ms: 100 }, Policy::Expo { max: max.map(|m| m.min(20)), ms: 5 }], "policy").clone();
    let ok_at = *pick(&[9usize, 12, 20, 33, 70, 131, 260], "ok at");
    let n = if matches!(p, Policy::Expo { .. }) { 13 } else { n };
    if ok_at > n {
        crate::explore::finish();
    }
    let ty = *pick(&['A', 'G'], "type");
    let mut acts = vec![Act::Fail; ok_at];
    acts.push(Act::Ok);
    let mut s = Sim::new(kind);
    s.submit(&Spec::new("a", Data { n: 0, bump: 1, acts, ..Data::default() }).ty(ty).retry(p), Via::Run);
    s.drain();
    s.advance_ms(500);
    s.end()
}

fn c06_own() {
    let times = *pick(&[0i64, 1, 2, 3], "times");
    let ms = *pick(&[0i64, 30, 110, 260], "delay");
    let p = pick(&[None, Some(Policy::Default), Some(Policy::Interval { max: Some(0), ms: 10 })], "policy").clone();
    let acts = outcomes(2);
    let ty = *pick(&['A', 'B', 'G'], "type");
    let mut sp = Spec::new("a", Data { n: 0, bump: 1, acts, own_retry: Some((ms, times)), ..Data::default() }).ty(ty);
    sp.retry = p;
    let mut s = Sim::new(Kind::Mem);
    s.submit(&sp, Via::Run);
    s.drain();
    s.advance_ms(500);
    s.end()
}

fn c06_history() {
    let spec = pick(
        &[
            Spec::new("a", Data { n: 0, bump: 1, acts: vec![Act::Fail], ..Data::default() }).retry(Policy::Interval { max: Some(2), ms: 130 }),
            Spec::new("a", Data { n: 0, bump: 1, acts: vec![Act::Fail, Act::Ok, Act::Fail], ..Data::default() }).retry(Policy::Interval { max: Some(1), ms: 40 }),
            Spec::new("a", Data { n: 0, bump: 1, acts: vec![Act::Fail, Act::Gate], ..Data::default() }).retry(Policy::Interval { max: Some(2), ms: 40 }),
        ],
        "kind",
    )
    .clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    let al = [H::Adv(100), H::Adv(45), H::Retry("a"), H::Cancel("a"), H::Sub(0, Via::Run), H::Upd("a"), H::Rel("a", false), H::Rel("a", true)];
    history(&mut s, &[spec], &al, if thorough() { 6 } else { 5 });
    s.advance_ms(300);
    s.end()
}

fn c06_bulk() {
    let n = *pick(&[2i64, 5, 19, 20, 21, 41], "jobs");
    let limit = *pick(&[1usize, 3, 20, 50], "limit");
    let p = pick(&policies(), "policy").clone();
    let mut s = Sim::new(Kind::Mem);
    for i in 0..n {
        let acts = [vec![Act::Fail], vec![Act::Ok], vec![Act::Fail, Act::Ok]][(i % 3) as usize].clone();
        let mut acts = acts;
        if acts == vec![Act::Fail] && matches!(p, Policy::Interval { max: None, .. } | Policy::Expo { max: None, .. }) {
            acts = vec![Act::Fail, Act::Fail, Act::Fail, Act::Fail, Act::Ok];
        }
        s.submit(&Spec::new(&format!("j{i}"), Data { n: i, bump: 100, acts, ..Data::default() }).retry(p.clone()), Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    s.drain();
    s.end()
}

fn c06_redis() {
    let p = pick(&policies()[1..8], "policy").clone();
    let ty = *pick(&['A', 'G'], "type");
    let mut acts: Vec<Act> = (0..3).map(|_| pick(&[Act::Ok, Act::Fail], "outcome").clone()).collect();
    acts.push(Act::Ok);
    let mut s = Sim::new(Kind::Redis);
    s.submit(&Spec::new("a", Data { n: 0, bump: 1, acts, ..Data::default() }).ty(ty).retry(p), Via::Run);
    s.drain();
    s.end()
}

fn c07_engine() {
    let ms = *pick(&[1i64, 7, 20, 50, 99, 100, 101, 333, 1_000, 60_000, 3_600_000, 10 * 86_400_000], "base");
    let expo = choose(2, "expo") == 1;
    let max = *pick(&[Some(6), None], "max");
    let ty = *pick(&['A', 'G'], "type");
    let p = if expo { Policy::Expo { max, ms } } else { Policy::Interval { max, ms } };
    let mut s = Sim::new(Kind::Mem);
    let tick = (ms / 20).clamp(10, 12 * 3_600_000);
    s.submit(&Spec::new("w", Data::n(0)).ty(ty), Via::Run);
    s.configure(ty, 20, tick);
    s.advance_ms(105);
    s.submit(&Spec::new("a", Data { n: 0, bump: 1, acts: vec![Act::Fail], ..Data::default() }).ty(ty).retry(p), Via::Run);
    // timers reach about two years
    let rounds = if expo && ms > 86_400_000 { 4 } else { 7 };
    for k in 0..rounds {
        s.advance_ms(tick + 6);
        s.check();
        let j = &s.jobs[&(ty, "a".to_string())];
        ensure!(j.starts > k.min(0), "never started");
        if j.status == 'X' {
            break;
        }
        let wait = (j.ready_at() - now()).max(0);
        if wait > 1000 {
            s.advance(wait - 1000);
            s.check();
            s.advance(1500);
        }
    }
    s.advance_ms(2 * tick);
    s.check();
    s.end()
}

fn c07_phase() {
    let ms = *pick(&[20i64, 100, 150], "base");
    let p = pick(&[Policy::Interval { max: Some(3), ms }, Policy::Expo { max: Some(3), ms }], "policy").clone();
    let dur = *pick(&[0u64, 1, 1_000, 33_333, 99_999, 100_000, 170_000], "run us");
    let act = if dur == 0 { Act::Fail } else { Act::Sleep { us: dur, ok: false } };
    let others = *pick(&[0i64, 4], "others");
    let limit = *pick(&[1usize, 20], "limit");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("a", Data { n: 0, bump: 1, acts: vec![act], ..Data::default() }).retry(p.clone()), Via::Run);
    s.configure('A', limit, 100);
    for i in 0..others {
        s.submit(&Spec::new(&format!("o{i}"), Data::acts(i, &[Act::Fail])).retry(p.clone()), Via::Run);
    }
    for _ in 0..20 {
        s.advance_ms(47);
        s.check();
    }
    s.drain();
    s.end()
}

fn c07_type() {
    let us = [0i64, 1, 999, 1_000, 100_000, 1_000_000, 3_600_000_000, 86_400_000_000, 400 * 86_400_000_000, 1i64 << 52, i64::MAX / 2000, i64::MAX / 2, i64::MAX];
    let mut bases: Vec<Duration> = us.iter().map(|us| Duration::microseconds(*us)).collect();
    bases.extend([Duration::days(10_000_000), Duration::max_value() / 1000, Duration::max_value() / 2, Duration::max_value()]);
    // to the nanosecond (stored to the microsecond), and beyond the precision of floating point numbers
    let fine = [1i64, 999, 1_500, 999_999_999, 1_000_000_001];
    bases.extend(fine.iter().map(|ns| Duration::nanoseconds(*ns)));
    bases.extend([(1i64 << 53) + 1, (1 << 55) + 3, (1 << 31) + 1, 1_234_567_890_123_457].iter().map(|us| Duration::microseconds(*us)));
    let base = *pick(&bases, "base");
    let expo = choose(2, "expo") == 1;
    let used = *pick(&[0i32, 1, 5, 29, 30, 31, 62, 100, i32::MAX - 3, i32::MAX], "used");
    let max = *pick(&[None, Some(0), Some(1), Some(3), Some(70), Some(-1), Some(i32::MIN), Some(i32::MAX)], "max");
    let whole = base.num_nanoseconds().is_none_or(|ns| ns % 1000 == 0);
    let json = whole && choose(2, "json") == 1;
    let nows: [DateTime<Utc>; 3] = [dt(1_700_000_000_123_456_000), dt(0), DateTime::<Utc>::MAX_UTC - Duration::days(1)];
    let strat = if expo { RetryStrategy::ExponentialBackoff(base) } else { RetryStrategy::Interval(base) };
    let mut r = if used == 0 {
        if expo {
            Retry::new_exponential_backoff(max, base)
        } else {
            Retry::new_interval_retry(max, base)
        }
    } else {
        Retry::new(used, max, strat)
    };
    for step in 0..70 {
        // counts stop at the largest one
        let before = used.saturating_add(step);
        let k = before.saturating_add(1);
        if json {
            r = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
        }
        let want = max.is_none_or(|m| before < m);
        ensure!(r.should_retry() == want, "after {} retries with maximum {max:?}: should_retry is {}", before, !want);
        let now = nows[(k % 3) as usize];
        let got = r.retry_at(Some(now));
        let pow = if expo { k.min(30) as u32 } else { 0 };
        let exact = base.checked_mul(1i32 << pow).and_then(|d| now.checked_add_signed(d));
        match exact {
            Some(e) if !expo || k <= 30 => {
                ensure!(got == e, "retry {k} of {base:?} (exponential: {expo}) at {now}: due {got}, expected {e}")
            }
            Some(e) => ensure!(got >= e, "retry {k} of {base:?}: due {got}, shorter than the 30th one"),
            None => ensure!(got >= now && got.year() > 200_000, "retry {k} of {base:?}: a delay beyond all dates became {got}"),
        }
    }
    crate::explore::leaf(&format!("{base}{expo}{used}{max:?}"), "");
    crate::explore::finish()
}
use chrono::Datelike;

fn c07_redis() {
    let ms = *pick(&[20i64, 150], "base");
    let p = pick(&[Policy::Interval { max: Some(2), ms }, Policy::Expo { max: Some(2), ms }], "policy").clone();
    let mut s = Sim::new(Kind::Redis);
    let sp = Spec::new("a", Data { n: 0, bump: 1, acts: vec![Act::Fail], ..Data::default() }).retry(p);
    s.submit(&sp, Via::Run);
    steps(&mut s, &[sp], &[H::Adv(100), H::Adv(40)], 6);
    s.drain();
    s.end()
}
