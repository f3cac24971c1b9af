//! The histories of single jobs again, in queues that are set up differently: another limit or polling interval,
//! slots taken, a long queue in front, plugins, a second type, the real Redis backend.
use super::life::{kinds, steps, GATE, H};
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;

pub fn suites() -> Vec<Suite> {
    vec![
        q("C01", "c01-settings", "histories of 3 (4) steps over submissions by every path x 6 kinds x 8 ways the queue is set up", c01),
        q("C02", "c02-settings", "histories of 3 (4) steps over submit/cancel/retry/release/wait x 8 kinds x 8 ways the queue is set up", c02),
        q("C05", "c05-settings", "histories of 3 (4) steps over cancel/submit/retry/release/wait x 8 kinds x 8 ways the queue is set up", c05),
        q("C06", "c06-settings", "histories of 3 (4) steps over retry/cancel/resubmit/wait x 5 retry policies x 8 ways the queue is set up", c06),
        q("C08", "c08-settings", "histories of 3 (4) steps over retry/cancel/resubmit/wait x 8 kinds x 8 ways the queue is set up", c08),
        q("C09", "c09-settings", "histories of 3 (4) steps over cancel/retry/resubmit/wait x 4 cron jobs x 8 ways the queue is set up", cron),
        q("C10", "c10-settings", "histories of 3 (4) steps over cancel/retry/resubmit/wait x 4 limited cron jobs x 8 ways the queue is set up", cron),
        q("C11", "c11-settings", "histories of 3 (4) steps over resubmissions, updates and waits x 6 kinds x 8 ways the queue is set up", c11),
        q("C12", "c12-settings", "histories of 3 (4) steps x 8 kinds x 8 ways the queue is set up, two plugins", c12),
        q("C21", "c21-settings", "histories of 3 (4) steps around a panicking job x 8 ways the queue is set up", c21),
    ]
}

fn setting(plugins: usize) -> Sim {
    let k = choose(8, "set up");
    let mut s = Sim::new(if k == 7 { Kind::Redis } else { Kind::Mem });
    for _ in 0..plugins {
        s.plugin();
    }
    let warm = |s: &mut Sim, limit, tick| {
        s.submit(&Spec::new("w", Data::n(0)), Via::Run);
        s.configure('A', limit, tick);
        s.advance_ms(110);
    };
    match k {
        0 => warm(&mut s, 1, 100),
        1 => {
            warm(&mut s, 3, 100);
            for i in 0..2 {
                s.submit(&Spec::new(&format!("w{i}"), Data::acts(i, &GATE)), Via::Run);
            }
            s.advance_ms(100);
        }
        2 => {
            s.plugin();
            warm(&mut s, 20, 30);
        }
        3 => {
            // more than one batch of jobs that are not due yet is in front
            warm(&mut s, 2, 100);
            for i in 0..25 {
                s.submit(&Spec::new(&format!("d{i}"), Data::n(i)).when(When::In(3_000_000)), Via::Run);
            }
        }
        4 => {
            // as many done and cancelled jobs
            warm(&mut s, 64, 100);
            for i in 0..24 {
                s.submit(&Spec::new(&format!("d{i}"), Data::n(i)), Via::Run);
            }
            for i in 0..12 {
                s.cancel('A', &format!("d{}", i * 2));
            }
            s.advance_ms(100);
        }
        5 => {
            // a second type
            s.submit(&Spec::new("x", Data::acts(5, &GATE)).ty('B'), Via::Run);
            s.submit(&Spec::new("y", Data::n(5)).ty('B').when(When::In(250_000)), Via::Run);
            s.configure('B', 1, 70);
            warm(&mut s, 5, 100);
        }
        6 => {
            // polls rarely
            warm(&mut s, 20, 250);
        }
        _ => warm(&mut s, 2, 100),
    }
    s
}

fn depth() -> usize {
    if thorough() {
        4
    } else {
        3
    }
}
fn enq(re_run: bool, over: bool) -> Via {
    Via::Enq { re_run, over }
}
fn finish(mut s: Sim) -> ! {
    s.advance_ms(300);
    s.check();
    s.drain();
    s.end()
}
fn all_kinds() -> Vec<Spec> {
    let mut ks = kinds("a");
    ks.push(Spec::new("a", Data::acts(1, &[Act::Fail, Act::Ok])).when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None }));
    ks
}
fn go(specs: Vec<Spec>, plugins: usize, al: &[H]) -> ! {
    let mut s = setting(plugins);
    s.submit(&specs[0], Via::Run);
    s.check();
    steps(&mut s, &specs, al, depth());
    finish(s)
}

fn c01() {
    let ks = kinds("a");
    let a = pick(&[&ks[0], &ks[1], &ks[2], &ks[3], &ks[4], &ks[6]], "kind").to_owned().clone();
    let b = Spec::new("b", Data::acts(7, &[Act::Sleep { us: 130_000, ok: true }]));
    let al = [H::Adv(100), H::Adv(45), H::Sub(1, Via::Run), H::Sub(1, Via::JustRun), H::Sub(1, Via::Add), H::Sub(0, enq(false, false)), H::Sub(0, Via::ReRun), H::Rel("a", true)];
    go(vec![a, b], 0, &al)
}
fn c02() {
    let a = pick(&all_kinds(), "kind").clone();
    let al = [H::Adv(100), H::Adv(60), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Rel("a", true), H::Rel("a", false)];
    go(vec![a], 0, &al)
}
fn c05() {
    let a = pick(&all_kinds(), "kind").clone();
    let b = Spec::new("b", Data::acts(7, &GATE));
    let al = [H::Cancel("a"), H::Adv(100), H::Adv(60), H::Sub(1, Via::Run), H::Cancel("b"), H::Retry("a"), H::Rel("a", true)];
    go(vec![a, b], 0, &al)
}
fn c06() {
    let d = |acts: &[Act]| Data { n: 0, bump: 1, acts: acts.to_vec(), ..Data::default() };
    let a = pick(
        &[
            Spec::new("a", d(&[Act::Fail])).retry(Policy::Interval { max: Some(2), ms: 130 }),
            Spec::new("a", d(&[Act::Fail, Act::Ok, Act::Fail])).retry(Policy::Interval { max: Some(1), ms: 40 }),
            Spec::new("a", d(&[Act::Fail, Act::Gate])).retry(Policy::Interval { max: Some(2), ms: 40 }),
            Spec::new("a", d(&[Act::PostFail, Act::Sleep { us: 60_000, ok: false }])).retry(Policy::Expo { max: Some(3), ms: 40 }),
            Spec::new("a", d(&[Act::Fail])).retry(Policy::Interval { max: Some(0), ms: 40 }),
        ],
        "kind",
    )
    .clone();
    let al = [H::Adv(100), H::Adv(45), H::Retry("a"), H::Cancel("a"), H::Sub(0, Via::Run), H::Upd("a"), H::Rel("a", false), H::Rel("a", true)];
    go(vec![a], 0, &al)
}
fn c08() {
    let a = pick(&all_kinds(), "kind").clone();
    let al = [H::Retry("a"), H::Adv(100), H::Adv(60), H::Retry("w"), H::Cancel("a"), H::Rel("a", true), H::Rel("a", false)];
    go(vec![a], 0, &al)
}
fn cron() {
    let every = |max, end_ms| When::Cron { expr: "* * * * * * *".into(), max, end_ms };
    let a = pick(
        &[
            Spec::new("a", Data::acts(1, &[Act::Ok, Act::Fail])).when(every(Some(3), None)),
            Spec::new("a", Data::acts(1, &GATE)).when(every(Some(2), None)),
            Spec::new("a", Data::acts(1, &[Act::Sleep { us: 1_150_000, ok: true }])).when(every(None, Some(4_400))),
            Spec::new("a", Data::acts(1, &[Act::Fail, Act::Ok, Act::Fail])).when(every(Some(3), None)).retry(Policy::Interval { max: Some(1), ms: 120 }),
        ],
        "kind",
    )
    .clone();
    let al = [H::Adv(1_000), H::Adv(130), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Sub(0, enq(true, false)), H::Rel("a", true)];
    go(vec![a], 0, &al)
}
fn c11() {
    let ks = kinds("a");
    let a = pick(&[&ks[0], &ks[1], &ks[2], &ks[3], &ks[4], &ks[6]], "kind").to_owned().clone();
    let b = Spec::new("a", Data::acts(7, &[Act::Ok])).when(When::In(120_000));
    let al = [
        H::Adv(100),
        H::Sub(1, enq(true, true)),
        H::Sub(1, enq(true, false)),
        H::Sub(1, enq(false, true)),
        H::Sub(0, enq(false, false)),
        H::Upd("a"),
        H::UpdCtx("a"),
        H::Rel("a", true),
    ];
    go(vec![a, b], 0, &al)
}
fn c12() {
    let a = pick(&all_kinds(), "kind").clone();
    let al = [H::Adv(100), H::Adv(60), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Rel("a", true), H::Rel("a", false)];
    go(vec![a], 2, &al)
}
fn c21() {
    let a = pick(
        &[
            Spec::new("a", Data::acts(2, &[Act::Panic])),
            Spec::new("a", Data::acts(1, &[Act::SleepPanic { us: 60_000 }, Act::Ok])),
            Spec::new("a", Data::acts(1, &[Act::Fail, Act::Panic])).retry(Policy::Interval { max: Some(3), ms: 50 }),
            Spec::new("a", Data::acts(3, &[Act::Ok, Act::Panic])).when(When::Cron { expr: "* * * * * * *".into(), max: Some(3), end_ms: None }),
        ],
        "kind",
    )
    .clone();
    let b = Spec::new("b", Data::acts(7, &GATE));
    let al = [H::Adv(100), H::Adv(60), H::Retry("a"), H::Cancel("a"), H::Sub(0, Via::Run), H::Sub(1, Via::Run), H::Rel("b", true)];
    go(vec![a, b], 0, &al)
}
