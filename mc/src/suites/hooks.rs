//! Plugin hooks (C12).
use super::life::{kinds, steps, H};
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;
use aj::async_trait;
use aj_core::{Job, JobPlugin, JobStatus, AJ};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C12", "c12-history", "1 or 2 plugins; every history of 4 (5) steps over submit/cancel/retry/release/advance for 9 job kinds; hooks compared after each step", c12_history),
        q("C12", "c12-late", "a plugin registered after any prefix of a history sees everything from then on", c12_late),
        q("C12", "c12-types", "jobs of three types, 0..3 plugins, InMemory and Redis", c12_types),
        q("C12", "c12-bulk", "1..41 jobs, outcomes and limits mixed: every plugin hears of each exactly once", c12_bulk),
        q("C12", "c12-cron", "cron jobs x max_repeat x end_at (also while waiting) x retry x outcomes incl. panic, 1 or 2 plugins: all status changes up to the last one", c12_cron),
        q("C12", "c12-long", "10 plugins, or one job executed 20 to 260 times (cron, retry, manual retry): each plugin hears of each execution", c12_long),
        q("C12", "c12-slow", "hooks that suspend: before_run is over before the execution starts, after_run begins after it ended, other jobs are not held up", c12_slow),
        q("C12", "c12-bad", "a plugin that panics in any hook, for one job or all: 3 jobs run and end as without it", c12_bad),
        q("C12", "c12-race", "two clients, plugin actor lagging arbitrarily; all schedules with at most 3 (4) deviations: each hook exactly once, before/after in order", c12_race),
    ]
}

fn all_kinds() -> Vec<Spec> {
    let mut k = kinds("a");
    k.push(Spec::new("a", Data::n(1)).when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None }));
    k.push(Spec::new("a", Data { n: 0, bump: 1, own_retry: Some((60, 2)), ..Data::default() }).retry(Policy::Default));
    k
}
fn alphabet() -> Vec<H> {
    vec![H::Adv(100), H::Adv(900), H::Cancel("a"), H::Retry("a"), H::Sub(0, Via::Run), H::Upd("a"), H::Rel("a", true), H::Rel("a", false)]
}

fn c12_history() {
    let mut s = Sim::new(Kind::Mem);
    let n = 1 + choose(2, "plugins");
    for _ in 0..n {
        s.plugin();
    }
    let spec = pick(&all_kinds(), "kind").clone();
    s.submit(&spec, Via::Run);
    s.check();
    steps(&mut s, &[spec], &alphabet(), if thorough() { 5 } else { 4 });
    s.drain();
    s.end()
}

fn c12_late() {
    let mut s = Sim::new(Kind::Mem);
    if choose(2, "first plugin") == 1 {
        s.plugin();
    }
    let spec = pick(&all_kinds(), "kind").clone();
    s.submit(&spec, Via::Run);
    let before = choose(3, "steps before");
    steps(&mut s, &[spec.clone()], &alphabet(), before);
    s.plugin();
    s.check();
    steps(&mut s, &[spec], &alphabet(), if thorough() { 3 } else { 2 });
    s.drain();
    s.end()
}

fn c12_types() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let mut s = Sim::new(kind);
    for _ in 0..choose(4, "plugins") {
        s.plugin();
    }
    for ty in ['A', 'B', 'G'] {
        let act = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 120_000, ok: true }], "act").clone();
        let mut sp = Spec::new(&format!("{ty}1"), Data::acts(1, &[act, Act::Ok])).ty(ty);
        if ty != 'B' {
            sp = sp.retry(Policy::Interval { max: Some(1), ms: 30 });
        }
        s.submit(&sp, if ty == 'B' { Via::JustRun } else { Via::Run });
        s.check();
    }
    s.advance_ms(100);
    s.check();
    s.drain();
    s.end()
}

fn c12_cron() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let max = *pick(&[None, Some(1), Some(2)], "max");
    let end_ms = *pick(&[None, Some(-100i64), Some(300), Some(900), Some(1_900)], "end");
    let retry = *pick(&[None, Some(100i64), Some(1_500)], "retry");
    let acts = pick(
        &[vec![Act::Ok], vec![Act::Fail, Act::Ok], vec![Act::Ok, Act::Panic], vec![Act::Sleep { us: 1_200_000, ok: true }], vec![Act::PostFail]],
        "acts",
    )
    .clone();
    let mut s = Sim::new(kind);
    for _ in 0..1 + choose(2, "plugins") {
        s.plugin();
    }
    let mut sp = Spec::new("a", Data { n: 1, bump: 1, acts, ..Data::default() }).when(When::Cron { expr: "* * * * * * *".into(), max, end_ms });
    if let Some(ms) = retry {
        sp = sp.retry(Policy::Interval { max: Some(1), ms });
    }
    s.submit(&sp, Via::Run);
    s.check();
    for ms in [480, 480, 480, 480, 980, 980] {
        s.advance_ms(ms);
        s.check();
    }
    s.cancel('A', "a");
    s.check();
    s.end()
}

fn c12_bulk() {
    let n = *pick(&[1i64, 2, 19, 20, 21, 41], "jobs");
    let limit = *pick(&[1usize, 3, 20], "limit");
    let mut s = Sim::new(Kind::Mem);
    // many notifications at one instant: their order among themselves is not promised
    s.status_order = false;
    s.plugin();
    s.plugin();
    for i in 0..n {
        let act = [Act::Ok, Act::Fail, Act::Sleep { us: 60_000, ok: true }][(i % 3) as usize].clone();
        s.submit(&Spec::new(&format!("j{i}"), Data::acts(i, &[act])), Via::Run);
        if i == 0 {
            s.configure('A', limit, 100);
        }
    }
    if n > 2 {
        s.cancel('A', "j1");
    }
    s.drain();
    s.end()
}

fn c12_long() {
    let how = choose(4, "how");
    let mut s = Sim::new(Kind::Mem);
    for _ in 0..if how == 0 { 10 } else { 2 } {
        s.plugin();
    }
    let n = if how == 0 { 3 } else { *pick(&[20usize, 66, 130, 260], "times") };
    let act = pick(&[Act::Ok, Act::Fail], "outcome").clone();
    let mut sp = Spec::new("a", Data { n: 0, bump: 1, acts: vec![act], ..Data::default() });
    match how {
        1 => sp = sp.when(When::Cron { expr: "* * * * * * *".into(), max: Some(n as i32), end_ms: None }),
        2 => {
            let mut acts = vec![Act::Fail; n];
            acts.push(Act::Ok);
            sp = Spec::new("a", Data { n: 0, bump: 1, acts, ..Data::default() }).retry(Policy::Interval { max: None, ms: 30 });
        }
        _ => {}
    }
    s.submit(&sp, Via::Run);
    s.check();
    if how == 1 || how == 2 {
        for _ in 0..n / 10 + 2 {
            s.advance_ms(10_000);
            s.check();
        }
    } else {
        for _ in 0..n {
            s.advance_ms(105);
            s.check();
            s.retry('A', "a");
            s.check();
        }
    }
    s.drain();
    s.end()
}
struct Slow {
    p: u8,
    us: u64,
}
#[async_trait]
impl JobPlugin for Slow {
    async fn change_status(&self, job_id: &str, status: JobStatus) {
        log(Ev::Status { plugin: self.p, id: job_id.into(), st: stc(status) });
    }
    async fn before_run(&self, job_id: &str) {
        log(Ev::Ack { what: format!("B{}{job_id}", self.p) });
        actix_rt::time::sleep(std::time::Duration::from_micros(self.us)).await;
        log(Ev::Before { plugin: self.p, id: job_id.into() });
    }
    async fn after_run(&self, job_id: &str) {
        log(Ev::Ack { what: format!("A{}{job_id}", self.p) });
        actix_rt::time::sleep(std::time::Duration::from_micros(self.us)).await;
        log(Ev::After { plugin: self.p, id: job_id.into() });
    }
}

/// Panics in one of its hooks, for one job or for all.
struct Bad {
    hook: usize,
    only: Option<String>,
}
impl Bad {
    fn hit(&self, hook: usize, id: &str) {
        if self.hook == hook && self.only.as_ref().is_none_or(|o| o == id) {
            panic!("scripted panic in a plugin");
        }
    }
}
#[async_trait]
impl JobPlugin for Bad {
    async fn change_status(&self, job_id: &str, _: JobStatus) {
        self.hit(0, job_id)
    }
    async fn before_run(&self, job_id: &str) {
        self.hit(1, job_id)
    }
    async fn after_run(&self, job_id: &str) {
        self.hit(2, job_id)
    }
}
fn c12_bad() {
    let w = World::new(Kind::Mem);
    let hook = choose(3, "hook");
    let only = if choose(2, "all") == 1 { None } else { Some("j1".to_string()) };
    let good = choose(2, "another plugin") == 1;
    if good {
        w.call("register", AJ::register_plugin(Watcher(0)));
    }
    w.call("register", AJ::register_plugin(Bad { hook, only }));
    let acts = [vec![], vec![Act::Fail], vec![Act::Sleep { us: 40_000, ok: true }]];
    let mut want = vec![];
    for i in 0..3 {
        let a = pick(&acts, "act").clone();
        want.push(if a == vec![Act::Fail] { 'X' } else { 'F' });
        let r = w.call("submit", Job::new(Alpha(Data::acts(i as i64, &a))).set_id(format!("j{i}")).run());
        ensure!(matches!(r, Some(Ok(_))), "submission with a panicking plugin answered {r:?}");
        w.advance(*pick(&[0, 110], "gap") * MS);
    }
    w.advance(500 * MS);
    for (i, st) in want.iter().enumerate() {
        let id = format!("j{i}");
        let v = w.get('A', &id);
        ensure!(
            starts('A', &id) == 1 && v.as_ref().is_some_and(|v| v.status == *st && v.run_count == 1),
            "with a plugin that panics job {id} ran {} times and is {:?}, expected one execution and {st}",
            starts('A', &id),
            v.map(|v| v.status)
        );
    }
    done()
}

fn c12_slow() {
    let us = *pick(&[1_000u64, 50_000, 130_000], "hook us");
    let second = choose(2, "second plugin");
    let act = pick(&[Act::Ok, Act::Fail, Act::Sleep { us: 40_000, ok: true }, Act::Yield(2)], "act").clone();
    let n = *pick(&[1usize, 2, 5], "jobs");
    let w = World::new(Kind::Mem);
    for p in 0..=second as u8 {
        w.call("register", AJ::register_plugin(Slow { p, us }));
    }
    for i in 0..n {
        let r = w.call("submit", Job::new(Alpha(Data::acts(i as i64, &[act.clone()]))).set_id(format!("j{i}")).run());
        ensure!(matches!(r, Some(Ok(_))), "submission failed");
    }
    w.advance(1500 * MS);
    let evs = LOG.with(|l| l.borrow().clone());
    for i in 0..n {
        let id = format!("j{i}");
        let mut line = String::new();
        for e in &evs {
            match &e.ev {
                Ev::Ack { what } if what[2..] == id => line.push_str(&what[..2]),
                Ev::Before { plugin, id: x } if *x == id => line.push_str(&format!("b{plugin}")),
                Ev::After { plugin, id: x } if *x == id => line.push_str(&format!("a{plugin}")),
                Ev::Start { id: x, .. } if *x == id => line.push('S'),
                Ev::End { id: x, .. } if *x == id => line.push('E'),
                _ => {}
            }
        }
        let s = line.find('S');
        let e = line.find('E');
        ensure!(
            line.matches('S').count() == 1 && s.is_some() && e.is_some(),
            "job {id}: {line} (upper case: hook begins, lower case: hook ends)"
        );
        for p in 0..=second {
            for (what, want_before) in [(format!("B{p}"), true), (format!("b{p}"), true), (format!("A{p}"), false), (format!("a{p}"), false)] {
                ensure!(line.matches(what.as_str()).count() == 1, "job {id}: {line}: {what} does not happen exactly once");
                let at = line.find(what.as_str()).unwrap();
                ensure!(
                    if want_before { at < s.unwrap() } else { at > e.unwrap() },
                    "job {id}: {line}: {what} on the wrong side of the execution (S..E)"
                );
            }
        }
        let first = evs.iter().find(|x| matches!(&x.ev, Ev::Start { id: y, .. } if *y == id)).unwrap().t;
        let allowed = 105 * MS + (second as i64 + 1) * (us as i64 * 1000 + 2 * MS);
        ensure!(first - crate::clock::BASE.load(std::sync::atomic::Ordering::SeqCst) <= allowed, "job {id} was held up by the hooks of other jobs: started at {:.1} ms", rel(first));
        let v = w.get('A', &id).unwrap();
        ensure!(matches!(v.status, 'F' | 'X') && v.run_count == 1, "job {id} ends as {} after {} runs", v.status, v.run_count);
    }
    done()
}

fn c12_race() {
    let w = World::new(Kind::Mem);
    w.call("register", AJ::register_plugin(Watcher(0)));
    let act = pick(&[Act::Ok, Act::Fail, Act::Yield(1)], "act").clone();
    let ok = act != Act::Fail;
    let mut slots = vec![];
    for c in 0..2 {
        let cl = w.new_client();
        let act = act.clone();
        slots.push(w.spawn(cl, async move { Job::new(Alpha(Data::acts(c, &[act]))).set_id(format!("c{c}")).run().await }));
    }
    w.dev.set(if thorough() { 4 } else { 3 });
    w.advance(102 * MS);
    w.dev.set(0);
    w.advance(300 * MS);
    for s in slots {
        ensure!(matches!(s.take(), Some(Ok(_))), "submission failed");
    }
    let evs = LOG.with(|l| l.borrow().clone());
    for id in ["c0", "c1"] {
        let mut line = String::new();
        let mut st = vec![];
        for e in &evs {
            match &e.ev {
                Ev::Before { id: x, .. } if x == id => line.push('B'),
                Ev::After { id: x, .. } if x == id => line.push('A'),
                Ev::Start { id: x, .. } if x == id => line.push('S'),
                Ev::End { id: x, .. } if x == id => line.push('E'),
                Ev::Status { id: x, st: c, .. } if x == id => st.push(*c),
                _ => {}
            }
        }
        ensure!(line == "BSEA", "job {id}: hooks and execution happened as {line}, expected BSEA");
        st.sort();
        let mut want = vec!['Q', 'R', if ok { 'F' } else { 'X' }];
        want.sort();
        ensure!(st == want, "job {id}: change_status reported {st:?}, expected {want:?} in some order");
    }
    done()
}
