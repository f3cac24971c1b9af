//! Payloads (C19), panicking jobs (C21).
use super::life::{steps, GATE, H};
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::model::*;
use crate::world::*;
use aj::{async_trait, BackgroundJob};
use aj_core::{CronContext, Executable, Job, JobContext, JobType, Retry, RetryStrategy, AJ};
use chrono::Duration;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn suites() -> Vec<Suite> {
    vec![
        q("C19", "c19-ids", "26 unusual ids x 4 ways to submit x both backends: found, executed and cancelled under exactly that id", c19_ids),
        q("C19", "c19-payload", "28 texts x 7 numbers x both backends, through submission, execution with mutation, retry, re-run and update_job", c19_payload),
        q("C19", "c19-shapes", "a payload of every serde shape (options, maps, nested enums, floats, tuples, bytes, unit) executed and read back unchanged", c19_shapes),
        q("C19", "c19-context", "every combination of job type x retry x run_count x timestamps in a caller-supplied context is stored and reported unchanged", c19_context),
        q("C19", "c19-pairs", "two jobs whose ids are similar (case, prefix, whitespace, unicode forms) never share anything", c19_pairs),
        q("C19", "c19-fresh", "ids made by the library are distinct; unknown ids are not found", c19_fresh),
        q("C19", "c19-unstorable", "6 payloads that do not survive serialisation x 4 ways to submit x both backends: refused with an error or executed, never accepted and lost; other jobs go on", c19_unstorable),
        q("C19", "c19-large", "texts of 64 KB and 1.1 MB, plain and of escaped characters, and ids of 300 and 70000 characters x both backends x what happens then", c19_large),
        q("C21", "c21-history", "a panicking job among others: every history of 4 (5) steps; the others, the slots and later submissions are unaffected, the job is Failed", c21_history),
        q("C21", "c21-where", "panic in pre_execute, execute (before and after suspension), post_execute, is_failed_output, retry_at x bystanders x limit", c21_where),
        q("C21", "c21-payload", "panics with a text, a formatted text and other values x kind x both backends", c21_payload),
        q("C21", "c21-many", "n panicking jobs, more than there are slots, mixed with good ones", c21_many),
        q("C21", "c21-late", "a panic in the 2nd to 258th execution of a job (retried, cron, retried by hand), one slot", c21_late),
        q("C21", "c21-long", "one job that panics in each of up to 260 executions, or 260 panicking jobs one after another", c21_long),
        q("C21", "c21-redis", "panicking jobs on the real Redis backend", c21_redis),
    ]
}

fn ids() -> Vec<String> {
    vec![
        "".into(),
        "a".into(),
        " a b ".into(),
        "A:queue:Queued".into(),
        "Alpha:queue:Running".into(),
        "aj_storage".into(),
        "quote\"back\\slash'".into(),
        "line\r\nbreak\ttab\0nul".into(),
        "\u{1F980}\u{e9}e\u{301}\u{202e}".into(),
        "{\"context\":{}}".into(),
        "*".into(),
        "-1".into(),
        "$5\r\nhello\r\n".into(),
        "x".repeat(5000),
        "null".into(),
        "\u{feff}bom\u{feff}".into(),
        "a".repeat(3) + "\u{200b}",
        "\0a\0".into(),
        "\tab\n".into(),
        "/a/b/".into(),
        "'a'".into(),
        "\"a\"".into(),
        "\u{a0}a\u{3000}".into(),
        "#a{b}?c%41&".into(),
        "0x10".into(),
        "007".into(),
    ]
}

fn c19_ids() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let id = pick(&ids(), "id").clone();
    let via = pick(&[Via::Run, Via::JustRun, Via::Add, Via::Enq { re_run: false, over: true }], "via").clone();
    let what = choose(3, "then");
    let mut s = Sim::new(kind);
    s.submit(&Spec::new(&id, Data::acts(5, &[Act::Fail])), via);
    s.submit(&Spec::new("other", Data::n(6)), Via::Run);
    s.check();
    match what {
        0 => {}
        1 => s.cancel('A', &id),
        _ => {
            s.advance_ms(110);
            s.retry('A', &id);
        }
    }
    s.check();
    s.drain();
    s.end()
}

fn texts() -> Vec<String> {
    let mut v = ids();
    v.push("\u{0}\u{1}\u{7f}\u{80}\u{2028}\u{2029}\u{fffd}\u{10ffff}".into());
    v.push("\\u0041 \\n </script> %s %00".into());
    v
}
fn c19_payload() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let text = pick(&texts(), "text").clone();
    let n = *pick(&[0i64, 1, -1, 9_007_199_254_740_993, i64::MAX - 10, i64::MIN, 1 << 40], "n");
    let then = choose(4, "then");
    let d = Data { n, text: text.clone(), acts: vec![Act::Fail, Act::Ok], bump: 1, own_retry: None };
    let mut s = Sim::new(kind);
    let mut sp = Spec::new("a", d.clone());
    if then == 0 {
        sp = sp.retry(Policy::Interval { max: Some(1), ms: 10 });
    }
    s.submit(&sp, Via::Run);
    s.check();
    s.advance_ms(110);
    s.check();
    match then {
        1 => s.retry('A', "a"),
        2 => s.submit(&sp, Via::Run),
        3 => s.update('A', "a", Data { n: n / 2, text: format!("{text}!"), ..Data::default() }, None),
        _ => {}
    }
    s.check();
    s.drain();
    s.end()
}

fn c19_large() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let (unit, len) = *pick(&[("x", 65_500usize), ("x", 66_000), ("x", 1_100_000), ("\n", 40_000), ("\u{1F980}\"", 30_000)], "text");
    let id = "i".repeat(*pick(&[1usize, 300, 70_000], "id"));
    let then = choose(4, "then");
    let text = unit.repeat(len);
    let d = Data { n: 1, text: text.clone(), acts: vec![Act::Fail, Act::Ok], bump: 1, own_retry: None };
    let mut s = Sim::new(kind);
    let sp = Spec::new(&id, d);
    s.submit(&sp, Via::Run);
    s.submit(&Spec::new(&id[..id.len() - 1], Data::n(9)), Via::Run);
    s.check();
    s.advance_ms(110);
    s.check();
    match then {
        1 => s.retry('A', &id),
        2 => s.submit(&sp, Via::Run),
        3 => s.update('A', &id, Data { n: 7, text: format!("{text}!"), ..Data::default() }, None),
        _ => {}
    }
    s.check();
    s.drain();
    s.end()
}

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    #[default]
    Unit,
    New(i32),
    Tuple(u8, String),
    Struct { a: Option<Box<Shape>>, b: Vec<Shape> },
}
#[derive(BackgroundJob, Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Shapes {
    u: u64,
    i: i128,
    f: f64,
    c: char,
    b: bool,
    o: Option<String>,
    oo: Option<Option<u8>>,
    v: Vec<u8>,
    m: BTreeMap<String, Vec<Shape>>,
    t: (i8, (), [u16; 3]),
    e: Shape,
    r: Result<String, i32>,
}
#[async_trait]
impl Executable for Shapes {
    type Output = ();
    async fn execute(&mut self, ctx: &JobContext) {
        log(Ev::Ack { what: format!("{} {}", ctx.job_id, serde_json::to_string(self).unwrap()) });
    }
}

fn c19_shapes() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let u = *pick(&[0u64, u64::MAX, 1 << 53, (1 << 53) + 1], "u");
    let i = *pick(&[0i128, i64::MIN as i128, i128::MAX, i128::MIN], "i");
    let f = *pick(&[0.0f64, -0.5, 1e300, 5e-324, 0.1], "f");
    let c = *pick(&['a', '"', '\u{1F980}', '\n'], "c");
    let (o, oo) = pick(&[(None, None), (Some("".to_string()), Some(Some(0u8))), (Some("x\u{0}y".to_string()), Some(Some(255)))], "o").clone();
    let e = pick(
        &[
            Shape::Unit,
            Shape::New(-5),
            Shape::Tuple(9, "t".into()),
            Shape::Struct { a: Some(Box::new(Shape::New(1))), b: vec![Shape::Unit, Shape::Struct { a: None, b: vec![] }] },
        ],
        "e",
    )
    .clone();
    let mut m = BTreeMap::new();
    m.insert("".to_string(), vec![]);
    m.insert("k \u{e9}".to_string(), vec![e.clone(), Shape::Unit]);
    let s = Shapes { u, i, f, c, b: u > 0, o, oo, v: (0..=255).collect(), m, t: (-8, (), [0, 65535, 7]), e, r: if u > 1 { Err(-1) } else { Ok("ok".into()) } };
    let w = World::new(kind);
    let r = w.call("run", Job::new(s.clone()).set_id("a".into()).run());
    ensure!(matches!(&r, Some(Ok(id)) if id == "a"), "run answered {r:?}");
    let get = |w: &World| w.call("get", AJ::get_job::<Shapes>("a")).flatten();
    let j = get(&w);
    ensure!(j.as_ref().is_some_and(|j| j.data == s), "read back as {:?}, submitted {s:?}", j.map(|j| j.data));
    w.advance(110 * MS);
    let want = format!("a {}", serde_json::to_string(&s).unwrap());
    let runs: Vec<String> = LOG.with(|l| l.borrow().iter().filter_map(|e| if let Ev::Ack { what } = &e.ev { Some(what.clone()) } else { None }).collect());
    ensure!(runs == vec![want.clone()], "executed with {runs:?}, submitted {want}");
    let j = get(&w);
    ensure!(j.as_ref().is_some_and(|j| j.data == s), "after the run read back as {:?}", j.map(|j| j.data));
    crate::explore::leaf(&want, "");
    crate::explore::finish()
}

/// A payload that JSON cannot hold, or that cannot be read back from it.
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
struct Odd {
    f: f64,
    m: BTreeMap<Vec<u8>, u8>,
    deep: serde_json::Value,
    #[serde(serialize_with = "odd_ser", deserialize_with = "odd_de")]
    w: u8,
}
fn odd_ser<S: serde::Serializer>(w: &u8, s: S) -> Result<S::Ok, S::Error> {
    if *w == 1 {
        return Err(serde::ser::Error::custom("not today"));
    }
    s.serialize_u8(*w)
}
fn odd_de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
    let w = u8::deserialize(d)?;
    if w == 2 {
        return Err(serde::de::Error::custom("not today"));
    }
    Ok(w)
}
#[async_trait]
impl Executable for Odd {
    type Output = ();
    async fn execute(&mut self, ctx: &JobContext) {
        log(Ev::Ack { what: ctx.job_id.clone() });
    }
}

fn c19_unstorable() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let good = Odd { f: 0.0, m: BTreeMap::new(), deep: serde_json::Value::Null, w: 0 };
    let what = choose(6, "what");
    let mut odd = good.clone();
    match what {
        0 => odd.f = f64::NAN,
        1 => odd.f = f64::NEG_INFINITY,
        2 => {
            odd.m.insert(vec![1, 2], 3);
        }
        3 => {
            let mut v = serde_json::Value::Null;
            for _ in 0..140 {
                v = serde_json::Value::Array(vec![v]);
            }
            odd.deep = v;
        }
        4 => odd.w = 1,
        _ => odd.w = 2,
    }
    let how = choose(4, "how");
    let w = World::new(kind);
    let get = |w: &World, id: &'static str| w.call("get", AJ::get_job::<Odd>(id)).flatten();
    let runs = |id: &str| LOG.with(|l| l.borrow().iter().filter(|e| matches!(&e.ev, Ev::Ack { what } if what == id)).count());
    let later = how == 3;
    let before = Job::new(good.clone()).set_id("b".into());
    let r = w.call("run", before.run());
    ensure!(matches!(&r, Some(Ok(id)) if id == "b"), "run answered {r:?}");
    let job = Job::new(odd.clone()).set_id("a".into());
    let accepted = match how {
        0 => w.call("run", job.run()).is_some_and(|r| r.is_ok()),
        1 => {
            job.just_run();
            false
        }
        2 => w.call("enqueue_job", AJ::enqueue_job(job, aj_core::EnqueueConfig::new_skip_if_finished(), Odd::queue_name())).is_some_and(|r| r.is_ok()),
        _ => {
            // an update of the job that waits
            let r = w.call("update_job", AJ::update_job::<Odd>("b", odd, None));
            r.is_some_and(|r| r.is_ok())
        }
    };
    w.advance(330 * MS);
    if later {
        ensure!(runs("b") == 1, "update_job with such a payload answered {}, the job was executed {} times", if accepted { "ok" } else { "an error" }, runs("b"));
        ensure!(get(&w, "b").is_some(), "after update_job with such a payload the job is not found");
    } else {
        ensure!(runs("a") <= 1 && (!accepted || runs("a") == 1), "the submission was accepted ({accepted}), the job was executed {} times", runs("a"));
        ensure!(!accepted || get(&w, "a").is_some(), "the submission was accepted, the job is not found");
        ensure!(runs("b") == 1, "another job was executed {} times", runs("b"));
        ensure!(get(&w, "b").is_some(), "another job is not found");
    }
    // the type goes on
    let r = w.call("run", Job::new(good.clone()).set_id("c".into()).run());
    ensure!(matches!(&r, Some(Ok(id)) if id == "c"), "afterwards run answered {r:?}");
    w.advance(220 * MS);
    ensure!(runs("c") == 1, "a job submitted afterwards was executed {} times", runs("c"));
    crate::explore::leaf(&format!("{what} {how} {accepted}"), "");
    crate::explore::finish()
}

fn c19_context() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let base = now();
    // dates are kept to the microsecond
    let far = dt((base + 86_400_000 * MS).div_euclid(1000) * 1000 + 123_456_000);
    let jt = pick(
        &[
            JobType::ScheduledAt(far),
            JobType::Cron("0 0 0 * * * *".into(), far, 4, CronContext { tick_number: 3, max_repeat: Some(9), end_at: Some(far + Duration::days(9)) }),
            JobType::Cron("0 0 0 * * * *".into(), far, 1, CronContext::default()),
            JobType::Cron("0 0 0 * * * *".into(), far, i32::MAX - 1, CronContext { tick_number: i32::MAX, max_repeat: Some(i32::MAX), end_at: None }),
            JobType::Cron("0 0 0 * * * *".into(), far, -1, CronContext { tick_number: -2, max_repeat: Some(1_001), end_at: None }),
        ],
        "type",
    )
    .clone();
    let retry = pick(
        &[
            None,
            Some(Retry::default()),
            Some(Retry::new(2, None, RetryStrategy::ExponentialBackoff(Duration::microseconds(1_500_001)))),
            Some(Retry::new(0, Some(7), RetryStrategy::Interval(Duration::days(400)))),
            Some(Retry::new(1, Some(0), RetryStrategy::Interval(Duration::microseconds(2_000_999)))),
            Some(Retry::new(0, None, RetryStrategy::Interval(Duration::microseconds(1)))),
        ],
        "retry",
    )
    .clone();
    let run_count = *pick(&[0usize, 1, 77, u32::MAX as usize], "run_count");
    let stamps = *pick(&[(None, None, None), (Some(1), Some(2), Some(3)), (Some(-5), None, Some(i64::MAX))], "stamps");
    let mut c = JobContext::new("a".into());
    c.job_type = jt.clone();
    c.retry = retry.clone();
    c.run_count = run_count;
    c.created_at = 12345;
    (c.run_at, c.complete_at, c.cancel_at) = stamps;
    let w = World::new(kind);
    let how = choose(4, "how");
    if how == 3 {
        // the id of the context is the id of the job, whatever it is
        for id in ["", " ", "b"] {
            let mut c = c.clone();
            c.job_id = id.into();
            let r = w.call("run", Job::new(Alpha(Data::n(1))).context(c).run());
            ensure!(matches!(&r, Some(Ok(got)) if got == id), "run of a job with the context of id {id:?} answered {r:?}");
            ensure!(w.get('A', id).is_some(), "job {id:?} is not found");
        }
        done()
    }
    let job = Job::new(Alpha(Data::n(1))).set_context(c.clone());
    let r = w.call("run", job.run());
    ensure!(matches!(&r, Some(Ok(id)) if id == "a"), "run answered {r:?}");
    let mut c2 = c.clone();
    if how > 0 {
        // through update_job, of a waiting or of a cancelled job
        if how == 2 {
            w.call("cancel", AJ::cancel_job::<Alpha>("a".into()));
        }
        c2.run_count += 1;
        c2.created_at = 999;
        let c3 = c2.clone();
        let r = w.call("update", async move { AJ::update_job("a", Alpha(Data::n(1)), Some(c3)).await });
        ensure!(matches!(r, Some(Ok(()))), "update_job answered {r:?}");
    }
    w.advance(210 * MS);
    let Some(v) = w.get('A', "a") else { violate("not found".into()) };
    let mut want = View::of(&c2, Data::n(1));
    want.enqueue_at = v.enqueue_at;
    ensure!(v == want, "context supplied {want:?}, reported {v:?}");
    ensure!(starts('A', "a") == 0, "ran a day early");
    done()
}

fn c19_pairs() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let (a, b) = *pick(
        &[("a", "A"), ("a", "a "), ("a", "aa"), ("", " "), ("\u{e9}", "e\u{301}"), ("a:b", "a"), ("1", "01"), ("1", "1.0"), ("x\0y", "x"), ("a\n", "a"), ("a\0", "a"), ("/a", "a"), ("a%41", "aA"), ("\"a\"", "a"), ("\u{a0}a", "a")],
        "ids",
    );
    let ka = pick(&[Act::Ok, Act::Fail], "outcome").clone();
    let mut s = Sim::new(kind);
    s.submit(&Spec::new(a, Data::acts(1, &[ka])), Via::Run);
    s.submit(&Spec::new(b, Data::acts(2, &GATE)), Via::Run);
    s.check();
    match choose(3, "then") {
        0 => s.cancel('A', b),
        1 => s.cancel('A', a),
        _ => {}
    }
    s.check();
    s.advance_ms(110);
    s.check();
    s.retry('A', a);
    s.check();
    s.drain();
    s.end()
}

fn c19_fresh() {
    let n = *pick(&[2usize, 20, 60, 200_000], "jobs");
    if n == 200_000 {
        // built, not run: ids shorter than 36 bits or so collide here
        let mut seen = std::collections::HashSet::new();
        for i in 0..n {
            let j = Alpha(Data::n(i as i64)).job();
            ensure!(seen.insert(j.id().to_string()), "id {} was given to two jobs", j.id());
        }
        crate::explore::leaf("built", "");
        crate::explore::finish()
    }
    let w = World::new(*pick(&[Kind::Mem, Kind::Redis], "backend"));
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..n {
        let r = w.call("run", Alpha(Data::n(i as i64)).job().run());
        let Some(Ok(id)) = r else { violate(format!("run answered {r:?}")) };
        ensure!(seen.insert(id.clone()), "id {id} was given to two jobs");
    }
    ensure!(w.get('A', "no such id").is_none(), "an unknown id is found");
    w.advance(700 * MS);
    for id in &seen {
        ensure!(starts('A', id) == 1, "job {id} ran {} times", starts('A', id));
    }
    crate::explore::leaf(&format!("{n}"), "");
    crate::explore::finish()
}

// ---- panics ----

fn panickers() -> Vec<Spec> {
    vec![
        Spec::new("a", Data::acts(1, &[Act::Panic])),
        Spec::new("a", Data::acts(1, &[Act::Panic, Act::Ok])),
        Spec::new("a", Data::acts(1, &[Act::SleepPanic { us: 120_000 }, Act::Ok])),
        Spec::new("a", Data::acts(1, &[Act::Fail, Act::Panic])).retry(Policy::Interval { max: Some(3), ms: 50 }),
        Spec::new("a", Data::acts(1, &[Act::Panic])).when(When::In(130_000)),
        Spec::new("a", Data::acts(1, &[Act::Ok, Act::Panic, Act::Ok])).when(When::Cron { expr: "* * * * * * *".into(), max: None, end_ms: None }),
        Spec::new("a", Data::acts(1, &[Act::SleepPanic { us: 1_020_000 }])).when(When::Cron { expr: "* * * * * * *".into(), max: Some(2), end_ms: None }),
        Spec::new("a", Data::acts(1, &[Act::Fail, Act::Panic])).retry(Policy::Interval { max: None, ms: 30 }).when(When::Cron { expr: "* * * * * * *".into(), max: None, end_ms: None }),
    ]
}

fn c21_history() {
    let spec = pick(&panickers(), "kind").clone();
    let limit = *pick(&[1usize, 2], "limit");
    let mut s = Sim::new(Kind::Mem);
    s.submit(&spec, Via::Run);
    s.configure('A', limit, 100);
    s.submit(&Spec::new("b", Data::acts(2, &GATE)), Via::Run);
    s.submit(&Spec::new("c", Data::acts(3, &[Act::Sleep { us: 150_000, ok: true }])), Via::Run);
    s.check();
    let sb = Spec::new("b", Data::acts(2, &GATE));
    let al = [H::Adv(100), H::Adv(50), H::Retry("a"), H::Sub(0, Via::Run), H::Sub(1, Via::Run), H::Cancel("a"), H::Rel("b", true)];
    steps(&mut s, &[spec, sb], &al, if thorough() { 5 } else { 4 });
    s.drain();
    for i in 0..limit + 1 {
        s.submit(&Spec::new(&format!("p{i}"), Data::acts(9, &GATE)), Via::Run);
    }
    s.advance_ms(110);
    ensure!(s.queues[&'A'].running.len() == limit, "after the panic {} of {limit} slots are usable", s.queues[&'A'].running.len());
    s.drain();
    s.end()
}

#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct Touchy {
    at: u8,
    sleep: bool,
}
impl Touchy {
    async fn maybe(&self, here: u8) {
        if self.at == here {
            if self.sleep {
                actix_rt::time::sleep(std::time::Duration::from_millis(30)).await;
            }
            panic!("scripted panic at {here}");
        }
    }
}
#[async_trait]
impl Executable for Touchy {
    type Output = u8;
    async fn pre_execute(&mut self, _: &JobContext) {
        self.maybe(0).await
    }
    async fn execute(&mut self, ctx: &JobContext) -> u8 {
        log(Ev::Ack { what: format!("run {}", ctx.job_id) });
        self.maybe(1).await;
        0
    }
    async fn post_execute(&mut self, o: u8, _: &JobContext) -> u8 {
        self.maybe(2).await;
        o
    }
    async fn is_failed_output(&self, _: &u8) -> bool {
        self.maybe(3).await;
        false
    }
    async fn retry_at(&self, _: &mut Retry, _: u8) -> Option<chrono::DateTime<chrono::Utc>> {
        self.maybe(4).await;
        None
    }
}

fn c21_where() {
    let at = choose(5, "where") as u8;
    let sleep = choose(2, "suspended") == 1;
    let limit = *pick(&[1usize, 2, 20], "limit");
    let good = *pick(&[0usize, 1, 3], "bystanders");
    let bad = 1 + choose(3, "panicking");
    let w = World::new(Kind::Mem);
    w.call("register", Job::new(Touchy { at: 9, sleep: false }).set_id("w".into()).run());
    w.call(
        "configure",
        AJ::update_work_queue::<Touchy>(aj_core::WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(100), max_processing_jobs: limit }),
    );
    for i in 0..bad {
        let mut j = Job::new(Touchy { at, sleep }).set_id(format!("bad{i}"));
        if at == 4 {
            j = j.retry(Retry::default());
        }
        let r = w.call("submit", j.run());
        ensure!(matches!(r, Some(Ok(_))), "submission answered {r:?}");
    }
    for i in 0..good {
        let r = w.call("submit", Job::new(Touchy { at: 9, sleep: false }).set_id(format!("good{i}")).run());
        ensure!(matches!(r, Some(Ok(_))), "submission answered {r:?}");
    }
    w.advance((bad + good) as i64 * 200 * MS + 400 * MS);
    let status = |id: String| w.call("get", async move { AJ::get_job::<Touchy>(&id).await }).flatten().map(|j| stc(j.context.job_status));
    for i in 0..bad {
        let s = status(format!("bad{i}"));
        ensure!(s == Some('X'), "panicking job bad{i} ends as {s:?}, expected Failed");
    }
    for i in 0..good {
        let s = status(format!("good{i}"));
        ensure!(s == Some('F'), "job good{i} ends as {s:?}");
    }
    let r = w.call("submit", Job::new(Touchy { at: 9, sleep: false }).set_id("later".into()).run());
    ensure!(matches!(r, Some(Ok(_))), "a later submission answered {r:?}");
    w.advance(210 * MS);
    let s = status("later".into());
    ensure!(s == Some('F'), "a later job ends as {s:?}");
    done()
}

fn c21_many() {
    let n = *pick(&[1i64, 3, 20, 21, 41], "panicking");
    let good = *pick(&[1i64, 5, 21], "good");
    let limit = *pick(&[1usize, 3, 20], "limit");
    let act = pick(&[Act::Panic, Act::SleepPanic { us: 50_000 }], "act").clone();
    let first = choose(2, "good first") == 1;
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, 100);
    let bads = |s: &mut Sim| {
        for i in 0..n {
            s.submit(&Spec::new(&format!("b{i}"), Data::acts(i, &[act.clone()])), Via::Run);
        }
    };
    if !first {
        bads(&mut s);
    }
    for i in 0..good {
        s.submit(&Spec::new(&format!("g{i}"), Data::n(i)), Via::Run);
    }
    if first {
        bads(&mut s);
    }
    s.drain();
    s.end()
}

fn c21_payload() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let spec = pick(&panickers(), "kind").clone();
    let n = choose(4, "value") as i64;
    let mut s = Sim::new(kind);
    let spec = Spec { data: Data { n, ..spec.data.clone() }, ..spec };
    s.submit(&spec, Via::Run);
    s.submit(&Spec::new("b", Data::acts(2, &GATE)), Via::Run);
    for _ in 0..4 {
        s.advance_ms(400);
        s.check();
    }
    s.retry('A', "a");
    s.advance_ms(110);
    s.drain();
    s.end()
}
fn c21_late() {
    let k = *pick(&[1usize, 2, 3, 4, 5, 9, 17, 33, 65, 129, 257], "executions before");
    let how = choose(3, "how");
    let last = pick(&[Act::Panic, Act::SleepPanic { us: 5_000 }], "act").clone();
    let mut acts = vec![if how == 0 { Act::Fail } else { Act::Ok }; k];
    acts.push(last);
    let d = Data { n: choose(4, "value") as i64, acts, ..Data::default() };
    let sp = match how {
        0 => Spec::new("a", d).retry(Policy::Interval { max: None, ms: 50 }),
        1 => Spec::new("a", d).when(When::Cron { expr: "* * * * * * *".into(), max: None, end_ms: None }),
        _ => Spec::new("a", d),
    };
    let mut s = Sim::new(Kind::Mem);
    s.submit(&sp, Via::Run);
    s.configure('A', 1, 100);
    for _ in 0..3_000 {
        match s.status('A', "a") {
            'X' => break,
            'F' => s.retry('A', "a"),
            _ => s.advance_ms(100),
        }
    }
    s.check();
    ensure!(s.status('A', "a") == 'X' && starts('A', "a") == k + 1, "after {} executions the job is {}", starts('A', "a"), s.status('A', "a"));
    s.submit(&Spec::new("g", Data::n(1)), Via::Run);
    s.advance_ms(110);
    s.check();
    s.retry('A', "a");
    s.advance_ms(110);
    s.check();
    s.end()
}
fn c21_long() {
    let n = *pick(&[20usize, 66, 130, 260], "times");
    let one = choose(2, "one job") == 1;
    let limit = *pick(&[1usize, 3, 20], "limit");
    let act = pick(&[Act::Panic, Act::SleepPanic { us: 5_000 }], "act").clone();
    let mut s = Sim::new(Kind::Mem);
    s.submit(&Spec::new("w", Data::n(0)), Via::Run);
    s.configure('A', limit, 100);
    s.advance_ms(120);
    for i in 0..n {
        let id = if one { "a".to_string() } else { format!("a{i}") };
        s.submit(&Spec::new(&id, Data::acts(i as i64, &[act.clone()])), Via::Run);
        s.advance_ms(120);
        ensure!(s.status('A', &id) == 'X', "after its panic number {i} the job is {}", s.status('A', &id));
    }
    s.submit(&Spec::new("g", Data::n(1)), Via::Run);
    s.advance_ms(110);
    s.check();
    ensure!(s.status('A', "g") == 'F', "after {n} panics a good job is {}", s.status('A', "g"));
    s.end()
}
fn c21_redis() {
    let spec = pick(&panickers(), "kind").clone();
    let mut s = Sim::new(Kind::Redis);
    s.submit(&spec, Via::Run);
    s.submit(&Spec::new("b", Data::acts(2, &GATE)), Via::Run);
    steps(&mut s, &[spec], &[H::Adv(100), H::Retry("a"), H::Rel("b", true), H::Sub(0, Via::Run)], 3);
    s.drain();
    s.end()
}
