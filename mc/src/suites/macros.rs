//! The job macro (C20).
use super::data::Shape;
use super::*;
use crate::backend::Kind;
use crate::cli::thorough;
use crate::ensure;
use crate::explore::{choose, pick};
use crate::world::*;
use aj::job;
use aj_core::{CronContext, JobContext, JobType, Retry, AJ};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C20", "c20-calls", "16 annotated functions (0..9 arguments, sync, async, suspending, returning) x 4 generated entry points x argument values: body runs once per call with exactly those arguments", c20_calls),
        q("C20", "c20-many", "two generated jobs interleaved: 3 (4) calls, every assignment of functions, entry points and arguments", c20_many),
        q("C20", "c20-context", "run_with_context: id, schedule, cron and retry of the given context are honoured", c20_context),
        q("C20", "c20-direct", "annotated functions called as plain functions, with and without a job of one of them waiting", c20_direct),
        q("C20", "c20-same-name", "two annotated functions of one name in two modules, or of names that differ in an underscore", c20_same_name),
        q("C20", "c20-redis", "generated jobs on the real Redis backend", c20_redis),
    ]
}

fn rec(what: String) {
    log(Ev::Ack { what });
}

#[job]
fn zero() {
    rec("zero()".into());
}
#[job]
fn one_arg(name: String) {
    rec(format!("one_arg({name:?})"));
}
#[job]
async fn async_one(value: i64) {
    rec(format!("async_one({value:?})"));
}
#[job]
async fn two(first: i32, second: i32) -> i32 {
    rec(format!("two({first:?}, {second:?})"));
    first.wrapping_sub(second)
}
#[job]
async fn same_types(a: String, b: String, c: String) {
    rec(format!("same_types({a:?}, {b:?}, {c:?})"));
}
#[job]
async fn suspending_job(ms: u64, tag: Option<String>) -> Result<u64, String> {
    actix_rt::time::sleep(std::time::Duration::from_millis(ms)).await;
    rec(format!("suspending_job({ms:?}, {tag:?})"));
    if ms > 20 {
        Err("late".into())
    } else {
        Ok(ms)
    }
}
#[job]
fn four_args_of_kinds(v: Vec<i32>, t: (u8, bool), s: Shape, z: f64) -> Vec<i32> {
    rec(format!("four_args_of_kinds({v:?}, {t:?}, {s:?}, {z:?})"));
    v
}
#[job]
async fn consume(mut_like: String, times: usize) {
    let mut x = mut_like;
    for _ in 0..times {
        x.push('+');
        actix_rt::task::yield_now().await;
    }
    rec(format!("consume({x:?}, {times:?})"));
}

#[job]
pub async fn trailing(
    /* kept in this order */ z_last: u8,
    a_first: u8,
) -> (u8, u8) {
    rec(format!("trailing({z_last:?}, {a_first:?})"));
    (z_last, a_first)
}
/// Names the generated code uses itself.
#[job]
fn names(msg: String, job_id: String, _context: u8) -> String {
    rec(format!("names({msg:?}, {job_id:?}, {_context:?})"));
    msg + &job_id
}
#[job]
async fn contexts(context: String, fn_name: i8) {
    rec(format!("contexts({context:?}, {fn_name:?})"));
}
#[job]
fn mutable(mut text: String, mut v: Vec<u8>) -> usize {
    text.push('!');
    v.push(9);
    rec(format!("mutable({text:?}, {v:?})"));
    v.len()
}
#[job]
#[allow(clippy::too_many_arguments)]
async fn nine(a: u8, b: u8, c: String, d: String, e: bool, f: bool, g: Option<u8>, h: Option<u8>, i: (u8, u8)) {
    rec(format!("nine({a:?}, {b:?}, {c:?}, {d:?}, {e:?}, {f:?}, {g:?}, {h:?}, {i:?})"));
}
/// One name, two functions.
mod here {
    use super::*;
    #[job]
    pub fn same_name(x: u8) {
        rec(format!("here::same_name({x:?})"));
    }
}
#[job]
fn part1(x: u8) -> u8 {
    rec(format!("part1({x:?})"));
    x
}
#[job]
fn part2(x: u8) -> u8 {
    rec(format!("part2({x:?})"));
    x
}
#[job]
#[allow(non_snake_case)]
fn Part_of_it(x: u8) {
    rec(format!("Part_of_it({x:?})"));
}
/// Names that differ, for the compiler.
#[job]
fn alike1(x: u8) {
    rec(format!("alike1({x:?})"));
}
#[job]
fn alike_1(x: u8) {
    rec(format!("alike_1({x:?})"));
}
mod there {
    use super::*;
    #[job]
    pub fn same_name(x: u8) {
        rec(format!("there::same_name({x:?})"));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    Run,
    JustRun,
    RunCtx,
    JustRunCtx,
}
const ENTRIES: [Entry; 4] = [Entry::Run, Entry::JustRun, Entry::RunCtx, Entry::JustRunCtx];

macro_rules! enter {
    ($w:expr, $e:expr, $ctx:expr, $f:ident ( $($a:expr),* )) => {{
        let c: JobContext = $ctx;
        let id = c.job_id.clone();
        match $e {
            Entry::Run => match $w.call(stringify!($f::run), $f::run($($a),*)) {
                Some(Ok(id)) => id,
                o => violate(format!("{}::run answered {o:?}", stringify!($f))),
            },
            Entry::JustRun => {
                $w.call(stringify!($f::just_run), async move { $f::just_run($($a),*) });
                String::new()
            }
            Entry::RunCtx => match $w.call(stringify!($f::run_with_context), $f::run_with_context($($a,)* c)) {
                Some(Ok(got)) => {
                    ensure!(got == id, "run_with_context returned id {got:?}, the context has {id:?}");
                    got
                }
                o => violate(format!("{}::run_with_context answered {o:?}", stringify!($f))),
            },
            Entry::JustRunCtx => {
                $w.call(stringify!($f::just_run_with_context), async move { $f::just_run_with_context($($a,)* c) });
                id
            }
        }
    }};
}

fn st(i: usize) -> String {
    ["", "Rodgers", "a \"b\" \u{e9}\n"][i].into()
}

/// Calls function number `k` with argument set `v`; returns (id, expected record).
fn call_fn(w: &World, k: usize, v: usize, e: Entry, ctx: JobContext) -> (String, String) {
    let e_ = e;
    match k {
        0 => (enter!(w, e, ctx, zero()), "zero()".into()),
        1 => (enter!(w, e, ctx, one_arg(st(v))), format!("one_arg({:?})", st(v))),
        2 => {
            let x = [0i64, i64::MIN, 42][v];
            (enter!(w, e, ctx, async_one(x)), format!("async_one({x:?})"))
        }
        3 => {
            let (a, b) = [(1, 2), (2, 1), (-7, i32::MAX)][v];
            (enter!(w, e, ctx, two(a, b)), format!("two({a:?}, {b:?})"))
        }
        4 => {
            let (a, b, c) = (st(v), st((v + 1) % 3), st((v + 2) % 3));
            let want = format!("same_types({a:?}, {b:?}, {c:?})");
            (enter!(w, e, ctx, same_types(a, b, c)), want)
        }
        5 => {
            let ms = [0u64, 20, 50][v];
            let tag = [None, Some("t".to_string()), Some(String::new())][v].clone();
            let want = format!("suspending_job({ms:?}, {tag:?})");
            (enter!(w, e, ctx, suspending_job(ms, tag)), want)
        }
        6 => {
            let vv = [vec![], vec![1], vec![3, 2, 1]][v].clone();
            let t = [(0u8, false), (255, true), (7, true)][v];
            let s = [Shape::Unit, Shape::New(3), Shape::Tuple(1, "z".into())][v].clone();
            let z = [0.0, -1.5, 1e9][v];
            let want = format!("four_args_of_kinds({vv:?}, {t:?}, {s:?}, {z:?})");
            (enter!(w, e, ctx, four_args_of_kinds(vv, t, s, z)), want)
        }
        8 => {
            let (a, b) = [(0u8, 1u8), (2, 1), (255, 255)][v];
            (enter!(w, e, ctx, trailing(a, b)), format!("trailing({a:?}, {b:?})"))
        }
        9 => {
            let (a, b) = (st(v), st((v + 1) % 3));
            let want = format!("names({a:?}, {b:?}, 3)");
            (enter!(w, e, ctx, names(a, b, 3)), want)
        }
        10 => {
            let (a, c, e, g) = ([0u8, 1, 255][v], st(v), v == 1, [None, Some(0u8), Some(9)][v]);
            let (b, d, f, h, i) = (a.wrapping_add(1), st((v + 1) % 3), !e, g.map_or(Some(3), |_| None), (a, 77));
            let want = format!("nine({a:?}, {b:?}, {c:?}, {d:?}, {e:?}, {f:?}, {g:?}, {h:?}, {i:?})");
            (enter!(w, e_, ctx, nine(a, b, c, d, e, f, g, h, i)), want)
        }
        11 => {
            let (a, b) = (st(v), [0i8, -128, 127][v]);
            let want = format!("contexts({a:?}, {b:?})");
            (enter!(w, e, ctx, contexts(a, b)), want)
        }
        12 => {
            let (a, b) = (st(v), vec![v as u8; v]);
            let mut all = b.clone();
            all.push(9);
            let want = format!("mutable({:?}, {all:?})", a.clone() + "!");
            (enter!(w, e, ctx, mutable(a, b)), want)
        }
        13 => (enter!(w, e, ctx, part1(v as u8)), format!("part1({v})")),
        14 => (enter!(w, e, ctx, part2(v as u8)), format!("part2({v})")),
        15 => (enter!(w, e, ctx, Part_of_it(v as u8)), format!("Part_of_it({v})")),
        _ => {
            let t = [0usize, 1, 3][v];
            let want = format!("consume({:?}, {t:?})", st(v) + &"+".repeat(t));
            (enter!(w, e, ctx, consume(st(v), t)), want)
        }
    }
}

fn records() -> Vec<(i64, String)> {
    LOG.with(|l| {
        l.borrow().iter().filter_map(|e| if let Ev::Ack { what } = &e.ev { Some((e.t, what.clone())) } else { None }).collect()
    })
}
fn bag(v: Vec<String>) -> Vec<String> {
    let mut v = v;
    v.sort();
    v
}
fn generated_status(w: &World, k: usize, id: &str) -> Option<(char, usize)> {
    generated(w, k, id).map(|c| (stc(c.job_status), c.run_count))
}
fn generated(w: &World, k: usize, id: &str) -> Option<JobContext> {
    macro_rules! g {
        ($t:ty) => {{
            let id = id.to_string();
            w.call("get_job", async move { AJ::get_job::<$t>(&id).await }).flatten().map(|j| j.context)
        }};
    }
    match k {
        0 => g!(zero::JobZero),
        1 => g!(one_arg::JobOneArg),
        2 => g!(async_one::JobAsyncOne),
        3 => g!(two::JobTwo),
        4 => g!(same_types::JobSameTypes),
        5 => g!(suspending_job::JobSuspendingJob),
        6 => g!(four_args_of_kinds::JobFourArgsOfKinds),
        8 => g!(trailing::JobTrailing),
        9 => g!(names::JobNames),
        10 => g!(nine::JobNine),
        11 => g!(contexts::JobContexts),
        12 => g!(mutable::JobMutable),
        13 => g!(part1::JobPart1),
        14 => g!(part2::JobPart2),
        15 => g!(Part_of_it::JobPartOfIt),
        _ => g!(consume::JobConsume),
    }
}

fn macro_calls(kind: Kind, fns: usize) -> ! {
    let k = choose(fns, "function");
    let v = choose(3, "arguments");
    let e = *pick(&ENTRIES, "entry");
    let w = World::new(kind);
    let (id, want) = call_fn(&w, k, v, e, JobContext::new("ctx".into()));
    ensure!(records().is_empty(), "the body ran before the job was picked: {:?}", records());
    w.advance(350 * MS);
    let got: Vec<String> = records().into_iter().map(|r| r.1).collect();
    ensure!(got == vec![want.clone()], "the function ran as {got:?}, expected once {want}");
    if !id.is_empty() {
        let s = generated_status(&w, k, &id);
        ensure!(s == Some(('F', 1)), "job of {want}: status and run_count {s:?}");
    }
    crate::explore::leaf(&format!("{want} {e:?}"), &want);
    crate::explore::finish()
}
fn c20_calls() {
    macro_calls(Kind::Mem, 16)
}
/// The annotated function itself is still a plain function.
fn c20_direct() {
    let w = World::new(Kind::Mem);
    let k = choose(5, "function");
    let queued = choose(2, "job before") == 1;
    if queued {
        w.call("run", two::run(7, 3));
    }
    let n = records().len();
    let want = match k {
        0 => {
            zero();
            "zero()".to_string()
        }
        1 => {
            one_arg("x".into());
            "one_arg(\"x\")".to_string()
        }
        2 => {
            let r = w.call("two", two(5, 9));
            ensure!(r == Some(-4), "two(5, 9) called as a function returned {r:?}");
            "two(5, 9)".to_string()
        }
        3 => {
            let r = w.call("trailing", trailing(5, 9));
            ensure!(r == Some((5, 9)), "trailing(5, 9) called as a function returned {r:?}");
            "trailing(5, 9)".to_string()
        }
        _ => {
            let r = names("a".into(), "b".into(), 1);
            ensure!(r == "ab", "names(a, b) called as a function returned {r:?}");
            "names(\"a\", \"b\", 1)".to_string()
        }
    };
    ensure!(records().len() == n + 1 && records()[n].1 == want, "called as a function: {:?}", records());
    w.advance(350 * MS);
    let got = bag(records().into_iter().map(|r| r.1).collect());
    let mut all = vec![want];
    if queued {
        all.push("two(7, 3)".into());
    }
    ensure!(got == bag(all.clone()), "ran {got:?}, called {all:?}");
    crate::explore::leaf(&format!("{got:?}"), "");
    crate::explore::finish()
}
/// Annotated functions in different modules may have the same name.
fn c20_same_name() {
    let w = World::new(Kind::Mem);
    if choose(2, "which") == 1 {
        let r = w.call("first", alike1::run(1));
        ensure!(matches!(r, Some(Ok(_))), "the first function: {r:?}");
        w.call("second", alike_1::run(2));
        w.advance(350 * MS);
        let got = bag(records().into_iter().map(|r| r.1).collect());
        ensure!(got.contains(&"alike1(1)".to_string()) && !got.contains(&"alike1(2)".to_string()), "the first of two functions ran as {got:?}");
        ensure!(got.contains(&"alike_1(2)".to_string()), "alike names: of alike1 and alike_1 the second one used does not run: {got:?}");
        crate::explore::finish()
    }
    let e = choose(2, "entry");
    let r = w.call("here", here::same_name::run(1));
    ensure!(matches!(r, Some(Ok(_))), "the first function: {r:?}");
    if e == 0 {
        let r = w.call("there", there::same_name::run(2));
        ensure!(r.is_some(), "the second function was never answered");
    } else {
        w.call("there", async { there::same_name::just_run(2) });
    }
    w.call("another", zero::run());
    w.advance(350 * MS);
    let got = bag(records().into_iter().map(|r| r.1).collect());
    for x in ["here::same_name(1)", "zero()"] {
        ensure!(got.contains(&x.to_string()), "{x} did not run: {got:?}");
    }
    ensure!(!got.contains(&"here::same_name(2)".to_string()), "one function ran with the arguments of another");
    ensure!(got.contains(&"there::same_name(2)".to_string()), "same name: the second of two annotated functions with one name in two modules does not run: {got:?}");
    crate::explore::leaf(&format!("{got:?}"), "");
    crate::explore::finish()
}
fn c20_redis() {
    macro_calls(Kind::Redis, 16)
}
fn c20_many() {
    let w = World::new(Kind::Mem);
    let n = if thorough() { 4 } else { 3 };
    let mut want = vec![];
    for i in 0..n {
        let k = if thorough() { *pick(&[1usize, 5, 14], "function") } else { *pick(&[1usize, 3, 5, 13, 14], "function") };
        let v = choose(2, "arguments");
        let e = *pick(&ENTRIES, "entry");
        let (_, x) = call_fn(&w, k, v, e, JobContext::new(format!("ctx{i}")));
        want.push(x);
    }
    w.advance(350 * MS);
    let got = bag(records().into_iter().map(|r| r.1).collect());
    ensure!(got == bag(want.clone()), "functions ran as {got:?}, called were {want:?}");
    crate::explore::leaf(&format!("{got:?}"), "");
    crate::explore::finish()
}
fn c20_context() {
    let k = choose(16, "function");
    let e = *pick(&[Entry::RunCtx, Entry::JustRunCtx], "entry");
    let w = World::new(Kind::Mem);
    let id = *pick(&["my id", ""], "id");
    let mut c = JobContext::new(id.into());
    let mode = choose(4, "context");
    let due = now() + 250 * MS;
    match mode {
        0 => {}
        1 => c.job_type = JobType::ScheduledAt(dt(due)),
        2 => c.job_type = JobType::new_cron("* * * * * * *", CronContext { tick_number: 0, max_repeat: Some(2), end_at: None }).unwrap(),
        _ => {
            c.retry = Some(Retry::default());
            c.run_count = 4;
        }
    }
    let (retry, created) = (format!("{:?}", c.retry), c.created_at);
    // the context is older than the call
    w.advance(7 * MS);
    let (_, want) = call_fn(&w, k, 1, e, c);
    let early = w.call("none", async {}).is_some();
    ensure!(early, "client cannot run");
    w.advance(3_500 * MS);
    let got = records();
    let runs = if mode == 2 { 2 } else { 1 };
    ensure!(got.len() == runs && got.iter().all(|g| g.1 == want), "ran {got:?}, expected {runs} times {want}");
    if mode == 1 {
        ensure!(got[0].0 >= due && got[0].0 <= due + 160 * MS, "scheduled for {:.3}, ran at {:.3}", rel(due), rel(got[0].0));
    }
    if mode == 2 {
        let d = got[1].0 - got[0].0;
        ensure!((800 * MS..1200 * MS).contains(&d), "cron runs {:.3} ms apart", d as f64 / 1e6);
    }
    let s = generated_status(&w, k, id);
    let want_runs = match mode {
        2 => 2,
        3 => 5,
        _ => 1,
    };
    ensure!(s == Some(('F', want_runs)), "status and run_count {s:?}, expected F {want_runs}");
    let g = generated(&w, k, id).map(|c| (format!("{:?}", c.retry), c.created_at));
    ensure!(g == Some((retry.clone(), created)), "the job has retry policy and creation time {g:?}, the context has {retry} and {created}");
    crate::explore::leaf(&format!("{want} {e:?} {mode}"), &want);
    crate::explore::finish()
}

