//! Command line: `mc check <ID>`, `mc replay <file>`, `mc list`.
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;

use serde_json::{json, Value};

use crate::explore::{self, sh};
use crate::suites::{self, Suite};
use crate::{clock, world};

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{i}");
        }
    }));
    actix_rt::mc::init();
    let _ = world::now();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("suite") => one(&args[2]),
        Some("replay") => replay(&args[2]),
        Some("list") => {
            for s in suites::all() {
                println!("{} {}{}", s.property, s.name, if s.thorough_only { " (thorough)" } else { "" });
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | suite NAME | replay FILE | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn known() -> Vec<Value> {
    let p = format!("{}/known_findings.json", verif_dir());
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"].as_array().cloned().unwrap_or_default()
}

struct Snap {
    leaves: u64,
    states: u64,
    transitions: u64,
    evals: u64,
    outcomes: u64,
    branches: u64,
}
fn snap() -> Snap {
    Snap {
        leaves: sh().leaves.load(SeqCst),
        states: sh().states.load(SeqCst),
        transitions: sh().transitions.load(SeqCst),
        evals: sh().evaluations.load(SeqCst),
        outcomes: sh().outcomes.load(SeqCst),
        branches: sh().branches.load(SeqCst),
    }
}

fn cores() -> i32 {
    std::thread::available_parallelism().map_or(4, |n| n.get() as i32).clamp(2, 16)
}

fn run(s: &Suite) -> Value {
    let a = snap();
    let t = clock::mono();
    explore::explore(s.name, None, s.body);
    let b = snap();
    json!({
        "suite": s.name,
        "what": s.what,
        "executions": b.leaves - a.leaves,
        "branches": b.branches - a.branches,
        "states": b.states - a.states,
        "transitions": b.transitions - a.transitions,
        "oracle_evaluations": b.evals - a.evals,
        "distinct_outcomes": b.outcomes - a.outcomes,
        "wall_s": ((clock::mono() - t) * 100.0).round() / 100.0,
    })
}

fn check(id: &str) -> i32 {
    let thorough = thorough();
    let t0 = clock::mono();
    explore::init_shared(cores());
    let cap: f64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 820.0 } else { 420.0 });
    explore::set_deadline(t0 + cap);
    let suites: Vec<Suite> = suites::all().into_iter().filter(|s| s.property == id && (thorough || !s.thorough_only)).collect();
    if suites.is_empty() {
        eprintln!("no suites for {id}");
        return 2;
    }
    let mut per = vec![];
    for s in &suites {
        if sh().stop.load(SeqCst) {
            break;
        }
        per.push(run(s));
        println!("{}", per.last().unwrap());
    }
    let wall = clock::mono() - t0;
    let capped = sh().capped.load(SeqCst);
    let all = snap();
    let dir = verif_dir();
    let rdir = format!("{dir}/evidence/replay");
    let _ = std::fs::create_dir_all(&rdir);
    let found = known();
    let (mut fresh, mut old): (Vec<String>, Vec<usize>) = (vec![], vec![]);
    for v in explore::violations() {
        let head: Value = serde_json::from_str(v.lines().next().unwrap_or("")).unwrap_or(Value::Null);
        let suite = head["suite"].as_str().unwrap_or("").to_string();
        let msg = v.lines().nth(1).unwrap_or("").to_string();
        let hit = found.iter().position(|f| {
            f["property"] == id && f["suite"] == suite.as_str() && msg.contains(f["match"].as_str().unwrap_or("\u{0}"))
        });
        match hit {
            Some(i) => {
                if !old.contains(&i) {
                    old.push(i);
                }
            }
            None => fresh.push(v),
        }
    }
    for i in &old {
        println!("KNOWN-FINDING: property={id} {}", found[*i]["what"].as_str().unwrap_or(""));
    }
    let errors = sh().errors.load(SeqCst);
    let mut code = 0;
    for (n, v) in fresh.iter().enumerate() {
        let path = format!("{rdir}/{id}-{n}.txt");
        let _ = std::fs::write(&path, v);
        if n < 3 {
            for l in v.lines().take(3).skip(1) {
                println!("  {l}");
            }
        }
        if n < 5 {
            println!("VIOLATION property={id} replay={path}");
        }
        code = 1;
    }
    if code == 0 && errors > 0 {
        eprintln!("ERROR: {}", explore::error_text());
        code = 3;
    }
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": all.states,
            "transitions": all.transitions,
            "traces_validated_against_impl": all.leaves,
            "oracle_evaluations": all.evals,
            "distinct_outcomes": all.outcomes,
            "branches": all.branches,
            "exhaustive": !capped && errors == 0,
            "bound": "every path of each suite's choice tree, bounds stated per suite",
            "capped_by_time": capped,
            "suites": per,
            "samples": explore::samples(),
            "how": "The implementation itself is explored (no separate model to conform): each counted trace is one complete execution of the real aj crates on a controlled runtime and clock, stepped together with the reference machine and checked at every step. states = distinct observable states reached, transitions = task polls, backend operations and clock moves executed."
        },
        "assumptions": suites::assumptions(id),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": fresh.len(),
        "known_findings_seen": old.len(),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!(
        "{id}: {} executions, {} states, {} transitions, {} outcomes, {:.1}s{}",
        all.leaves,
        all.states,
        all.transitions,
        all.outcomes,
        wall,
        if capped { " (time cap reached)" } else { "" }
    );
    if code == 0 && all.leaves == 0 && old.is_empty() {
        eprintln!("ERROR: nothing was explored");
        code = 3;
    }
    code
}

/// Development aid: run one suite and print what it found.
fn one(name: &str) -> i32 {
    explore::init_shared(cores());
    explore::set_deadline(clock::mono() + 3000.0);
    for s in suites::all().into_iter().filter(|s| s.name == name || s.property == name) {
        println!("{}", run(&s));
    }
    let v = explore::violations();
    for x in v.iter().take(2) {
        println!("{x}");
    }
    for x in v.iter().skip(2).take(6) {
        println!("also: {}", x.lines().nth(1).unwrap_or(""));
    }
    println!("violations {} errors {} {}", sh().viol.load(SeqCst), sh().errors.load(SeqCst), explore::error_text());
    for s in explore::samples().iter().take(3) {
        println!("sample: {s}");
    }
    0
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let head: Value = serde_json::from_str(t.lines().next().unwrap()).expect("replay header");
    let suite = head["suite"].as_str().unwrap();
    let choices: Vec<u16> = head["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
    explore::init_shared(2);
    explore::set_deadline(clock::mono() + 600.0);
    let s = suites::all().into_iter().find(|s| s.name == suite).expect("suite");
    explore::explore(s.name, Some(choices), s.body);
    if sh().viol.load(SeqCst) > 0 {
        println!("VIOLATION reproduced");
        1
    } else {
        println!("not reproduced; errors: {}", explore::error_text());
        0
    }
}
