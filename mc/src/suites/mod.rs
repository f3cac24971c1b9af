//! The explored scenarios, per property.
pub struct Suite {
    pub property: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    pub thorough_only: bool,
    pub body: fn(),
}
fn q(property: &'static str, name: &'static str, what: &'static str, body: fn()) -> Suite {
    Suite { property, name, what, thorough_only: false, body }
}
#[allow(dead_code)]
fn t(property: &'static str, name: &'static str, what: &'static str, body: fn()) -> Suite {
    Suite { property, name, what, thorough_only: true, body }
}
mod life;
mod timing;
mod retry;
mod hooks;
mod data;
mod store;
mod faults;
mod multi;
mod settings;
#[cfg(feature = "jobs")]
mod macros;
#[cfg(feature = "threads")]
mod threads;

pub fn all() -> Vec<Suite> {
    let mut v = vec![];
    v.extend(life::suites());
    v.extend(timing::suites());
    v.extend(retry::suites());
    v.extend(hooks::suites());
    v.extend(data::suites());
    v.extend(store::suites());
    v.extend(multi::suites());
    v.extend(settings::suites());
    v.extend(faults::suites());
    #[cfg(feature = "jobs")]
    v.extend(macros::suites());
    #[cfg(feature = "threads")]
    v.extend(threads::suites());
    v
}

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v: Vec<&str> = vec![];
    if id != "C14" {
        v.push("actix actors run on a stand-in for actix-rt (mcrt) with logical arbiters: a step is one poll of one task, arbiters interleave at steps (message granularity); actix and tokio's timer are the real ones");
        v.push("the clock is virtual: it moves only when nothing can run (except where a suite moves it at every reading), timers have tokio's millisecond resolution");
    }
    match id {
        "C13" => v.push("Redis: the real client code and crate over an in-process server that implements the commands of the wire protocol from the Redis documentation"),
        "C14" | "C17" | "C18" => v.push("threads: sequentially consistent interleavings at every operation of std's locks, atomics and thread functions (tstd replaces std in a shadow build of the same sources)"),
        "C15" => v.push("a failing backend operation has no effect on the data, and one operation fails"),
        "C16" => v.push("operations of the in-memory backend and single Redis commands are atomic and durable; the process stops between two of them"),
        "C20" => v.push("the shapes of annotated functions are those of the harness; that they compile is part of the property"),
        _ => {}
    }
    v.into_iter().map(String::from).collect()
}
