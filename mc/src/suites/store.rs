//! The backends against the contract (C13).
use super::*;
use crate::backend::{Kind, RedisShim, Shared, Store};
use crate::cli::thorough;
use crate::explore::{self, choose, pick};
use crate::world::violate;
use aj_core::mem::InMemory;
use aj_core::redis::Redis;
use aj_core::types::{Backend, QueueDirection};
use std::io::{Read, Write};

pub fn suites() -> Vec<Suite> {
    vec![
        q("C13", "c13-mem", "InMemory: every sequence of up to 4 changes (50 of them: push, remove, move 0..3 items in 4 directions between two queues, rotate) from the empty backend; all reads compared after each", c13_mem),
        q("C13", "c13-mem-full", "InMemory: every sequence of up to 3 (4) changes from 5 non-empty contents", c13_mem_full),
        q("C13", "c13-storage", "both backends: every sequence of up to 4 (5) upserts over 2 hashes x 2 keys x 3 values, with queues in between", c13_storage),
        q("C13", "c13-redis", "the real Redis backend against an in-process server: every sequence of up to 2 (3) changes from 5 contents", c13_redis),
        q("C13", "c13-strings", "both backends: items, queue names, hashes, keys and values that are empty, long, binary-like, look like protocol or like numbers", c13_strings),
        q("C13", "c13-sizes", "both backends: queues of 0..1025 (4097) items, read and move counts around the boundaries, up to the largest number", c13_sizes),
        q("C14", "c14-serial", "2 clients, 2 operations each out of 32, one operation at a time, in every order (needs no shadow build)", c14_serial),
        q("C13", "c13-big", "both backends: lists of 9999 .. 100003 items, read, counted, moved in whole", c13_big),
        q("C13", "c13-cut", "Redis: every change, from 6 contents, with its 1st, 2nd or 3rd round trip refused, cut before or cut after the server did it: an error, or the whole result; a change that was reported as failed is done to some item in whole or not at all, nothing is lost", c13_cut),
        q("C13", "c13-down", "Redis: the server is absent, closes the connection, or answers with an error, at every operation: the operation reports an error and does not panic", c13_down),
    ]
}

#[derive(Clone, Debug)]
enum Op {
    Push(&'static str, &'static str),
    Move(&'static str, &'static str, usize, bool, bool),
    Remove(&'static str, &'static str),
    Upsert(&'static str, &'static str, &'static str),
}
fn dir(front: bool) -> QueueDirection {
    if front {
        QueueDirection::Front
    } else {
        QueueDirection::Back
    }
}

type R = Result<Vec<String>, String>;
fn e<T>(r: Result<T, aj_core::Error>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
fn real(b: &dyn Backend, op: &Op) -> R {
    match op {
        Op::Push(q, i) => e(b.queue_push(q, i)).map(|_| vec![]),
        Op::Move(f, t, n, x, y) => e(b.queue_move(f, t, *n, dir(*x), dir(*y))),
        Op::Remove(q, i) => e(b.queue_remove(q, i)).map(|_| vec![]),
        Op::Upsert(h, k, v) => e(b.storage_upsert(h, k, v.to_string())).map(|_| vec![]),
    }
}
fn model(s: &mut Store, op: &Op) -> R {
    match op {
        Op::Push(q, i) => s.push(q, i),
        Op::Move(f, t, n, x, y) => return Ok((0..*n).filter_map(|_| s.mv1(f, t, *x, *y)).collect()),
        Op::Remove(q, i) => {
            s.remove(q, i);
        }
        Op::Upsert(h, k, v) => s.upsert(h, k, v),
    }
    Ok(vec![])
}

/// Everything that can be read.
fn observe(b: &dyn Backend, s: &Store, counts: &[usize]) -> Result<u64, String> {
    let mut n = 0;
    for q in ["a", "b", "c"] {
        let got = e(b.queue_count(q));
        if got != Ok(s.count(q)) {
            return Err(format!("queue_count({q}) = {got:?}, expected {}", s.count(q)));
        }
        for front in [true, false] {
            for c in counts {
                let got = e(b.queue_get(q, *c, dir(front)));
                let want = s.get(q, *c, front);
                n += 1;
                if got.as_ref() != Ok(&want) {
                    let side = if front { "front" } else { "back" };
                    return Err(format!("queue_get({q}, {c}, {side}) = {got:?}, expected {want:?}"));
                }
            }
        }
    }
    for h in ["h", "i"] {
        for k in ["k", "l"] {
            let got = e(b.storage_get(h, k));
            let want = s.hget(h, k);
            n += 1;
            if got.as_ref() != Ok(&want) {
                return Err(format!("storage_get({h}, {k}) = {got:?}, expected {want:?}"));
            }
        }
    }
    Ok(n)
}

fn list_ops() -> Vec<Op> {
    let mut v = vec![];
    for q in ["a", "b"] {
        for i in ["x", "y"] {
            v.push(Op::Push(q, i));
        }
    }
    for (f, t) in [("a", "b"), ("b", "a")] {
        for n in 0..=3 {
            for (x, y) in [(false, true), (true, false), (false, false), (true, true)] {
                v.push(Op::Move(f, t, n, x, y));
            }
        }
    }
    for n in 0..=1 {
        for (x, y) in [(false, true), (true, false), (false, false), (true, true)] {
            v.push(Op::Move("a", "a", n, x, y));
        }
    }
    // (more than one item within a list only from one end to the other, and only if there are so many)
    for (x, y) in [(false, true), (true, false)] {
        v.push(Op::Move("a", "a", 2, x, y));
    }
    for q in ["a", "b"] {
        for i in ["x", "y"] {
            v.push(Op::Remove(q, i));
        }
    }
    v
}

/// Runs one sequence on a fresh backend; returns are compared at every step, reads at the end.
fn sequence(b: &dyn Backend, pre: &[Op], ops: &[Op], counts: &[usize]) {
    let mut s = Store::default();
    let mut seen = vec![];
    for op in pre.iter().chain(ops) {
        if matches!(op, Op::Move(f, t, n, ..) if f == t && *n > s.count(f).max(1)) {
            continue;
        }
        let want = model(&mut s, op);
        let got = real(b, op);
        seen.push(format!("{op:?} -> {got:?}"));
        if got != want {
            violate(format!("{op:?} answered {got:?}, expected {want:?} (contents before it as by {seen:?})"));
        }
    }
    match observe(b, &s, counts) {
        Ok(_) => {
            explore::note_eval();
            explore::note_state(&format!("{s:?}"));
        }
        Err(m) => violate(format!("{m}, after {seen:?}")),
    }
    explore::note_transitions(ops.len() as u64);
}

/// All sequences of length 1..=depth whose first operation is chosen by the explorer.
fn enumerate(ops: &[Op], pre: &[Op], depth: usize, counts: &[usize], fresh: &dyn Fn(&mut dyn FnMut(&dyn Backend))) {
    let first = choose(ops.len(), "first");
    let second = if depth > 1 { choose(ops.len() + 1, "second") } else { 0 };
    let mut idx = vec![first];
    if second > 0 {
        idx.push(second - 1);
    }
    let mut leaves = 0u64;
    // odometer over the remaining positions, shorter sequences included
    let rest = if second > 0 { depth - 2 } else { 0 };
    for len in 0..=rest {
        let mut pos = vec![0usize; len];
        loop {
            if leaves % 64 == 0 && !explore::alive() {
                explore::finish()
            }
            let seq: Vec<Op> = idx.iter().chain(pos.iter()).map(|i| ops[*i].clone()).collect();
            fresh(&mut |b| sequence(b, pre, &seq, counts));
            leaves += 1;
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                pos[i] += 1;
                if pos[i] < ops.len() {
                    break;
                }
                pos[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if len == 0 || i == usize::MAX {
                break;
            }
        }
    }
    explore::note_leaves(leaves.saturating_sub(1));
    explore::leaf(&format!("{first}/{second}"), &format!("{:?} then all of length <= {rest}", idx.iter().map(|i| &ops[*i]).collect::<Vec<_>>()));
    explore::finish()
}

/// Whole operations of two clients in every order (no interleaving within an operation:
/// that is what the shadow build is for; this one needs no shadow build).
fn c14_serial() {
    let mut ops: Vec<Op> = list_ops().into_iter().filter(|o| !matches!(o, Op::Move(_, _, 0 | 3, ..))).collect();
    ops.push(Op::Upsert("h", "k", "1"));
    ops.push(Op::Upsert("h", "k", "2"));
    let pre = [Op::Push("a", "x"), Op::Push("b", "y"), Op::Push("a", "z")];
    let progs: Vec<Op> = (0..4).map(|i| if i < 2 { pick(&ops, "op").clone() } else { ops[0].clone() }).collect();
    let n = ops.len();
    for (i, j) in (0..n).flat_map(|i| (0..n).map(move |j| (i, j))) {
        // thread 1: the two chosen ones, thread 2: every other pair
        let (a, b) = (&progs[..2], [ops[i].clone(), ops[j].clone()]);
        for mask in [0b0011u8, 0b0101, 0b0110, 0b1001, 0b1010, 0b1100] {
            let mut s = Store::default();
            let real_b = InMemory::default();
            for op in &pre {
                let _ = model(&mut s, op);
                let _ = real(&real_b, op);
            }
            let (mut x, mut y) = (0, 0);
            for k in 0..4 {
                let op = if mask >> k & 1 == 1 {
                    x += 1;
                    &a[x - 1]
                } else {
                    y += 1;
                    &b[y - 1]
                };
                if matches!(op, Op::Move(f, t, n, ..) if f == t && *n > s.count(f).max(1)) {
                    continue;
                }
                let want = model(&mut s, op);
                let got = real(&real_b, op);
                if got != want {
                    violate(format!("threads {a:?} and {b:?}, order {mask:04b}: {op:?} answered {got:?}, expected {want:?}"));
                }
            }
            if let Err(m) = observe(&real_b, &s, &[9]) {
                violate(format!("threads {a:?} and {b:?}, order {mask:04b}: {m}"));
            }
            explore::note_eval();
        }
        if !explore::alive() {
            explore::finish()
        }
    }
    explore::note_transitions((n * n * 24) as u64);
    explore::note_leaves((n * n * 6) as u64 - 1);
    explore::leaf(&format!("{progs:?}"), "");
    explore::finish()
}

fn contents() -> Vec<Vec<Op>> {
    use Op::*;
    vec![
        vec![Push("a", "x"), Push("a", "y"), Push("a", "z")],
        vec![Push("a", "x"), Push("a", "y"), Push("a", "x"), Push("b", "y"), Push("b", "x")],
        vec![Push("a", "x"), Move("a", "b", 1, false, true), Push("b", "y"), Push("b", "z")],
        vec![Push("a", "x"), Push("a", "x"), Push("a", "x"), Push("a", "x")],
        vec![Push("b", "p"), Push("b", "q"), Push("b", "r"), Push("a", "y"), Upsert("h", "k", "v")],
    ]
}
fn on_mem(f: &mut dyn FnMut(&dyn Backend)) {
    f(&InMemory::default())
}
fn on_redis(f: &mut dyn FnMut(&dyn Backend)) {
    RedisShim(Shared::default()).with(|r: &Redis| f(r))
}
fn on(kind: Kind) -> fn(&mut dyn FnMut(&dyn Backend)) {
    if kind == Kind::Mem {
        on_mem
    } else {
        on_redis
    }
}

fn c13_mem() {
    enumerate(&list_ops(), &[], 4, &[0, 1, 2, 9], &on_mem)
}
fn c13_mem_full() {
    let pre = pick(&contents(), "contents").clone();
    enumerate(&list_ops(), &pre, if thorough() { 4 } else { 3 }, &[0, 1, 2, 3, 9], &on_mem)
}
fn c13_redis() {
    let mut all = contents();
    all.insert(0, vec![]);
    let pre = pick(&all, "contents").clone();
    enumerate(&list_ops(), &pre, if thorough() { 3 } else { 2 }, &[0, 1, 2, 9], &on_redis)
}
fn c13_storage() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let mut ops = vec![];
    for h in ["h", "i"] {
        for k in ["k", "l"] {
            for v in ["", "1", "two"] {
                ops.push(Op::Upsert(h, k, v));
            }
        }
    }
    ops.push(Op::Push("a", "k"));
    ops.push(Op::Remove("a", "k"));
    let d = if kind == Kind::Mem { 4 } else { 2 } + thorough() as usize;
    enumerate(&ops, &[], d, &[0, 9], &*Box::new(on(kind)))
}

fn odd() -> Vec<String> {
    vec![
        "".into(),
        "x".into(),
        // alike, not equal
        "X".into(),
        "xx".into(),
        "x ".into(),
        " x".into(),
        "\u{e9}".into(),
        "\u{c9}".into(),
        "e\u{301}".into(),
        " ".into(),
        "0".into(),
        "-1".into(),
        "1".into(),
        "01".into(),
        "1.0".into(),
        "nil".into(),
        "a:queue:Queued".into(),
        "*3\r\n$3\r\nSET\r\n".into(),
        "$-1\r\n".into(),
        "+OK".into(),
        "-ERR x".into(),
        "\u{0}\u{1}\u{7f}".into(),
        "\u{1F980} e\u{301} \u{202e}".into(),
        "{\"a\":[1,\"\\u0000\"]}".into(),
        "y".repeat(70_000),
    ]
}
fn c13_strings() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let o = odd();
    let a = choose(o.len(), "one");
    let (a, rest) = (&o[a], &o);
    let mut n = 0;
    on(kind)(&mut |b| {
        for c in rest {
            let hit = |what: &str, got: String, want: String| {
                if got != want {
                    violate(format!("{what} gave {:.300}, expected {:.300} (strings {:.80?} and {:.80?})", got, want, a, c));
                }
            };
            let (q1, q2) = (format!("q{n}{a}"), format!("q{n}{a}/{c}"));
            n += 1;
            hit("push", format!("{:?}", b.queue_push(&q1, a)), "Ok(())".into());
            hit("push", format!("{:?}", b.queue_push(&q1, c)), "Ok(())".into());
            let want = vec![c.clone(), a.clone()];
            hit("get", format!("{:?}", b.queue_get(&q1, 5, dir(true))), format!("Ok({want:?})"));
            hit("other queue", format!("{:?}", b.queue_count(&q2)), "Ok(0)".into());
            hit("move", format!("{:?}", b.queue_move(&q1, &q2, 1, dir(false), dir(true))), format!("Ok({:?})", vec![a]));
            hit("moved", format!("{:?}", b.queue_get(&q2, 5, dir(true))), format!("Ok({:?})", vec![a]));
            hit("remove", format!("{:?}", b.queue_remove(&q1, a)), "Ok(())".into());
            let left: Vec<&String> = if a == c { vec![] } else { vec![c] };
            hit("removed", format!("{:?}", b.queue_get(&q1, 5, dir(true))), format!("Ok({left:?})"));
            let (h, k) = (format!("h{n}{a}"), c);
            hit("absent", format!("{:?}", b.storage_get(&h, k)), "Ok(None)".into());
            hit("upsert", format!("{:?}", b.storage_upsert(&h, k, a.clone())), "Ok(())".into());
            hit("stored", format!("{:?}", b.storage_get(&h, k)), format!("Ok({:?})", Some(a)));
            hit("other key", format!("{:?}", b.storage_get(&h, &format!("{k}."))), "Ok(None)".into());
            hit("upsert", format!("{:?}", b.storage_upsert(&h, k, c.clone())), "Ok(())".into());
            hit("replaced", format!("{:?}", b.storage_get(&h, k)), format!("Ok({:?})", Some(c)));
            explore::note_eval();
            explore::note_transitions(14);
        }
    });
    explore::leaf(&format!("{:.40?}", a), "all operations with every second string");
    explore::finish()
}

fn c13_sizes() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let lens: &[usize] = if crate::cli::thorough() {
        &[0, 1, 2, 19, 20, 21, 40, 41, 45, 64, 65, 100, 101, 128, 129, 256, 257, 512, 513, 1000, 1025, 2049, 4097]
    } else {
        &[0, 1, 2, 19, 20, 21, 40, 41, 45, 65, 101, 129, 257, 513, 1025]
    };
    let len = *pick(lens, "len");
    let from_front = choose(2, "from") == 0;
    let to_front = choose(2, "to") == 0;
    let most = isize::MAX as usize;
    let counts = [0usize, 1, 2, 19, 20, 21, 40, 44, 45, 46, 1000, len.max(1) - 1, len, len + 1, most, most + 1, usize::MAX - 1, usize::MAX];
    let mut moves = vec![0usize, 1, 2, 19, 20, 21, 44, 45, 46, 100, len.max(1) - 1, len, len + 1, usize::MAX];
    moves.sort();
    moves.dedup();
    for mv in moves {
        on(kind)(&mut |b| {
            let mut s = Store::default();
            for i in 0..len {
                let _ = b.queue_push("a", &format!("{i}"));
                s.push("a", &format!("{i}"));
            }
            let _ = b.queue_push("b", "old");
            s.push("b", "old");
            let got = e(b.queue_move("a", "b", mv, dir(from_front), dir(to_front)));
            let want: Vec<String> = (0..mv).map_while(|_| s.mv1("a", "b", from_front, to_front)).collect();
            if got.as_ref() != Ok(&want) {
                violate(format!("moving {mv} of {len} items answered {got:?}, expected {want:?}"));
            }
            if let Err(m) = observe(b, &s, &counts) {
                violate(format!("{m}, after moving {mv} of {len} items"));
            }
            explore::note_eval();
            explore::note_state(&format!("{s:?}"));
            explore::note_transitions(len as u64 + 2);
        });
    }
    explore::leaf(&format!("{len} {from_front} {to_front}"), "");
    explore::finish()
}

/// Long lists, put there at once.
fn c13_big() {
    let kind = *pick(&[Kind::Mem, Kind::Redis], "backend");
    let len = *pick(&[9_999usize, 10_001, 32_769, 65_537, 100_003], "len");
    let front = choose(2, "end") == 0;
    let check = |b: &dyn Backend, s: &mut Store| {
        let same = |what: String, got: R, want: Vec<String>| {
            if got.as_ref() != Ok(&want) {
                let got = got.map(|v| v.len());
                violate(format!("{what} with {len} items: {got:?} items that are not the {} expected ones", want.len()));
            }
            explore::note_eval();
        };
        for c in [1, 1_000, len / 2, len - 1, len, len + 1, usize::MAX] {
            same(format!("queue_get {c}"), e(b.queue_get("a", c, dir(front))), s.get("a", c, front));
        }
        crate::ensure!(e(b.queue_count("a")) == Ok(len), "{:?} of {len} items counted", b.queue_count("a"));
        // single items, some, and all the others
        for c in [1, 300, len] {
            let want = (0..c).map_while(|_| s.mv1("a", "b", front, true)).collect();
            same(format!("queue_move {c}"), e(b.queue_move("a", "b", c, dir(front), dir(true))), want);
        }
        let _ = (b.queue_remove("b", "77"), s.remove("b", "77"));
        same("queue_get".into(), e(b.queue_get("b", len, dir(true))), s.get("b", len, true));
        crate::ensure!(e(b.queue_count("a")) == Ok(0) && e(b.queue_count("b")) == Ok(len - 1), "not all of {len} items were moved");
    };
    let mut s = Store::default();
    if kind == Kind::Mem {
        let b = InMemory::default();
        for i in 0..len {
            s.push("a", &i.to_string());
            let _ = b.queue_push("a", &i.to_string());
        }
        check(&b, &mut s);
    } else {
        let shared = Shared::default();
        for i in 0..len {
            s.push("a", &i.to_string());
            shared.lock().unwrap().push("a", &i.to_string());
        }
        RedisShim(shared).with(|r: &Redis| check(r, &mut s));
    }
    explore::note_transitions(len as u64);
    explore::leaf(&format!("{len} {front}"), "");
    explore::finish()
}

/// One round trip of one operation fails.
fn c13_cut() {
    use crate::backend::{Fail, WIRE};
    let mut all = contents();
    all.insert(0, vec![]);
    let pre = pick(&all, "contents").clone();
    let mut ops = list_ops();
    ops.push(Op::Upsert("h", "k", "w"));
    let op = pick(&ops, "change").clone();
    let n = 1 + choose(3, "round trip") as u64;
    let how = *pick(&[Fail::Refused, Fail::Unread, Fail::Unanswered], "failure");
    let mut s = Store::default();
    for o in &pre {
        let _ = model(&mut s, o);
    }
    if matches!(op, Op::Move(f, t, n, ..) if f == t && n > s.count(f).max(1)) {
        explore::leaf("-", "");
        explore::finish()
    }
    // what may be there afterwards: the operation done for some of its items, in order
    let mut states = vec![s.clone()];
    let mut whole = s.clone();
    let want = model(&mut whole, &op);
    if let Op::Move(f, t, n, x, y) = op {
        for k in 1..n {
            let mut p = s.clone();
            let _ = model(&mut p, &Op::Move(f, t, k, x, y));
            states.push(p);
        }
    }
    states.push(whole.clone());
    on_redis(&mut |b| {
        for o in &pre {
            let _ = real(b, o);
        }
        let mut w = WIRE.lock().unwrap();
        w.fail = Some((w.trips + n, how));
        drop(w);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(b, &op)));
        WIRE.lock().unwrap().fail = None;
        let got = got.unwrap_or_else(|p| violate(format!("{op:?} panicked: {}", explore::panic_text(&*p))));
        if got.is_ok() {
            crate::ensure!(got == want, "{op:?} with round trip {n} {how:?} answered {got:?}, expected {want:?} or an error");
            if let Err(m) = observe(b, &whole, &[9]) {
                violate(format!("{op:?} with round trip {n} {how:?} answered {got:?}, but {m}"));
            }
        } else {
            let fits = states.iter().any(|s| observe(b, s, &[9]).is_ok());
            crate::ensure!(
                fits,
                "{op:?} with round trip {n} {how:?} answered {got:?} and left {:?} and {:?}: items are lost or out of place",
                b.queue_get("a", 99, dir(true)),
                b.queue_get("b", 99, dir(true))
            );
        }
        explore::note_eval();
        explore::leaf(&format!("{op:?} {n} {how:?} {}", got.is_ok()), "");
    });
    explore::note_transition();
    explore::finish()
}

/// A server that misbehaves from a given request on.
fn bad_server(mode: usize, after: usize, f: &mut dyn FnMut(&Redis)) {
    let path = format!("/tmp/aj-mc-bad-{}.sock", std::process::id());
    let _ = std::fs::remove_file(&path);
    if mode == 0 {
        f(&Redis::new(format!("unix://{path}").as_str()));
        return;
    }
    let l = std::os::unix::net::UnixListener::bind(&path).expect("bind");
    l.set_nonblocking(false).unwrap();
    let p2 = path.clone();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let st2 = stop.clone();
    let t = std::thread::spawn(move || {
        let mut answered = 0;
        while let Ok((mut s, _)) = l.accept() {
            if st2.load(std::sync::atomic::Ordering::SeqCst) {
                return;
            }
            let mut buf = vec![];
            let mut chunk = [0u8; 4096];
            loop {
                let Ok(n) = s.read(&mut chunk) else { break };
                if n == 0 {
                    break;
                }
                buf.extend_from_slice(&chunk[..n]);
                let mut close = false;
                while let Some((cmd, used)) = crate::backend::parse(&buf) {
                    buf.drain(..used);
                    let name = cmd[0].to_uppercase();
                    let reply: &[u8] = if name == "CLIENT" || name == "HELLO" || name == "SELECT" {
                        b"+OK\r\n"
                    } else if answered < after {
                        answered += 1;
                        b"$4\r\nitem\r\n"
                    } else {
                        match mode {
                            1 => {
                                close = true;
                                b""
                            }
                            2 => b"-ERR something is wrong\r\n",
                            3 => b"-WRONGTYPE Operation against a key holding the wrong kind of value\r\n",
                            4 => b"-LOADING Redis is loading the dataset in memory\r\n",
                            5 => b"-READONLY You can't write against a read only replica.\r\n",
                            _ => b"-OOM command not allowed when used memory > 'maxmemory'.\r\n",
                        }
                    };
                    let _ = s.write_all(reply);
                }
                if close {
                    break;
                }
            }
        }
        let _ = p2;
    });
    f(&Redis::new(format!("unix://{path}").as_str()));
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let _ = std::os::unix::net::UnixStream::connect(&path);
    let _ = t.join();
    let _ = std::fs::remove_file(&path);
}

fn c13_down() {
    let mode = choose(7, "mode");
    let op = choose(9, "op");
    let after = if op == 8 { 1 } else { 0 };
    let mut got: Option<Result<String, String>> = None;
    bad_server(mode, after, &mut |r| {
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
            0 => e(r.queue_push("a", "x")).map(|v| format!("{v:?}")),
            1 => e(r.queue_move("a", "b", 1, dir(false), dir(true))).map(|v| format!("{v:?}")),
            2 => e(r.queue_remove("a", "x")).map(|v| format!("{v:?}")),
            3 => e(r.queue_get("a", 2, dir(true))).map(|v| format!("{v:?}")),
            4 => e(r.queue_get("a", 2, dir(false))).map(|v| format!("{v:?}")),
            5 => e(r.queue_count("a")).map(|v| format!("{v:?}")),
            6 => e(r.storage_upsert("h", "k", "v".into())).map(|v| format!("{v:?}")),
            7 => e(r.storage_get("h", "k")).map(|v| format!("{v:?}")),
            // the second of two single moves fails
            _ => e(r.queue_move("a", "b", 2, dir(false), dir(true))).map(|v| format!("{v:?}")),
        }));
        got = Some(x.unwrap_or_else(|p| Ok(format!("panic: {}", explore::panic_text(&*p)))));
    });
    let got = got.unwrap();
    explore::note_transition();
    crate::ensure!(got.is_err(), "operation {op} on a server in failure mode {mode} answered {got:?} instead of an error");
    explore::leaf(&format!("{op} {mode} {:.40}", got.unwrap_err()), "");
    explore::finish()
}
