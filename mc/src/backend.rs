//! Backends the engine under test runs on.
//!
//! * `Kind::Mem`   – the real `InMemory` backend of the repository.
//! * `Kind::Ref`   – a plain reference implementation of the backend contract (`Store`), whose contents can
//!   be snapshotted and restored: the disk of the crash suites.
//! * `Kind::Redis` – the repository's real `Redis` backend (real client, real wire protocol) talking to an
//!   in-process server over a Unix socket that keeps its data in a `Store`.
//!
//! Whatever the kind, the engine sees it through [`Spy`], which counts operations, can make one of them fail
//! and can stop the process at one of them.
use aj_core::types::{Backend, QueueDirection};
use aj_core::mem::InMemory;
use aj_core::redis::Redis;
use aj_core::Error;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::{Arc, Mutex};

use crate::explore;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Mem,
    Ref,
    Redis,
}

/// Lists and hashes, as the backend contract describes them.
#[derive(Clone, Default, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Store {
    pub lists: BTreeMap<String, VecDeque<String>>,
    pub hashes: BTreeMap<String, BTreeMap<String, String>>,
}

impl Store {
    pub fn push(&mut self, q: &str, item: &str) {
        self.lists.entry(q.into()).or_default().push_front(item.into());
    }
    fn tidy(&mut self, q: &str) {
        if self.lists.get(q).is_some_and(|l| l.is_empty()) {
            self.lists.remove(q);
        }
    }
    pub fn mv1(&mut self, from: &str, to: &str, from_front: bool, to_front: bool) -> Option<String> {
        let l = self.lists.get_mut(from)?;
        let it = if from_front { l.pop_front() } else { l.pop_back() }?;
        self.tidy(from);
        let d = self.lists.entry(to.into()).or_default();
        if to_front {
            d.push_front(it.clone());
        } else {
            d.push_back(it.clone());
        }
        Some(it)
    }
    pub fn remove(&mut self, q: &str, item: &str) -> usize {
        let mut n = 0;
        if let Some(l) = self.lists.get_mut(q) {
            let before = l.len();
            l.retain(|x| x != item);
            n = before - l.len();
        }
        self.tidy(q);
        n
    }
    pub fn get(&self, q: &str, count: usize, front: bool) -> Vec<String> {
        let Some(l) = self.lists.get(q) else { return vec![] };
        if front {
            l.iter().take(count).cloned().collect()
        } else {
            l.iter().rev().take(count).cloned().collect()
        }
    }
    pub fn count(&self, q: &str) -> usize {
        self.lists.get(q).map_or(0, |l| l.len())
    }
    pub fn upsert(&mut self, h: &str, k: &str, v: &str) {
        self.hashes.entry(h.into()).or_default().insert(k.into(), v.into());
    }
    pub fn hget(&self, h: &str, k: &str) -> Option<String> {
        self.hashes.get(h).and_then(|m| m.get(k)).cloned()
    }
}

pub type Shared = Arc<Mutex<Store>>;

pub struct RefBackend(pub Shared);
fn front(d: QueueDirection) -> bool {
    matches!(d, QueueDirection::Front)
}
impl Backend for RefBackend {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.0.lock().unwrap().push(q, item);
        Ok(())
    }
    fn queue_move(
        &self,
        from: &str,
        to: &str,
        count: usize,
        fd: QueueDirection,
        td: QueueDirection,
    ) -> Result<Vec<String>, Error> {
        let mut s = self.0.lock().unwrap();
        Ok((0..count).filter_map(|_| s.mv1(from, to, front(fd), front(td))).collect())
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.0.lock().unwrap().remove(q, item);
        Ok(())
    }
    fn queue_get(&self, q: &str, count: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        Ok(self.0.lock().unwrap().get(q, count, front(d)))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        Ok(self.0.lock().unwrap().count(q))
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.0.lock().unwrap().upsert(h, k, &v);
        Ok(())
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        Ok(self.0.lock().unwrap().hget(h, k))
    }
}

// ---- the real Redis backend against an in-process server ----

/// Runs the repository's `Redis` backend; every call gets its own server thread which lives exactly as long
/// as the call, so that the process is single-threaded whenever the explorer forks.
pub struct RedisShim(pub Shared);

impl RedisShim {
    pub fn with<T>(&self, f: impl FnOnce(&Redis) -> T) -> T {
        let path = format!("/tmp/aj-mc-{}.sock", std::process::id());
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).expect("bind unix socket");
        let (stop_r, stop_w) = UnixStream::pair().expect("socketpair");
        let store = self.0.clone();
        let server = std::thread::spawn(move || serve(listener, stop_r, store));
        let redis = Redis::new(format!("unix://{path}").as_str());
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&redis)));
        drop(redis);
        drop(stop_w);
        let _ = server.join();
        let _ = std::fs::remove_file(&path);
        if WIRE.lock().unwrap().stopped {
            die();
        }
        match out {
            Ok(v) => v,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

/// Round trips of the Redis client, counted over all calls; after number `stop` the process is gone.
#[derive(Default)]
pub struct Wire {
    pub trips: u64,
    pub stop: Option<u64>,
    stopped: bool,
    /// This round trip fails; the ones after it do not.
    pub fail: Option<(u64, Fail)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    /// The server refuses what it was asked for.
    Refused,
    /// The connection breaks before the server has read the request.
    Unread,
    /// The connection breaks before the answer arrives.
    Unanswered,
}
pub static WIRE: Mutex<Wire> = Mutex::new(Wire { trips: 0, stop: None, stopped: false, fail: None });

fn serve(listener: UnixListener, stop: UnixStream, store: Shared) {
    let mut conns: Vec<(UnixStream, Vec<u8>, Option<Vec<Vec<String>>>)> = vec![];
    loop {
        let mut fds: Vec<libc::pollfd> = vec![
            libc::pollfd { fd: stop.as_raw_fd(), events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: listener.as_raw_fd(), events: libc::POLLIN, revents: 0 },
        ];
        for c in &conns {
            fds.push(libc::pollfd { fd: c.0.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, -1) };
        let mut gone = vec![];
        for i in 2..fds.len() {
            if fds[i].revents == 0 {
                continue;
            }
            let (s, buf, multi) = &mut conns[i - 2];
            let mut chunk = [0u8; 16384];
            match s.read(&mut chunk) {
                Ok(0) | Err(_) => gone.push(i - 2),
                Ok(n) => {
                    buf.extend_from_slice(&chunk[..n]);
                    let mut w = WIRE.lock().unwrap();
                    if w.stopped {
                        // nobody is there any more
                        gone.push(i - 2);
                        continue;
                    }
                    let mut some = false;
                    let mut reply = vec![];
                    let fail = match w.fail {
                        Some((n, f)) if n == w.trips + 1 => Some(f),
                        _ => None,
                    };
                    while let Some((cmd, used)) = parse(buf) {
                        buf.drain(..used);
                        let real = !["PING", "SELECT", "CLIENT", "AUTH", "HELLO"].contains(&cmd[0].to_uppercase().as_str());
                        some |= real;
                        if real && matches!(fail, Some(Fail::Refused | Fail::Unread)) {
                            reply.extend(b"-ERR something is wrong\r\n");
                            continue;
                        }
                        reply.extend(dispatch(cmd, multi, &store));
                    }
                    if some && matches!(fail, Some(Fail::Unread | Fail::Unanswered)) {
                        w.trips += 1;
                        gone.push(i - 2);
                        continue;
                    }
                    if some {
                        w.trips += 1;
                        if w.stop == Some(w.trips) {
                            w.stopped = true;
                            gone.push(i - 2);
                            continue;
                        }
                    }
                    let _ = s.write_all(&reply);
                }
            }
        }
        for g in gone.into_iter().rev() {
            conns.remove(g);
        }
        if fds[1].revents != 0 {
            if let Ok((s, _)) = listener.accept() {
                conns.push((s, vec![], None));
            }
        } else if fds[0].revents != 0 {
            return;
        }
    }
}

pub fn parse(b: &[u8]) -> Option<(Vec<String>, usize)> {
    fn line(b: &[u8], at: usize) -> Option<(&str, usize)> {
        let e = b[at..].windows(2).position(|w| w == b"\r\n")? + at;
        Some((std::str::from_utf8(&b[at..e]).ok()?, e + 2))
    }
    let (l, mut at) = line(b, 0)?;
    let n: usize = l.strip_prefix('*')?.parse().ok()?;
    let mut out = vec![];
    for _ in 0..n {
        let (l, a) = line(b, at)?;
        let len: usize = l.strip_prefix('$')?.parse().ok()?;
        if b.len() < a + len + 2 {
            return None;
        }
        out.push(String::from_utf8_lossy(&b[a..a + len]).into_owned());
        at = a + len + 2;
    }
    Some((out, at))
}

fn bulk(s: &Option<String>) -> Vec<u8> {
    match s {
        Some(s) => format!("${}\r\n{}\r\n", s.len(), s).into_bytes(),
        None => b"$-1\r\n".to_vec(),
    }
}
fn arr(v: &[String]) -> Vec<u8> {
    let mut o = format!("*{}\r\n", v.len()).into_bytes();
    for s in v {
        o.extend(bulk(&Some(s.clone())));
    }
    o
}
fn int(n: i64) -> Vec<u8> {
    format!(":{n}\r\n").into_bytes()
}

fn dispatch(cmd: Vec<String>, multi: &mut Option<Vec<Vec<String>>>, store: &Shared) -> Vec<u8> {
    let name = cmd[0].to_uppercase();
    if let (Some(q), false) = (multi.as_mut(), name == "EXEC" || name == "DISCARD") {
        q.push(cmd);
        return b"+QUEUED\r\n".to_vec();
    }
    match name.as_str() {
        "MULTI" => {
            *multi = Some(vec![]);
            b"+OK\r\n".to_vec()
        }
        "DISCARD" => {
            *multi = None;
            b"+OK\r\n".to_vec()
        }
        "EXEC" => {
            let q = multi.take().unwrap_or_default();
            let mut s = store.lock().unwrap();
            let mut o = format!("*{}\r\n", q.len()).into_bytes();
            for c in q {
                o.extend(exec(&c, &mut s));
            }
            o
        }
        _ => exec(&cmd, &mut store.lock().unwrap()),
    }
}

/// The commands, as documented for Redis 6.2 and later.
fn exec(c: &[String], s: &mut Store) -> Vec<u8> {
    let a: Vec<&str> = c.iter().map(|x| x.as_str()).collect();
    let up = a[0].to_uppercase();
    match (up.as_str(), a.len()) {
        ("PING", _) => b"+PONG\r\n".to_vec(),
        ("SELECT" | "CLIENT" | "AUTH" | "HELLO", _) => b"+OK\r\n".to_vec(),
        ("LPUSH", n) if n >= 3 => {
            for x in &a[2..] {
                s.push(a[1], x);
            }
            int(s.count(a[1]) as i64)
        }
        ("RPUSH", n) if n >= 3 => {
            for x in &a[2..] {
                s.lists.entry(a[1].into()).or_default().push_back(x.to_string());
            }
            int(s.count(a[1]) as i64)
        }
        ("LMOVE", 5) => bulk(&s.mv1(
            a[1],
            a[2],
            a[3].eq_ignore_ascii_case("LEFT"),
            a[4].eq_ignore_ascii_case("LEFT"),
        )),
        ("RPOPLPUSH", 3) => bulk(&s.mv1(a[1], a[2], false, true)),
        ("LPOP" | "RPOP", n @ (2 | 3)) => {
            let f = up == "LPOP";
            let want = if n == 3 { a[2].parse().unwrap_or(0) } else { 1usize };
            let mut got = vec![];
            for _ in 0..want {
                let it = s.lists.get_mut(a[1]).and_then(|l| if f { l.pop_front() } else { l.pop_back() });
                got.extend(it);
            }
            s.tidy(a[1]);
            if n == 2 {
                bulk(&got.pop())
            } else if got.is_empty() {
                b"*-1\r\n".to_vec()
            } else {
                arr(&got)
            }
        }
        ("LREM", 4) => {
            let n: i64 = a[2].parse().unwrap_or(0);
            if n == 0 {
                return int(s.remove(a[1], a[3]) as i64);
            }
            let mut left = n.unsigned_abs() as usize;
            let mut removed = 0;
            if let Some(l) = s.lists.get_mut(a[1]) {
                let mut keep = VecDeque::new();
                let items: Vec<String> = if n > 0 { l.drain(..).collect() } else { l.drain(..).rev().collect() };
                for it in items {
                    if it == a[3] && left > 0 {
                        left -= 1;
                        removed += 1;
                    } else if n > 0 {
                        keep.push_back(it);
                    } else {
                        keep.push_front(it);
                    }
                }
                *l = keep;
            }
            s.tidy(a[1]);
            int(removed)
        }
        ("LLEN", 2) => int(s.count(a[1]) as i64),
        ("LRANGE", 4) => {
            let l: Vec<String> = s.lists.get(a[1]).map(|l| l.iter().cloned().collect()).unwrap_or_default();
            let len = l.len() as i64;
            let norm = |x: &str| {
                let v: i64 = x.parse().unwrap_or(0);
                if v < 0 {
                    v + len
                } else {
                    v
                }
            };
            let (b, e) = (norm(a[2]).max(0), norm(a[3]).min(len - 1));
            if b > e {
                arr(&[])
            } else {
                arr(&l[b as usize..=e as usize])
            }
        }
        ("LINDEX", 3) => {
            let len = s.count(a[1]) as i64;
            let v: i64 = a[2].parse().unwrap_or(0);
            let i = if v < 0 { v + len } else { v };
            bulk(&s.lists.get(a[1]).and_then(|l| if i < 0 { None } else { l.get(i as usize).cloned() }))
        }
        ("HSET" | "HMSET", n) if n >= 4 && n % 2 == 0 => {
            let mut added = 0;
            for p in a[2..].chunks(2) {
                added += s.hget(a[1], p[0]).is_none() as i64;
                s.upsert(a[1], p[0], p[1]);
            }
            if up == "HSET" {
                int(added)
            } else {
                b"+OK\r\n".to_vec()
            }
        }
        ("HSETNX", 4) => {
            if s.hget(a[1], a[2]).is_some() {
                return int(0);
            }
            s.upsert(a[1], a[2], a[3]);
            int(1)
        }
        ("HGET", 3) => bulk(&s.hget(a[1], a[2])),
        ("HEXISTS", 3) => int(s.hget(a[1], a[2]).is_some() as i64),
        ("HDEL", n) if n >= 3 => {
            let mut r = 0;
            if let Some(h) = s.hashes.get_mut(a[1]) {
                for k in &a[2..] {
                    r += h.remove(*k).is_some() as i64;
                }
            }
            int(r)
        }
        ("HMGET", n) if n >= 3 => {
            let mut o = format!("*{}\r\n", n - 2).into_bytes();
            for k in &a[2..] {
                o.extend(bulk(&s.hget(a[1], k)));
            }
            o
        }
        ("LPUSHX" | "RPUSHX", n) if n >= 3 => {
            if s.count(a[1]) > 0 {
                for x in &a[2..] {
                    let l = s.lists.entry(a[1].into()).or_default();
                    if up == "LPUSHX" {
                        l.push_front(x.to_string())
                    } else {
                        l.push_back(x.to_string())
                    }
                }
            }
            int(s.count(a[1]) as i64)
        }
        ("LTRIM", 4) => {
            let len = s.count(a[1]) as i64;
            let norm = |x: &str| {
                let v: i64 = x.parse().unwrap_or(0);
                if v < 0 {
                    v + len
                } else {
                    v
                }
            };
            let (b, e) = (norm(a[2]).max(0), norm(a[3]).min(len - 1));
            if let Some(l) = s.lists.get_mut(a[1]) {
                *l = l.iter().enumerate().filter(|(i, _)| (*i as i64) >= b && (*i as i64) <= e).map(|x| x.1.clone()).collect();
            }
            s.tidy(a[1]);
            b"+OK\r\n".to_vec()
        }
        ("HLEN", 2) => int(s.hashes.get(a[1]).map_or(0, |h| h.len()) as i64),
        ("HGETALL", 2) => {
            let v: Vec<String> = s.hashes.get(a[1]).map(|h| h.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect()).unwrap_or_default();
            arr(&v)
        }
        ("WATCH" | "UNWATCH", _) => b"+OK\r\n".to_vec(),
        ("EXISTS", 2) => int((s.lists.contains_key(a[1]) || s.hashes.contains_key(a[1])) as i64),
        ("DEL", n) if n >= 2 => {
            let mut r = 0;
            for k in &a[1..] {
                r += (s.lists.remove(*k).is_some() || s.hashes.remove(*k).is_some()) as i64;
            }
            int(r)
        }
        _ => format!("-ERR unknown command '{}'\r\n", a[0]).into_bytes(),
    }
}

impl Backend for RedisShim {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.with(|r| r.queue_push(q, item))
    }
    fn queue_move(
        &self,
        from: &str,
        to: &str,
        count: usize,
        fd: QueueDirection,
        td: QueueDirection,
    ) -> Result<Vec<String>, Error> {
        self.with(|r| r.queue_move(from, to, count, fd, td))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.with(|r| r.queue_remove(q, item))
    }
    fn queue_get(&self, q: &str, count: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.with(|r| r.queue_get(q, count, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.with(|r| r.queue_count(q))
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.with(|r| r.storage_upsert(h, k, v))
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.with(|r| r.storage_get(h, k))
    }
}

// ---- the observer ----

#[derive(Default)]
pub struct Ctl {
    pub ops: u64,
    /// Remaining faults that may be injected by choice, at any operation.
    pub fault_budget: u32,
    /// Operations that failed: (index, description).
    pub faulted: Vec<(u64, String)>,
    /// Stop the process at this operation, before or after its effect.
    pub crash_at: Option<(u64, bool)>,
    pub log: Vec<String>,
    pub keep_log: bool,
}
thread_local! {
    pub static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
    pub static ON_CRASH: RefCell<Option<Box<dyn Fn() -> Vec<u8>>>> = const { RefCell::new(None) };
}

pub fn injected() -> Error {
    Error::Redis(redis_error())
}
fn redis_error() -> redis::RedisError {
    redis::RedisError::from((redis::ErrorKind::IoError, "injected backend failure"))
}

pub struct Spy(Box<dyn Backend + Send + Sync>);

impl Spy {
    pub fn new(kind: Kind, store: &Shared) -> Spy {
        Spy(match kind {
            Kind::Mem => Box::new(InMemory::default()),
            Kind::Ref => Box::new(RefBackend(store.clone())),
            Kind::Redis => Box::new(RedisShim(store.clone())),
        })
    }
    fn around<T>(&self, what: &str, f: impl FnOnce() -> Result<T, Error>) -> Result<T, Error> {
        let (i, budget, crash) = CTL.with(|c| {
            let mut c = c.borrow_mut();
            c.ops += 1;
            if c.keep_log {
                let l = format!("t={} op {} {what}", actix_rt::mc::now_ns() / 1_000_000, c.ops - 1);
                c.log.push(l);
            }
            (c.ops - 1, c.fault_budget, c.crash_at)
        });
        explore::note_transition();
        if crash == Some((i, true)) {
            die();
        }
        if budget > 0 && explore::choose(2, "fault") == 1 {
            CTL.with(|c| {
                let mut c = c.borrow_mut();
                c.fault_budget -= 1;
                c.faulted.push((i, what.to_string()));
            });
            return Err(injected());
        }
        let r = f();
        if crash == Some((i, false)) {
            die();
        }
        r
    }
}

fn die() -> ! {
    let data = ON_CRASH.with(|c| c.borrow().as_ref().map(|f| f()).unwrap_or_default());
    explore::child_finish(data)
}

impl Backend for Spy {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.around(&format!("push {q} {item}"), || self.0.queue_push(q, item))
    }
    fn queue_move(
        &self,
        from: &str,
        to: &str,
        count: usize,
        fd: QueueDirection,
        td: QueueDirection,
    ) -> Result<Vec<String>, Error> {
        self.around(&format!("move {from}->{to} x{count}"), || self.0.queue_move(from, to, count, fd, td))
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.around(&format!("remove {q} {item}"), || self.0.queue_remove(q, item))
    }
    fn queue_get(&self, q: &str, count: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.around(&format!("get {q} x{count}"), || self.0.queue_get(q, count, d))
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.around(&format!("count {q}"), || self.0.queue_count(q))
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.around(&format!("upsert {h}/{k}"), || self.0.storage_upsert(h, k, v))
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.around(&format!("hget {h}/{k}"), || self.0.storage_get(h, k))
    }
}
