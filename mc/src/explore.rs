//! Exhaustive exploration by process snapshots.
//!
//! An execution of the system under test runs in a single-threaded process.  At a choice point with
//! `n` alternatives the process forks: each alternative continues from an exact snapshot of the whole
//! program (statics, heap, runtime, virtual clock).  Every edge of the choice tree is executed exactly
//! once, every leaf is one complete execution, and no state leaks between executions.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

const TABLE: usize = 1 << 22;
const NSAMPLES: usize = 6;
const SAMPLE: usize = 6 * 1024;
const NVIOL: usize = 24;
const VIOL: usize = 48 * 1024;

#[repr(C)]
pub struct Shared {
    pub leaves: AtomicU64,
    pub branches: AtomicU64,
    pub transitions: AtomicU64,
    pub evaluations: AtomicU64,
    pub states: AtomicU64,
    pub outcomes: AtomicU64,
    pub max_choices: AtomicU64,
    pub viol: AtomicU32,
    pub samples: AtomicU32,
    pub tokens: AtomicI32,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub errors: AtomicU32,
    sample_len: [AtomicU32; NSAMPLES],
    viol_len: [AtomicU32; NVIOL],
    err_text: [u8; 4096],
    sample_buf: [[u8; SAMPLE]; NSAMPLES],
    viol_buf: [[u8; VIOL]; NVIOL],
    state_table: [AtomicU64; TABLE],
    outcome_table: [AtomicU64; TABLE],
}

static mut SH: *mut Shared = std::ptr::null_mut();
pub fn sh() -> &'static Shared {
    unsafe { &*SH }
}

struct Proc {
    choices: Vec<u16>,
    widths: Vec<u16>,
    labels: Vec<String>,
    replay: Option<Vec<u16>>,
    pos: usize,
    kids: Vec<libc::pid_t>,
    holds_token: bool,
    suite: String,
    transitions: u64,
    evaluations: u64,
}
impl Proc {
    const fn new() -> Self {
        Proc {
            choices: vec![],
            widths: vec![],
            labels: vec![],
            replay: None,
            pos: 0,
            kids: vec![],
            holds_token: false,
            suite: String::new(),
            transitions: 0,
            evaluations: 0,
        }
    }
}
thread_local! { static P: RefCell<Proc> = const { RefCell::new(Proc::new()) }; }

/// Wall seconds one execution may stay inside the code under test without a choice or a leaf.
const HANG_S: i64 = 40;

fn arm(secs: i64) {
    unsafe {
        libc::alarm(secs as u32);
    }
}

extern "C" fn on_alarm(_: i32) {
    // Only reached when the code under test does not come back; the process is single-threaded and
    // is about to exit, so formatting here is acceptable.
    report_violation("the execution does not terminate: the code under test neither returned nor yielded", &[]);
    unsafe { libc::_exit(3) };
}

pub fn init_shared(par: i32) {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        SH = p as *mut Shared;
        libc::signal(libc::SIGALRM, on_alarm as *const () as usize);
    }
    sh().tokens.store(par - 1, SeqCst);
}

fn h64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^= h >> 32;
    if h == 0 {
        1
    } else {
        h
    }
}

fn insert(table: &[AtomicU64; TABLE], count: &AtomicU64, h: u64) {
    let mut i = (h as usize) % TABLE;
    for _ in 0..TABLE {
        match table[i].compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => {
                count.fetch_add(1, SeqCst);
                return;
            }
            Err(v) if v == h => return,
            Err(_) => i = (i + 1) % TABLE,
        }
    }
}

/// Records a visited state (digest of an observable state).
pub fn note_state(s: &str) {
    let suite = P.with(|p| h64(p.borrow().suite.as_bytes()));
    insert(&sh().state_table, &sh().states, h64(s.as_bytes()) ^ suite | 1);
}
/// Counts one executed transition (API call, clock advance or task poll).
pub fn note_transition() {
    P.with(|p| p.borrow_mut().transitions += 1);
}
/// Counts one oracle evaluation.
pub fn note_eval() {
    P.with(|p| p.borrow_mut().evaluations += 1);
}

fn flush_counts() {
    P.with(|p| {
        let mut p = p.borrow_mut();
        sh().transitions.fetch_add(p.transitions, SeqCst);
        sh().evaluations.fetch_add(p.evaluations, SeqCst);
        p.transitions = 0;
        p.evaluations = 0;
    });
}

fn wait_kid(pid: libc::pid_t) {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return;
        }
    }
    if libc::WIFSIGNALED(st) && !sh().stop.load(SeqCst) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGKILL {
            // out of memory or killed from outside: an error of the check, never a verdict
            report_error("an explorer process was killed (SIGKILL)");
        } else {
            report_violation(
                &format!("the process executing the code under test died with signal {sig}"),
                &["(the failing execution is a continuation of these choices)".into()],
            );
        }
    }
}

thread_local! { static DEADLINE: std::cell::Cell<f64> = const { std::cell::Cell::new(f64::MAX) }; }
/// Real monotonic second after which no further branches are taken (reported as a cap).
pub fn set_deadline(t: f64) {
    DEADLINE.with(|d| d.set(t));
}

/// A nondeterministic choice: explores every value in `0..n`.
pub fn choose(n: usize, label: &str) -> usize {
    assert!(n > 0 && n < 60000);
    let replayed = P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(r) = &p.replay {
            let c = match r.get(p.pos) {
                Some(c) => *c,
                None => 0,
            };
            assert!((c as usize) < n, "replay diverged at choice {} ({label}): {c} of {n}", p.pos);
            p.pos += 1;
            p.choices.push(c);
            p.widths.push(n as u16);
            p.labels.push(label.to_string());
            return Some(c as usize);
        }
        None
    });
    if let Some(c) = replayed {
        return c;
    }
    if n == 1 {
        push(0, 1, label);
        return 0;
    }
    if crate::clock::mono() > DEADLINE.with(|d| d.get()) {
        sh().capped.store(true, SeqCst);
        sh().stop.store(true, SeqCst);
    }
    if sh().stop.load(SeqCst) {
        end_process();
    }
    sh().branches.fetch_add(n as u64, SeqCst);
    arm(0);
    flush_counts();
    for i in 0..n - 1 {
        if sh().stop.load(SeqCst) {
            end_process();
        }
        let tok = sh().tokens.fetch_sub(1, SeqCst);
        let par = tok > 0;
        if !par {
            sh().tokens.fetch_add(1, SeqCst);
        }
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            if par {
                sh().tokens.fetch_add(1, SeqCst);
            }
            report_error("fork failed");
            end_process();
        }
        if pid == 0 {
            P.with(|p| {
                let mut p = p.borrow_mut();
                p.kids.clear();
                p.holds_token = par;
            });
            push(i as u16, n as u16, label);
            arm(HANG_S);
            return i;
        }
        if par {
            P.with(|p| p.borrow_mut().kids.push(pid));
        } else {
            wait_kid(pid);
        }
    }
    push(n as u16 - 1, n as u16, label);
    arm(HANG_S);
    n - 1
}

fn push(c: u16, n: u16, label: &str) {
    P.with(|p| {
        let mut p = p.borrow_mut();
        p.choices.push(c);
        p.widths.push(n);
        p.labels.push(label.to_string());
    });
}

/// For loops that enumerate inside one process: still alive, and may go on.
pub fn alive() -> bool {
    arm(HANG_S);
    if crate::clock::mono() > DEADLINE.with(|d| d.get()) {
        sh().capped.store(true, SeqCst);
        sh().stop.store(true, SeqCst);
    }
    !sh().stop.load(SeqCst)
}

/// Counts executions that were enumerated inside this process.
pub fn note_leaves(n: u64) {
    sh().leaves.fetch_add(n, SeqCst);
}
pub fn note_transitions(n: u64) {
    P.with(|p| p.borrow_mut().transitions += n);
}
pub fn note_outcome(o: &str) {
    let suite = P.with(|p| h64(p.borrow().suite.as_bytes()));
    insert(&sh().outcome_table, &sh().outcomes, h64(o.as_bytes()) ^ suite | 1);
}

/// Picks one of the items.
pub fn pick<'a, T>(items: &'a [T], label: &str) -> &'a T {
    &items[choose(items.len(), label)]
}

/// Ends this execution.
pub fn finish() -> ! {
    if OUT_FD.with(|f| f.get()) >= 0 {
        child_finish(vec![])
    }
    end_process()
}

fn end_process() -> ! {
    arm(0);
    flush_counts();
    let (kids, tok) = P.with(|p| {
        let mut p = p.borrow_mut();
        (std::mem::take(&mut p.kids), p.holds_token)
    });
    if tok {
        // the token stands for a running process: give it back before blocking on children
        sh().tokens.fetch_add(1, SeqCst);
    }
    for k in kids {
        wait_kid(k);
    }
    unsafe { libc::_exit(0) }
}

pub fn trace_text() -> String {
    P.with(|p| {
        let p = p.borrow();
        let mut s = String::new();
        for i in 0..p.choices.len() {
            if p.widths[i] > 1 {
                s.push_str(&format!("{}={}/{} ", p.labels[i], p.choices[i], p.widths[i]));
            }
        }
        s
    })
}

pub fn report_error(msg: &str) {
    let n = sh().errors.fetch_add(1, SeqCst);
    if n == 0 {
        let b = msg.as_bytes();
        let l = b.len().min(4000);
        unsafe {
            let dst = std::ptr::addr_of_mut!((*SH).err_text) as *mut u8;
            std::ptr::copy_nonoverlapping(b.as_ptr(), dst, l);
        }
    }
    sh().stop.store(true, SeqCst);
}

/// Records a violation found in this execution, with its choices and the given log lines.
pub fn report_violation(msg: &str, log: &[String]) {
    let (suite, choices, replaying) = P.with(|p| {
        let p = p.borrow();
        (p.suite.clone(), p.choices.clone(), p.replay.is_some())
    });
    let mut text = format!(
        "{{\"suite\":{},\"choices\":{:?}}}\n{}\ntrace: {}\n",
        serde_json::to_string(&suite).unwrap(),
        choices,
        msg,
        trace_text()
    );
    for l in log {
        text.push_str(l);
        text.push('\n');
    }
    if replaying {
        println!("{text}");
    }
    let n = sh().viol.fetch_add(1, SeqCst) as usize;
    if n < NVIOL {
        let mut l = text.len().min(VIOL);
        while !text.is_char_boundary(l) {
            l -= 1;
        }
        unsafe {
            let dst = std::ptr::addr_of_mut!((*SH).viol_buf[n]) as *mut u8;
            std::ptr::copy_nonoverlapping(text.as_ptr(), dst, l);
        }
        sh().viol_len[n].store(l as u32, SeqCst);
    }
    if n + 1 >= NVIOL {
        sh().stop.store(true, SeqCst);
    }
}

/// Ends this execution: counts the leaf and its observable outcome.
pub fn leaf(outcome: &str, story: &str) {
    note_state(outcome);
    sh().leaves.fetch_add(1, SeqCst);
    let (nch, suite) = P.with(|p| {
        let p = p.borrow();
        (p.choices.len() as u64, p.suite.clone())
    });
    sh().max_choices.fetch_max(nch, SeqCst);
    let before = sh().outcomes.load(SeqCst);
    insert(
        &sh().outcome_table,
        &sh().outcomes,
        h64(format!("{suite}|{outcome}").as_bytes()),
    );
    if sh().outcomes.load(SeqCst) != before || before < 2 {
        let n = sh().samples.fetch_add(1, SeqCst) as usize;
        if n < NSAMPLES {
            let t = format!("[{suite}] {}{story} => {outcome}", trace_text());
            let mut l = t.len().min(SAMPLE);
            while !t.is_char_boundary(l) {
                l -= 1;
            }
            unsafe {
                let dst = std::ptr::addr_of_mut!((*SH).sample_buf[n]) as *mut u8;
                std::ptr::copy_nonoverlapping(t.as_ptr(), dst, l);
            }
            sh().sample_len[n].store(l as u32, SeqCst);
        }
    }
}

/// Runs `body` on every path of its choice tree.  Returns when the tree is exhausted.
pub fn explore(suite: &str, replay: Option<Vec<u16>>, body: impl FnOnce()) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        P.with(|p| {
            let mut p = p.borrow_mut();
            p.holds_token = true;
            p.suite = suite.to_string();
            p.replay = replay;
        });
        arm(HANG_S);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        if let Err(e) = r {
            let m = panic_text(&*e);
            // The harness is deterministic and does not panic on a tree where the property holds: whatever
            // came out of the code under test here is outside what the scenario allows.
            report_violation(&format!("panic on the harness thread: {m}"), &crate::world::log_lines());
        }
        end_process();
    }
    wait_kid(pid);
}

thread_local! { static OUT_FD: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) }; }

fn send_result(ok: u8, data: Vec<u8>) -> ! {
    flush_counts();
    let fd = OUT_FD.with(|f| f.get());
    let mut out = vec![ok];
    out.extend(data);
    let mut off = 0;
    while off < out.len() {
        let n = unsafe { libc::write(fd, out[off..].as_ptr() as *const _, out.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::_exit(0) }
}

/// Inside [`in_child`]: ends the child here and now, with this result (the machine stops).
pub fn child_finish(data: Vec<u8>) -> ! {
    send_result(1, data)
}

/// Runs the body once in a child process and returns the bytes it produced.  The body makes no choices.
/// Used for phases (run, crash, restart) that need pristine program statics.
pub fn in_child(body: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        arm(0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            arm(HANG_S);
            OUT_FD.with(|f| f.set(fds[1]));
            P.with(|p| {
                let mut p = p.borrow_mut();
                p.kids.clear();
                p.holds_token = false;
                p.transitions = 0;
                p.evaluations = 0;
            });
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                Ok(d) => send_result(1, d),
                Err(e) => send_result(0, panic_text(&*e).into_bytes()),
            }
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut chunk = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        wait_kid(pid);
        arm(HANG_S);
        match buf.first() {
            Some(1) => Ok(buf[1..].to_vec()),
            Some(_) => Err(String::from_utf8_lossy(&buf[1..]).into()),
            None => Err("child produced no result".into()),
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

pub fn samples() -> Vec<String> {
    (0..NSAMPLES)
        .filter_map(|i| {
            let l = sh().sample_len[i].load(SeqCst) as usize;
            (l > 0).then(|| String::from_utf8_lossy(&sh().sample_buf[i][..l]).into_owned())
        })
        .collect()
}
pub fn violations() -> Vec<String> {
    (0..NVIOL)
        .filter_map(|i| {
            let l = sh().viol_len[i].load(SeqCst) as usize;
            (l > 0).then(|| String::from_utf8_lossy(&sh().viol_buf[i][..l]).into_owned())
        })
        .collect()
}
pub fn error_text() -> String {
    let b = &sh().err_text;
    let l = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..l]).into_owned()
}
