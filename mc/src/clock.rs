//! The wall clock of the code under test.
//!
//! `clock_gettime(CLOCK_REALTIME)` is interposed at link time, so `Utc::now()`, `SystemTime::now()` and
//! anything else the code may use to read the date sees the model's virtual time: base + virtual
//! nanoseconds + an optional drift that every read adds (time passing between two reads).
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

pub static VIRTUAL: AtomicBool = AtomicBool::new(false);
/// Epoch nanoseconds at virtual time 0.
pub static BASE: AtomicI64 = AtomicI64::new(1_741_944_413_250_333_217); // 2025-03-14T09:26:53.250333217Z
pub static DRIFT_PER_READ: AtomicU64 = AtomicU64::new(0);
pub static DRIFT: AtomicI64 = AtomicI64::new(0);

fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32 }
}

#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if VIRTUAL.load(SeqCst) && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        let d = DRIFT_PER_READ.load(SeqCst) as i64;
        let drift = DRIFT.fetch_add(d, SeqCst) + d;
        let t = BASE.load(SeqCst) + actix_rt::mc::now_ns() as i64 + drift;
        unsafe {
            (*ts).tv_sec = t.div_euclid(1_000_000_000);
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        }
        return 0;
    }
    raw(clk, ts)
}

/// Epoch nanoseconds as the code under test would read them, without drifting the clock.
pub fn epoch_ns() -> i64 {
    BASE.load(SeqCst) + actix_rt::mc::now_ns() as i64 + DRIFT.load(SeqCst)
}

/// Real monotonic seconds.
pub fn mono() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
