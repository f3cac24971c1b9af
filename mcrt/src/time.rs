//! Tokio's clock, paused: see `core::runtime`.  Same re-exports as the real crate.
pub use tokio::time::{
    interval, interval_at, sleep, sleep_until, timeout, Instant, Interval, Sleep, Timeout,
};
