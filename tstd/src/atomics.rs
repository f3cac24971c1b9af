#![allow(deprecated)]
use crate::sched::point;
use std::sync::atomic::Ordering;

macro_rules! base {
    ($n:ident, $t:ty) => {
        #[derive(Default, Debug)]
        pub struct $n(std::sync::atomic::$n);
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $n {
            pub const fn new(v: $t) -> Self {
                $n(std::sync::atomic::$n::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                point();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                point();
                self.0.fetch_update(s, f, g)
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_xor(v, o)
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
        }
    };
}
macro_rules! num {
    ($n:ident, $t:ty) => {
        base!($n, $t);
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_add(v, o)
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_sub(v, o)
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_max(v, o)
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.fetch_min(v, o)
            }
        }
    };
}
base!(AtomicBool, bool);
num!(AtomicUsize, usize);
num!(AtomicIsize, isize);
num!(AtomicU64, u64);
num!(AtomicI64, i64);
num!(AtomicU32, u32);
num!(AtomicI32, i32);
