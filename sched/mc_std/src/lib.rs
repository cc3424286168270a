//! Stands in for `std` in a copy of the library: everything is the real `std`, except that
//! locks, atomics and friends report to a scheduler that decides which thread goes on.
//! Threads that are not under its control pass straight through.
#![allow(deprecated)]
pub use ::std::*;

mod atomics;
mod locks;
pub mod sched;

pub mod sync {
    pub use crate::locks::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::atomics::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
            AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if crate::sched::controlled() {
            crate::sched::yield_point();
        } else {
            ::std::thread::yield_now();
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if crate::sched::controlled() {
            crate::sched::yield_point();
        } else {
            ::std::thread::sleep(d);
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if crate::sched::controlled() {
            crate::sched::yield_point();
        } else {
            ::std::hint::spin_loop();
        }
    }
}
