//! The scheduler on programs with known answers.
use mc_std::sched::{self, explore, Body, Outcome};
use mc_std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::*};
use mc_std::sync::{Condvar, Mutex, RwLock};
use std::sync::Arc;
use std::sync::Mutex as Real;

static ONE: Real<()> = Real::new(());

fn go<S: Send + Sync + 'static>(
    bound: u32,
    s: impl Fn() -> S,
    bodies: &[fn(&S)],
    ok: fn(&S) -> bool,
) -> (u64, Result<(), String>) {
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let (st, r) = explore(
        bound,
        1_000_000,
        || {
            let s = Arc::new(s());
            let bs: Vec<Body> = bodies
                .iter()
                .map(|b| {
                    let (s, b) = (s.clone(), *b);
                    Box::new(move || b(&s)) as Body
                })
                .collect();
            let check = move |o: &Outcome| {
                if let Some(p) = o.panics.iter().flatten().next() {
                    return Err(p.clone());
                }
                if ok(&s) {
                    Ok(())
                } else {
                    Err("wrong".to_string())
                }
            };
            (bs, Box::new(check) as Box<dyn FnOnce(&Outcome) -> Result<(), String>>)
        },
        || (),
    );
    assert!(!st.capped);
    (st.executions, r)
}

#[test]
fn lost_update() {
    let inc = |s: &AtomicUsize| {
        let v = s.load(SeqCst);
        s.store(v + 1, SeqCst);
    };
    let ok = |s: &AtomicUsize| s.load(SeqCst) == 2;
    assert!(go(0, || AtomicUsize::new(0), &[inc, inc], ok).1.is_ok());
    assert!(go(1, || AtomicUsize::new(0), &[inc, inc], ok).1.is_err());
    let inc = |s: &AtomicUsize| {
        s.fetch_add(1, SeqCst);
    };
    assert!(go(9, || AtomicUsize::new(0), &[inc, inc], ok).1.is_ok());
}

#[test]
fn counts_interleavings() {
    // two threads of n conflicting steps each: binomial(2n, n) orders
    let two = |s: &AtomicUsize| {
        s.fetch_add(1, SeqCst);
        s.fetch_add(1, SeqCst);
    };
    let (n, r) = go(99, || AtomicUsize::new(0), &[two, two], |_| true);
    assert!(r.is_ok());
    assert!(n >= 6, "{}", n);
    // no conflict: one order per first thread
    let (n, r) = go(
        99,
        || [AtomicUsize::new(0), AtomicUsize::new(0)],
        &[|s: &[AtomicUsize; 2]| { s[0].fetch_add(1, SeqCst); }, |s| { s[1].fetch_add(1, SeqCst); }],
        |_| true,
    );
    assert!(r.is_ok());
    assert_eq!(n, 2);
}

#[test]
fn deadlock() {
    type S = (Mutex<()>, Mutex<()>);
    let s = || (Mutex::new(()), Mutex::new(()));
    let ab = |s: &S| {
        let _a = s.0.lock().unwrap();
        let _b = s.1.lock().unwrap();
    };
    let ba = |s: &S| {
        let _b = s.1.lock().unwrap();
        let _a = s.0.lock().unwrap();
    };
    assert!(go(9, s, &[ab, ab], |_| true).1.is_ok());
    let r = go(1, s, &[ab, ba], |_| true).1;
    assert!(r.unwrap_err().starts_with("deadlock"));
    // a thread that locks twice
    let r = go(0, s, &[|s: &S| { let _a = s.0.lock(); let _b = s.0.lock(); }], |_| true).1;
    assert!(r.unwrap_err().starts_with("deadlock"));
}

#[test]
fn read_locks_are_shared() {
    let s = || RwLock::new(1);
    let r = |s: &RwLock<i32>| {
        let _a = s.read().unwrap();
    };
    let w = |s: &RwLock<i32>| *s.write().unwrap() += 1;
    assert!(go(9, s, &[r, r, w], |s| *s.read().unwrap() == 2).1.is_ok());
    // a check and an act under two acquisitions
    let bad = |s: &RwLock<i32>| {
        let v = *s.read().unwrap();
        *s.write().unwrap() = v + 1;
    };
    assert!(go(1, s, &[bad, bad], |s| *s.read().unwrap() == 3).1.is_err());
}

#[test]
fn conditions() {
    type S = (Mutex<bool>, Condvar);
    let s = || (Mutex::new(false), Condvar::new());
    let wait = |s: &S| {
        let mut g = s.0.lock().unwrap();
        while !*g {
            g = s.1.wait(g).unwrap();
        }
    };
    let set = |s: &S| {
        *s.0.lock().unwrap() = true;
        s.1.notify_one();
    };
    assert!(go(9, s, &[wait, set], |_| true).1.is_ok());
    let forgetful = |s: &S| *s.0.lock().unwrap() = true;
    assert!(go(9, s, &[wait, forgetful], |_| true).1.is_err());
    // the wakeup is lost between the test and the wait
    let bad_wait = |s: &S| {
        let v = *s.0.lock().unwrap();
        if !v {
            let g = s.0.lock().unwrap();
            let _g = s.1.wait(g).unwrap();
        }
    };
    assert!(go(2, s, &[bad_wait, set], |_| true).1.is_err());
}

#[test]
fn spinning_ends() {
    let s = || AtomicUsize::new(0);
    let spin = |s: &AtomicUsize| while s.load(SeqCst) == 0 {};
    let set = |s: &AtomicUsize| s.store(1, SeqCst);
    assert!(go(1, s, &[spin, set], |_| true).1.is_ok());
    assert!(go(0, s, &[spin, |_| ()], |_| true).1.unwrap_err().contains("livelock"));
}

/// A hand-over through an atomic orders the accesses only when it releases and acquires.
#[test]
fn ordering() {
    static mut CELL: u32 = 0;
    let s = || AtomicPtr::new(std::ptr::null_mut::<u32>());
    let give = |s: &AtomicPtr<u32>| {
        let p = &raw mut CELL;
        sched::buffer(p as usize, true, "write");
        s.store(p, Release);
    };
    let give_relaxed = |s: &AtomicPtr<u32>| {
        let p = &raw mut CELL;
        sched::buffer(p as usize, true, "write");
        s.store(p, Relaxed);
    };
    let take = |s: &AtomicPtr<u32>| {
        let p = s.load(Acquire);
        if !p.is_null() {
            sched::buffer(p as usize, false, "read");
        }
    };
    assert!(go(9, s, &[give, take], |_| true).1.is_ok());
    let r = go(9, s, &[give_relaxed, take], |_| true).1;
    assert!(r.unwrap_err().contains("not ordered"));
}

#[test]
fn poisoning() {
    let s = || Mutex::new(0);
    let bad = |s: &Mutex<i32>| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = s.lock();
            panic!("while holding");
        }));
    };
    let user = |s: &Mutex<i32>| *s.lock().unwrap() += 1;
    assert!(go(0, s, &[user, bad], |_| true).1.is_err());
    let careful = |s: &Mutex<i32>| *s.lock().unwrap_or_else(|e| e.into_inner()) += 1;
    assert!(go(3, s, &[careful, bad], |s| *s.lock().unwrap_or_else(|e| e.into_inner()) == 1).1.is_ok());
}

#[test]
fn tries_fail_while_others_hold_the_lock() {
    let hold = |s: &Mutex<usize>| {
        *s.lock().unwrap() += 1;
    };
    let attempt = |s: &Mutex<usize>| {
        *s.try_lock().unwrap() += 1;
    };
    assert!(go(0, || Mutex::new(0), &[hold, attempt], |_| true).1.is_ok());
    assert!(go(1, || Mutex::new(0), &[hold, attempt], |_| true).1.is_err());
    let patient = |s: &Mutex<usize>| {
        while s.try_lock().is_err() {
            sched::yield_point();
        }
    };
    assert!(go(2, || Mutex::new(0), &[hold, patient], |_| true).1.is_ok());
}
