use crate::atomics::Id;
use crate::sched;
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync as real;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

pub struct Mutex<T: ?Sized> {
    id: Id,
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    g: ManuallyDrop<real::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
    ctl: bool,
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { id: Id::new(), inner: real::Mutex::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(
        &'a self,
        r: LockResult<real::MutexGuard<'a, T>>,
        ctl: bool,
    ) -> LockResult<MutexGuard<'a, T>> {
        let mk = |g| MutexGuard { g: ManuallyDrop::new(g), m: self, ctl };
        match r {
            Ok(g) => Ok(mk(g)),
            Err(e) => Err(PoisonError::new(mk(e.into_inner()))),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let ctl = sched::acquire(self.id.get(), true);
        self.wrap(self.inner.lock(), ctl)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        match sched::try_acquire(self.id.get(), true) {
            Some(false) => Err(TryLockError::WouldBlock),
            Some(true) => self.wrap(self.inner.lock(), true).map_err(TryLockError::Poisoned),
            None => match self.inner.try_lock() {
                Ok(g) => self.wrap(Ok(g), false).map_err(TryLockError::Poisoned),
                Err(TryLockError::Poisoned(e)) => {
                    self.wrap(Err(e), false).map_err(TryLockError::Poisoned)
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            },
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.ctl {
            sched::leave(self.m.id.get());
        }
        unsafe { ManuallyDrop::drop(&mut self.g) };
        if self.ctl {
            sched::release(self.m.id.get(), true);
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    id: Id,
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    g: ManuallyDrop<real::RwLockReadGuard<'a, T>>,
    m: &'a RwLock<T>,
    ctl: bool,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    g: ManuallyDrop<real::RwLockWriteGuard<'a, T>>,
    m: &'a RwLock<T>,
    ctl: bool,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { id: Id::new(), inner: real::RwLock::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $G:ident, $excl:expr) => {
        pub fn $lock(&self) -> LockResult<$G<'_, T>> {
            let ctl = sched::acquire(self.id.get(), $excl);
            let mk = |g| $G { g: ManuallyDrop::new(g), m: self, ctl };
            match self.inner.$lock() {
                Ok(g) => Ok(mk(g)),
                Err(e) => Err(PoisonError::new(mk(e.into_inner()))),
            }
        }
        pub fn $try(&self) -> TryLockResult<$G<'_, T>> {
            let ctl = match sched::try_acquire(self.id.get(), $excl) {
                Some(false) => return Err(TryLockError::WouldBlock),
                Some(true) => true,
                None => false,
            };
            let mk = |g| $G { g: ManuallyDrop::new(g), m: self, ctl };
            match self.inner.$try() {
                Ok(g) => Ok(mk(g)),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new(mk(e.into_inner()))))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard, false);
    rw!(write, try_write, RwLockWriteGuard, true);
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
macro_rules! rwg {
    ($G:ident, $excl:expr) => {
        impl<T: ?Sized> Drop for $G<'_, T> {
            fn drop(&mut self) {
                if self.ctl {
                    sched::leave(self.m.id.get());
                }
                unsafe { ManuallyDrop::drop(&mut self.g) };
                if self.ctl {
                    sched::release(self.m.id.get(), $excl);
                }
            }
        }
        impl<T: ?Sized> Deref for $G<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.g
            }
        }
    };
}
rwg!(RwLockReadGuard, false);
rwg!(RwLockWriteGuard, true);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    id: Id,
    inner: real::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: Id::new(), inner: real::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        if g.ctl {
            drop(g);
            sched::cond_wait(self.id.get());
            return m.lock();
        }
        let mut g = ManuallyDrop::new(g);
        let inner = unsafe { ManuallyDrop::take(&mut g.g) };
        m.wrap(self.inner.wait(inner), false)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        if g.ctl {
            drop(g);
            sched::yield_point();
            return match m.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            };
        }
        let mut g = ManuallyDrop::new(g);
        let inner = unsafe { ManuallyDrop::take(&mut g.g) };
        let mk = |g| MutexGuard { g: ManuallyDrop::new(g), m, ctl: false };
        match self.inner.wait_timeout(inner, d) {
            Ok((g, t)) => Ok((mk(g), WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((mk(g), WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    pub fn notify_one(&self) {
        sched::cond_notify(self.id.get(), false);
        self.inner.notify_one();
    }
    pub fn notify_all(&self) {
        sched::cond_notify(self.id.get(), true);
        self.inner.notify_all();
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

pub struct OnceLock<T> {
    init: Mutex<()>,
    inner: real::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { init: Mutex::new(()), inner: real::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
        self.inner.get()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
        self.inner.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _g = self.init.lock().unwrap_or_else(|e| e.into_inner());
        if self.inner.get().is_none() {
            let v = f();
            let _ = self.inner.set(v);
        }
        self.inner.get().unwrap()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: OnceLock<T>,
    f: real::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: OnceLock::new(), f: real::Mutex::new(Some(f)) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.once.get_or_init(|| {
            let f = this.f.lock().unwrap_or_else(|e| e.into_inner()).take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once {
    once: OnceLock<()>,
}
impl Once {
    pub const fn new() -> Self {
        Once { once: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.once.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.once.get().is_some()
    }
}
