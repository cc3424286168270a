use crate::sched::{atomic, Kind};
use std::fmt;
use std::sync::atomic as real;
use std::sync::atomic::Ordering;

/// Numbers an object when it is first used.
pub(crate) struct Id(real::AtomicU64);
static NEXT: real::AtomicU64 = real::AtomicU64::new(1 << 60);
impl Id {
    pub(crate) const fn new() -> Id {
        Id(real::AtomicU64::new(0))
    }
    pub(crate) fn get(&self) -> u64 {
        let v = self.0.load(Ordering::Relaxed);
        if v != 0 {
            return v;
        }
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        match self.0.compare_exchange(0, n, Ordering::Relaxed, Ordering::Relaxed) {
            Ok(_) => n,
            Err(v) => v,
        }
    }
}

pub fn fence(o: Ordering) {
    atomic(1, Kind::Fence, o);
    real::fence(o);
}

macro_rules! basic {
    ($name:ident, $t:ty, [$($g:tt)*]) => {
        impl $($g)* $name $($g)* {
            pub const fn new(v: $t) -> Self {
                Self { id: Id::new(), inner: real::$name::new(v) }
            }
            pub fn load(&self, o: Ordering) -> $t {
                atomic(self.id.get(), Kind::Load, o);
                self.inner.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                atomic(self.id.get(), Kind::Store, o);
                self.inner.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                atomic(self.id.get(), Kind::Rmw, o);
                self.inner.swap(v, o)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                atomic(self.id.get(), Kind::Rmw, o);
                self.inner.compare_and_swap(c, n, o)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                atomic(self.id.get(), Kind::Rmw, s);
                self.inner.compare_exchange(c, n, s, f)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self, s: Ordering, f: Ordering, mut g: F,
            ) -> Result<$t, $t> {
                let mut p = self.load(f);
                while let Some(n) = g(p) {
                    match self.compare_exchange(p, n, s, f) {
                        Ok(x) => return Ok(x),
                        Err(x) => p = x,
                    }
                }
                Err(p)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.inner.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.inner.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.inner.as_ptr()
            }
        }
        impl $($g)* From<$t> for $name $($g)* {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $($g)* fmt::Debug for $name $($g)* {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.inner.fmt(f)
            }
        }
    };
}

macro_rules! ints {
    ($($name:ident $t:ty;)*) => { $(
        pub struct $name { id: Id, inner: real::$name }
        basic!($name, $t, []);
        impl Default for $name {
            fn default() -> Self { Self::new(Default::default()) }
        }
        ints!(@op $name $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
    )* };
    (@op $name:ident $t:ty, $($op:ident)*) => {
        impl $name { $(
            pub fn $op(&self, v: $t, o: Ordering) -> $t {
                atomic(self.id.get(), Kind::Rmw, o);
                self.inner.$op(v, o)
            }
        )* }
    };
}
ints! {
    AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32;
    AtomicI32 i32; AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8;
}

pub struct AtomicBool {
    id: Id,
    inner: real::AtomicBool,
}
basic!(AtomicBool, bool, []);
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
ints!(@op AtomicBool bool, fetch_and fetch_nand fetch_or fetch_xor);

pub struct AtomicPtr<T> {
    id: Id,
    inner: real::AtomicPtr<T>,
}
basic!(AtomicPtr, *mut T, [<T>]);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> fmt::Pointer for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.inner, f)
    }
}
