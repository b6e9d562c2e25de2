pub use ::std::sync::*;

use crate::control::{self, Op};
pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::{
    fmt,
    ops::{Deref, DerefMut},
    sync as real,
    time::Duration,
};

fn at<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

// ---------------------------------------------------------------------------
// Mutex

pub struct Mutex<T: ?Sized>(real::Mutex<T>);

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: Option<real::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(real::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(
        &'a self,
        r: LockResult<real::MutexGuard<'a, T>>,
    ) -> LockResult<MutexGuard<'a, T>> {
        control::took(at(self), true);
        let r = match r {
            Ok(g) => Ok(MutexGuard {
                lock: self,
                inner: Some(g),
            }),
            Err(e) => Err(PoisonError::new(MutexGuard {
                lock: self,
                inner: Some(e.into_inner()),
            })),
        };
        control::go("locked");
        r
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        control::point(Op::Lock(at(self)));
        self.guard(self.0.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        control::go("try to lock");
        match self.0.try_lock() {
            Ok(g) => Ok(self.guard(Ok(g)).unwrap_or_else(|e| e.into_inner())),
            Err(TryLockError::Poisoned(e)) => match self.guard(Err(e)) {
                Err(e) => Err(TryLockError::Poisoned(e)),
                Ok(g) => Ok(g),
            },
            Err(TryLockError::WouldBlock) => {
                control::give_way();
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() {
            control::released(at(self.lock), true);
            control::go("unlocked");
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        control::go("format");
        self.0.fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ---------------------------------------------------------------------------
// RwLock

pub struct RwLock<T: ?Sized>(real::RwLock<T>);

pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<real::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<real::RwLockWriteGuard<'a, T>>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(real::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

macro_rules! rw {
    ($lock:ident, $try:ident, $wrap:ident, $Guard:ident, $Op:ident, $write:expr) => {
        impl<T: ?Sized> RwLock<T> {
            fn $wrap<'a>(
                &'a self,
                r: LockResult<real::$Guard<'a, T>>,
            ) -> LockResult<$Guard<'a, T>> {
                control::took(at(self), $write);
                let r = match r {
                    Ok(g) => Ok($Guard {
                        lock: self,
                        inner: Some(g),
                    }),
                    Err(e) => Err(PoisonError::new($Guard {
                        lock: self,
                        inner: Some(e.into_inner()),
                    })),
                };
                control::go("locked");
                r
            }
            pub fn $lock(&self) -> LockResult<$Guard<'_, T>> {
                control::point(Op::$Op(at(self)));
                self.$wrap(self.0.$lock())
            }
            pub fn $try(&self) -> TryLockResult<$Guard<'_, T>> {
                control::go("try to lock");
                match self.0.$try() {
                    Ok(g) => Ok(self.$wrap(Ok(g)).unwrap_or_else(|e| e.into_inner())),
                    Err(TryLockError::Poisoned(e)) => match self.$wrap(Err(e)) {
                        Err(e) => Err(TryLockError::Poisoned(e)),
                        Ok(g) => Ok(g),
                    },
                    Err(TryLockError::WouldBlock) => {
                        control::give_way();
                        Err(TryLockError::WouldBlock)
                    }
                }
            }
        }
        impl<T: ?Sized> Drop for $Guard<'_, T> {
            fn drop(&mut self) {
                if self.inner.take().is_some() {
                    control::released(at(self.lock), $write);
                    control::go("unlocked");
                }
            }
        }
        impl<T: ?Sized> Deref for $Guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.inner.as_ref().unwrap()
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $Guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rw!(read, try_read, reading, RwLockReadGuard, Read, false);
rw!(write, try_write, writing, RwLockWriteGuard, Lock, true);

impl<T: ?Sized> RwLock<T> {
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        control::go("format");
        self.0.fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------------------
// Condition variables

#[derive(Debug, Default)]
pub struct Condvar {
    inner: real::Condvar,
    // so that each has an address of its own
    _at: u8,
}

/// As std's, which cannot be made here
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            inner: real::Condvar::new(),
            _at: 0,
        }
    }
    pub fn notify_one(&self) {
        self.inner.notify_one();
        control::notify(at(self), false);
        control::go("notified");
    }
    pub fn notify_all(&self) {
        self.inner.notify_all();
        control::notify(at(self), true);
        control::go("notified");
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        let inner = g.inner.take().unwrap();
        control::waits(at(self));
        control::released(at(lock), true);
        drop(g);
        // Outside of the scheduler, really wait
        let mut inner = Some(inner);
        if controlled() {
            drop(inner.take());
            control::point(Op::Wait(at(self)));
            control::waited();
            lock.lock()
        } else {
            lock.guard(self.inner.wait(inner.unwrap()))
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// In the scheduler, time may always have run out
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        let inner = g.inner.take().unwrap();
        control::released(at(lock), true);
        drop(g);
        if controlled() {
            drop(inner);
            control::give_way();
            match lock.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            }
        } else {
            match self.inner.wait_timeout(inner, d) {
                Ok((g, t)) => Ok((
                    lock.guard(Ok(g)).unwrap_or_else(|e| e.into_inner()),
                    WaitTimeoutResult(t.timed_out()),
                )),
                Err(e) => {
                    let (g, t) = e.into_inner();
                    Err(PoisonError::new((
                        lock.guard(Ok(g)).unwrap_or_else(|e| e.into_inner()),
                        WaitTimeoutResult(t.timed_out()),
                    )))
                }
            }
        }
    }
}

fn controlled() -> bool {
    control::inside()
}

// ---------------------------------------------------------------------------
// Atomics

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::control::go;
    use ::std::sync::atomic as real;

    macro_rules! atomic {
        ($Name:ident, $T:ty, $($op:ident),*) => {
            #[derive(Debug, Default)]
            pub struct $Name(real::$Name);
            impl $Name {
                pub const fn new(v: $T) -> Self {
                    $Name(real::$Name::new(v))
                }
                pub fn load(&self, o: Ordering) -> $T {
                    go("load");
                    self.0.load(o)
                }
                pub fn store(&self, v: $T, o: Ordering) {
                    go("store");
                    self.0.store(v, o)
                }
                pub fn compare_exchange(&self, a: $T, b: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                    go("compare and exchange");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $T, b: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($T) -> Option<$T>>(&self, s: Ordering, f: Ordering, mut with: F) -> Result<$T, $T> {
                    let mut now = self.load(f);
                    while let Some(next) = with(now) {
                        match self.compare_exchange(now, next, s, f) {
                            Ok(was) => return Ok(was),
                            Err(is) => now = is,
                        }
                    }
                    Err(now)
                }
                pub fn into_inner(self) -> $T {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $T {
                    self.0.get_mut()
                }
                $(pub fn $op(&self, v: $T, o: Ordering) -> $T {
                    go(stringify!($op));
                    self.0.$op(v, o)
                })*
            }
            impl From<$T> for $Name {
                fn from(v: $T) -> Self {
                    $Name::new(v)
                }
            }
        };
    }
    atomic!(AtomicBool, bool, swap, fetch_and, fetch_or, fetch_xor, fetch_nand);
    atomic!(AtomicUsize, usize, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicIsize, isize, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicU64, u64, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicI64, i64, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicU32, u32, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicI32, i32, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
    atomic!(AtomicU8, u8, swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
}
