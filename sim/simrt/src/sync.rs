//! std::sync with scheduling points. Arc & co. are std's.
pub use std::sync::{
    mpsc, Arc, Barrier, LazyLock, LockResult, Once, OnceLock, PoisonError, TryLockError, TryLockResult, Weak,
};

use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync as ss;

use crate::world::{current, sched_point};

const T_LOCK: u32 = 1;
const T_UNLOCK: u32 = 2;
const T_READ: u32 = 3;
const T_WRITE: u32 = 4;
const T_ATOMIC: u32 = 5;

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}
fn released(a: usize) {
    if let Some((w, _)) = current() {
        w.unblock(a);
        sched_point(T_UNLOCK);
    }
}

pub struct Mutex<T: ?Sized>(ss::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<ss::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(ss::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched_point(T_LOCK);
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(MutexGuard { g: Some(g), m: self }),
                Err(TryLockError::Poisoned(p)) => {
                    return Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), m: self }))
                }
                Err(TryLockError::WouldBlock) => match current() {
                    Some((w, id)) => w.block(id, addr(self)),
                    None => std::thread::yield_now(),
                },
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched_point(T_LOCK);
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                g: Some(p.into_inner()),
                m: self,
            }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        let a = addr(self.m);
        if self.g.take().is_some() {
            released(a);
        }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized>(ss::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<ss::RwLockReadGuard<'a, T>>,
    m: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<ss::RwLockWriteGuard<'a, T>>,
    m: &'a RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(ss::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
macro_rules! rw {
    ($name:ident, $try:ident, $guard:ident, $tag:expr) => {
        pub fn $name(&self) -> LockResult<$guard<'_, T>> {
            sched_point($tag);
            loop {
                match self.0.$try() {
                    Ok(g) => return Ok($guard { g: Some(g), m: self }),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new($guard { g: Some(p.into_inner()), m: self }))
                    }
                    Err(TryLockError::WouldBlock) => match current() {
                        Some((w, id)) => w.block(id, addr(self)),
                        None => std::thread::yield_now(),
                    },
                }
            }
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            sched_point($tag);
            match self.0.$try() {
                Ok(g) => Ok($guard { g: Some(g), m: self }),
                Err(TryLockError::Poisoned(p)) => {
                    Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(p.into_inner()), m: self })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard, T_READ);
    rw!(write, try_write, RwLockWriteGuard, T_WRITE);
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        let a = addr(self.m);
        if self.g.take().is_some() {
            released(a);
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        let a = addr(self.m);
        if self.g.take().is_some() {
            released(a);
        }
    }
}

/// Condvar for simulated threads.
#[derive(Default, Debug)]
pub struct Condvar(u8);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(0)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        let (w, id) = current().expect("Condvar::wait outside of the simulation");
        // release without a scheduling point in between, then park
        let mut g = g;
        drop(g.g.take());
        w.unblock(addr(m));
        drop(g);
        w.block(id, addr(self));
        m.lock()
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        if let Some((w, _)) = current() {
            w.unblock(addr(self));
            sched_point(T_UNLOCK);
        }
    }
}

pub mod atomic {
    use super::{sched_point, T_ATOMIC};
    pub use std::sync::atomic::{compiler_fence, fence, AtomicPtr, Ordering};
    macro_rules! atomic {
        ($name:ident, $t:ty, $($int:tt)*) => {
            #[derive(Default, Debug)]
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$name::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { sched_point(T_ATOMIC); self.0.store(v, o); sched_point(T_ATOMIC) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    sched_point(T_ATOMIC); self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    sched_point(T_ATOMIC); self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                    sched_point(T_ATOMIC); self.0.fetch_update(s, f, g)
                }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                $($int)*
            }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        };
    }
    macro_rules! int {
        ($name:ident, $t:ty) => {
            atomic!($name, $t,
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_min(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_or(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { sched_point(T_ATOMIC); self.0.fetch_and(v, o) }
            );
        };
    }
    int!(AtomicUsize, usize);
    int!(AtomicIsize, isize);
    int!(AtomicU64, u64);
    int!(AtomicI64, i64);
    int!(AtomicU32, u32);
    int!(AtomicI32, i32);
    int!(AtomicU16, u16);
    int!(AtomicU8, u8);
    atomic!(AtomicBool, bool,
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { sched_point(T_ATOMIC); self.0.fetch_or(v, o) }
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { sched_point(T_ATOMIC); self.0.fetch_and(v, o) }
    );
}
