//! `std::sync` with every acquisition, release and atomic operation a scheduling point.
pub use crate::mpsc;
pub use std::sync::{
    Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak,
};
use crate::rt::{self, Point};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::time::Duration;

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}

// ------------------------------------------------------------------ Mutex

pub struct Mutex<T: ?Sized> {
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    inner: ManuallyDrop<std::sync::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { inner: ManuallyDrop::new(g), lock: self }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let a = addr(self);
        rt::point(Point::Lock, a);
        loop {
            match self.inner.try_lock() {
                Ok(g) => {
                    let g = self.wrap(g);
                    rt::point(Point::InLock, a);
                    return Ok(g);
                }
                Err(TryLockError::Poisoned(e)) => {
                    let g = self.wrap(e.into_inner());
                    rt::soft_point(Point::InLock, a);
                    return Err(PoisonError::new(g));
                }
                Err(TryLockError::WouldBlock) => rt::block(a),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let a = addr(self);
        rt::point(Point::Lock, a);
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T: UnwindSafe, F: UnwindSafe> UnwindSafe for LazyLock<T, F> {}
impl<T: RefUnwindSafe + UnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        let a = addr(self.lock);
        {
            struct Rel<'x, 'a, T: ?Sized>(&'x mut ManuallyDrop<std::sync::MutexGuard<'a, T>>, usize);
            impl<'x, 'a, T: ?Sized> Drop for Rel<'x, 'a, T> {
                fn drop(&mut self) {
                    unsafe { ManuallyDrop::drop(self.0) };
                    rt::wake(self.1);
                }
            }
            let _rel = Rel(&mut self.inner, a);
            // a thread may die at the end of its critical section: the lock is then poisoned
            rt::point(Point::Unlock, a);
        }
        rt::soft_point(Point::Yield, a);
    }
}

// ------------------------------------------------------------------ RwLock

pub struct RwLock<T: ?Sized> {
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    inner: ManuallyDrop<std::sync::RwLockReadGuard<'a, T>>,
    lock: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    inner: ManuallyDrop<std::sync::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $tryl:ident, $g:ident) => {
        pub fn $lock(&self) -> LockResult<$g<'_, T>> {
            let a = addr(self);
            rt::point(Point::Lock, a);
            loop {
                match self.inner.$tryl() {
                    Ok(g) => {
                        let g = $g { inner: ManuallyDrop::new(g), lock: self };
                        rt::point(Point::InLock, a);
                        return Ok(g);
                    }
                    Err(TryLockError::Poisoned(e)) => {
                        let g = $g { inner: ManuallyDrop::new(e.into_inner()), lock: self };
                        rt::soft_point(Point::InLock, a);
                        return Err(PoisonError::new(g));
                    }
                    Err(TryLockError::WouldBlock) => rt::block(a),
                }
            }
        }
        pub fn $tryl(&self) -> TryLockResult<$g<'_, T>> {
            rt::point(Point::Lock, addr(self));
            match self.inner.$tryl() {
                Ok(g) => Ok($g { inner: ManuallyDrop::new(g), lock: self }),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                    $g { inner: ManuallyDrop::new(e.into_inner()), lock: self },
                ))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard);
    rw!(write, try_write, RwLockWriteGuard);
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
macro_rules! rwguard {
    ($g:ident, $std:ident) => {
        impl<'a, T: ?Sized> Deref for $g<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.inner
            }
        }
        impl<'a, T: ?Sized> Drop for $g<'a, T> {
            fn drop(&mut self) {
                let a = addr(self.lock);
                {
                    struct Rel<'x, 'a, T: ?Sized>(&'x mut ManuallyDrop<std::sync::$std<'a, T>>, usize);
                    impl<'x, 'a, T: ?Sized> Drop for Rel<'x, 'a, T> {
                        fn drop(&mut self) {
                            unsafe { ManuallyDrop::drop(self.0) };
                            rt::wake(self.1);
                        }
                    }
                    let _rel = Rel(&mut self.inner, a);
                    rt::point(Point::Unlock, a);
                }
                rt::soft_point(Point::Yield, a);
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rwguard!(RwLockReadGuard, RwLockReadGuard);
rwguard!(RwLockWriteGuard, RwLockWriteGuard);
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(mut s: Self) -> RwLockReadGuard<'a, T> {
        let lock = s.lock;
        let inner = unsafe { ManuallyDrop::take(&mut s.inner) };
        std::mem::forget(s);
        let inner = ManuallyDrop::new(std::sync::RwLockWriteGuard::downgrade(inner));
        rt::wake(addr(lock));
        RwLockReadGuard { inner, lock }
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}

// ------------------------------------------------------------------ Condvar, Barrier

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar {
    real: std::sync::Condvar,
    tag: u8,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { real: std::sync::Condvar::new(), tag: 0 }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        if rt::current().is_none() {
            let inner = unsafe { ManuallyDrop::take(&mut g.inner) };
            std::mem::forget(g);
            return match self.real.wait(inner) {
                Ok(i) => Ok(lock.wrap(i)),
                Err(e) => Err(PoisonError::new(lock.wrap(e.into_inner()))),
            };
        }
        // release and block without a scheduling point in between
        let inner = unsafe { ManuallyDrop::take(&mut g.inner) };
        std::mem::forget(g);
        drop(inner);
        rt::wake(addr(lock));
        if rt::spurious() {
            rt::soft_point(Point::Yield, addr(self));
        } else {
            rt::block(addr(self));
        }
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Time outs come whenever the scheduler likes: a bounded wait is a yield.
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = g.lock;
        if rt::current().is_none() {
            let inner = unsafe { ManuallyDrop::take(&mut g.inner) };
            std::mem::forget(g);
            return match self.real.wait_timeout(inner, d) {
                Ok((i, t)) => Ok((lock.wrap(i), WaitTimeoutResult(t.timed_out()))),
                Err(e) => {
                    let (i, t) = e.into_inner();
                    Err(PoisonError::new((lock.wrap(i), WaitTimeoutResult(t.timed_out()))))
                }
            };
        }
        drop(g);
        rt::sleep_ns(u64::try_from(d.as_nanos()).unwrap_or(1 << 60));
        match lock.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(true))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if !c(&mut *g) {
            return Ok((g, WaitTimeoutResult(false)));
        }
        g = self.wait_timeout(g, d)?.0;
        let late = c(&mut *g);
        Ok((g, WaitTimeoutResult(late)))
    }
    pub fn notify_one(&self) {
        self.real.notify_one();
        rt::point(Point::Atomic, addr(self));
        rt::wake_one(addr(self));
    }
    pub fn notify_all(&self) {
        self.real.notify_all();
        rt::point(Point::Atomic, addr(self));
        rt::wake(addr(self));
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl fmt::Debug for BarrierWaitResult {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BarrierWaitResult").field("is_leader", &self.0).finish()
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier { .. }")
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap_or_else(PoisonError::into_inner);
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            drop(g);
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// ------------------------------------------------------------------ Once, OnceLock, LazyLock

pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}
pub struct Once {
    m: Mutex<u8>,
}
pub const ONCE_INIT: Once = Once::new();
impl Once {
    pub const fn new() -> Self {
        Once { m: Mutex::new(0) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        if *g == 2 {
            panic!("Once instance has previously been poisoned");
        }
        if *g == 0 {
            *g = 2;
            f();
            *g = 1;
        }
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        let mut g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        if *g != 1 {
            let s = OnceState(*g == 2);
            *g = 2;
            f(&s);
            *g = 1;
        }
    }
    pub fn is_completed(&self) -> bool {
        match self.m.inner.try_lock() {
            Ok(g) => *g == 1,
            Err(_) => false,
        }
    }
    pub fn wait(&self) {
        self.wait_force();
        if *self.m.lock().unwrap_or_else(PoisonError::into_inner) == 2 {
            panic!("Once instance has previously been poisoned");
        }
    }
    pub fn wait_force(&self) {
        while *self.m.lock().unwrap_or_else(PoisonError::into_inner) == 0 {
            crate::thread::yield_now();
        }
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl fmt::Debug for OnceState {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("OnceState").field("poisoned", &self.0).finish()
    }
}

pub struct OnceLock<T> {
    cell: std::sync::OnceLock<T>,
    m: Mutex<()>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { cell: std::sync::OnceLock::new(), m: Mutex::new(()) }
    }
    pub fn get(&self) -> Option<&T> {
        rt::point(Point::Atomic, addr(self));
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        self.cell.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(v) = self.get() {
            return v;
        }
        let _g = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        if self.cell.get().is_none() {
            let v = f();
            let _ = self.cell.set(v);
        }
        self.cell.get().unwrap()
    }
    pub fn wait(&self) -> &T {
        loop {
            if let Some(v) = self.get() {
                return v;
            }
            crate::thread::yield_now();
        }
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.cell == o.cell
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { cell: self.cell.clone(), m: Mutex::new(()) }
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { cell: std::sync::OnceLock::from(t), m: Mutex::new(()) }
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: std::sync::OnceLock<T>,
    m: Mutex<()>,
    init: UnsafeCell<Cell<Option<F>>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock {
            cell: std::sync::OnceLock::new(),
            m: Mutex::new(()),
            init: UnsafeCell::new(Cell::new(Some(f))),
        }
    }
    pub fn force(this: &Self) -> &T {
        rt::soft_point(Point::Atomic, addr(this));
        if let Some(v) = this.cell.get() {
            return v;
        }
        let _g = this.m.lock().unwrap_or_else(PoisonError::into_inner);
        if this.cell.get().is_none() {
            let f = unsafe { (*this.init.get()).take() };
            let Some(f) = f else { panic!("LazyLock instance has previously been poisoned") };
            let v = f();
            let _ = this.cell.set(v);
        }
        this.cell.get().unwrap()
    }
    pub fn force_mut(this: &mut Self) -> &mut T {
        LazyLock::force(this);
        this.cell.get_mut().unwrap()
    }
}
impl<T, F> LazyLock<T, F> {
    pub fn get(this: &Self) -> Option<&T> {
        rt::soft_point(Point::Atomic, addr(this));
        this.cell.get()
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        this.cell.get_mut()
    }
}
impl<T, F> From<T> for LazyLock<T, F> {
    fn from(t: T) -> Self {
        LazyLock { cell: std::sync::OnceLock::from(t), m: Mutex::new(()), init: UnsafeCell::new(Cell::new(None)) }
    }
}
impl<T, F: FnOnce() -> T> std::ops::DerefMut for LazyLock<T, F> {
    fn deref_mut(&mut self) -> &mut T {
        LazyLock::force_mut(self)
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}

// ------------------------------------------------------------------ atomics

pub mod atomic {
    pub use std::sync::atomic::{compiler_fence, fence, Ordering};
    use crate::rt::{self, Point};
    use std::fmt;

    macro_rules! base {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(std::sync::atomic::$name::new(v))
                }
                fn pt(&self) {
                    rt::point(Point::Atomic, self as *const _ as usize);
                }
                pub const unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                    unsafe { &*p.cast() }
                }
                pub fn load(&self, o: Ordering) -> $t {
                    self.pt();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    self.pt();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    self.pt();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.pt();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.pt();
                    if rt::spurious() {
                        return Err(self.0.load(f));
                    }
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    l: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, s, l) {
                            x @ Ok(_) => return x,
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn try_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    l: Ordering,
                    f: F,
                ) -> Result<$t, $t> {
                    self.fetch_update(s, l, f)
                }
                pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t {
                    self.fetch_update(s, l, |x| Some(f(x))).unwrap()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! ops {
        ($name:ident, $t:ty, $($m:ident)*) => {
            impl $name {
                $(pub fn $m(&self, v: $t, o: Ordering) -> $t {
                    self.pt();
                    self.0.$m(v, o)
                })*
            }
        };
    }
    macro_rules! num {
        ($($name:ident $t:ident),*) => {$(
            base!($name, $t);
            impl Default for $name {
                fn default() -> Self { Self::new(0) }
            }
            ops!($name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
        )*};
    }
    num!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
         AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    base!(AtomicBool, bool);
    impl Default for AtomicBool {
        fn default() -> Self {
            Self::new(false)
        }
    }
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            self.pt();
            self.0.fetch_and(v, o)
        }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            self.pt();
            self.0.fetch_or(v, o)
        }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
            self.pt();
            self.0.fetch_xor(v, o)
        }
        pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
            self.pt();
            self.0.fetch_nand(v, o)
        }
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.pt();
            self.0.fetch_xor(true, o)
        }
    }

    #[repr(transparent)]
    pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(p: *mut T) -> Self {
            AtomicPtr(std::sync::atomic::AtomicPtr::new(p))
        }
        fn pt(&self) {
            rt::point(Point::Atomic, self as *const _ as *const () as usize);
        }
        pub fn load(&self, o: Ordering) -> *mut T {
            self.pt();
            self.0.load(o)
        }
        pub fn store(&self, p: *mut T, o: Ordering) {
            self.pt();
            self.0.store(p, o)
        }
        pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
            self.pt();
            self.0.swap(p, o)
        }
        pub fn compare_exchange(
            &self,
            a: *mut T,
            b: *mut T,
            s: Ordering,
            f: Ordering,
        ) -> Result<*mut T, *mut T> {
            self.pt();
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn compare_exchange_weak(
            &self,
            a: *mut T,
            b: *mut T,
            s: Ordering,
            f: Ordering,
        ) -> Result<*mut T, *mut T> {
            self.pt();
            if rt::spurious() {
                return Err(self.0.load(f));
            }
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn get_mut(&mut self) -> &mut *mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> *mut T {
            self.0.into_inner()
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(std::ptr::null_mut())
        }
    }
    impl<T> fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
}

#[allow(unused)]
fn _unused(_: Duration) {}
