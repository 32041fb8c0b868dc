//! Threads whose interleaving the simulator decides; outside a simulation, real threads.
pub use std::thread::{
    available_parallelism, current, panicking, AccessError, LocalKey, Result, Thread,
    ThreadId,
};
use crate::rt;
use std::io;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn yield_now() {
    if rt::current().is_some() {
        rt::point(rt::Point::Yield, 0);
    } else {
        std::thread::yield_now();
    }
}
pub fn sleep(d: Duration) {
    rt::sleep_ns(u64::try_from(d.as_nanos()).unwrap_or(1 << 60));
}

/// May return without an `unpark`, as the real one may: within a simulation it always does.
pub fn park() {
    if rt::current().is_some() {
        rt::point(rt::Point::Yield, 0);
    } else {
        std::thread::park();
    }
}
pub fn park_timeout(d: Duration) {
    if rt::current().is_some() {
        sleep(d);
    } else {
        std::thread::park_timeout(d);
    }
}

enum Inner<T> {
    Real(std::thread::JoinHandle<T>),
    Sim(usize, std::thread::Thread, Arc<Mutex<Option<Result<T>>>>),
}
pub struct JoinHandle<T>(Inner<T>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            Inner::Real(h) => h.join(),
            Inner::Sim(id, _, slot) => {
                rt::join(id);
                slot.lock().unwrap().take().unwrap()
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Inner::Real(h) => h.is_finished(),
            Inner::Sim(id, _, _) => rt::is_done(*id),
        }
    }
    pub fn thread(&self) -> &Thread {
        match &self.0 {
            Inner::Real(h) => h.thread(),
            Inner::Sim(_, t, _) => t,
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None, stack: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let mut b = std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        if rt::current().is_none() {
            return Ok(JoinHandle(Inner::Real(b.spawn(f)?)));
        }
        let id = rt::register();
        let slot = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let h = b.spawn(move || {
            rt::enter_thread(id, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                *s2.lock().unwrap() = Some(r);
            })
        })?;
        let t = h.thread().clone();
        rt::point(rt::Point::Spawn, 0);
        Ok(JoinHandle(Inner::Sim(id, t, slot)))
    }
}

impl Builder {
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let mut b = std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(n) = self.stack {
            b = b.stack_size(n);
        }
        if rt::current().is_none() {
            return Ok(ScopedJoinHandle(SInner::Real(b.spawn_scoped(s.inner, f)?)));
        }
        let id = rt::register();
        let bad = Arc::new(AtomicBool::new(false));
        s.ids.lock().unwrap().push((id, bad.clone()));
        let slot = Arc::new(Mutex::new(None));
        let (s2, b2) = (slot.clone(), bad.clone());
        let h = b.spawn_scoped(s.inner, move || {
            rt::enter_thread(id, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                b2.store(r.is_err(), SeqCst);
                *s2.lock().unwrap() = Some(r);
            })
        })?;
        let t = h.thread().clone();
        rt::point(rt::Point::Spawn, 0);
        Ok(ScopedJoinHandle(SInner::Sim(id, t, slot, bad)))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    inner: &'scope std::thread::Scope<'scope, 'env>,
    ids: Mutex<Vec<(usize, Arc<AtomicBool>)>>,
}
enum SInner<'scope, T> {
    Real(std::thread::ScopedJoinHandle<'scope, T>),
    /// the last: whether it panicked and nobody has been told
    Sim(usize, Thread, Arc<Mutex<Option<Result<T>>>>, Arc<AtomicBool>),
}
pub struct ScopedJoinHandle<'scope, T>(SInner<'scope, T>);
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            SInner::Real(h) => h.join(),
            SInner::Sim(id, _, slot, bad) => {
                rt::join(id);
                bad.store(false, SeqCst);
                slot.lock().unwrap().take().unwrap()
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            SInner::Real(h) => h.is_finished(),
            SInner::Sim(id, ..) => rt::is_done(*id),
        }
    }
    pub fn thread(&self) -> &Thread {
        match &self.0 {
            SInner::Real(h) => h.thread(),
            SInner::Sim(_, t, ..) => t,
        }
    }
}
impl<T> std::fmt::Debug for ScopedJoinHandle<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ScopedJoinHandle { .. }")
    }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    // The wrapper must live as long as 'scope: it is freed once the real scope, and with it every
    // thread that may use it, has ended.
    struct Free(Option<(*mut (), unsafe fn(*mut ()))>);
    impl Drop for Free {
        fn drop(&mut self) {
            if let Some((p, d)) = self.0 {
                unsafe { d(p) };
            }
        }
    }
    unsafe fn free(p: *mut ()) {
        unsafe { drop(Box::from_raw(p.cast::<Scope<'static, 'static>>())) };
    }
    let mut w = Free(None);
    std::thread::scope(|s| {
        let p: *mut Scope<'_, 'env> = Box::into_raw(Box::new(Scope { inner: s, ids: Mutex::new(vec![]) }));
        w.0 = Some((p.cast(), free));
        let me: &Scope<'_, 'env> = unsafe { &*p };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(me)));
        if rt::current().is_some() {
            // (threads may spawn threads)
            let mut panicked = false;
            loop {
                let Some((id, bad)) = me.ids.lock().unwrap().pop() else { break };
                rt::join(id);
                panicked |= bad.load(SeqCst);
            }
            if panicked && r.is_ok() {
                panic!("a scoped thread panicked");
            }
        }
        r.unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
