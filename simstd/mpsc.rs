//! Channels built on the simulated lock and condition variable, so that who sends and who receives
//! first is the simulator's decision (and, outside a simulation, ordinary channels).
pub use std::sync::mpsc::{
    RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
};
use crate::sync::{Condvar, Mutex, MutexGuard};
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;

struct Q<T> {
    items: VecDeque<T>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
    /// receivers waiting inside `recv` (for rendezvous channels)
    waiting: usize,
}
struct Chan<T> {
    q: Mutex<Q<T>>,
    not_empty: Condvar,
    not_full: Condvar,
}
impl<T> Chan<T> {
    fn lk(&self) -> MutexGuard<'_, Q<T>> {
        self.q.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn full(q: &Q<T>) -> bool {
        match q.cap {
            None => false,
            Some(0) => q.items.len() >= q.waiting.max(1),
            Some(n) => q.items.len() >= n,
        }
    }
    fn send(&self, v: T) -> Result<(), SendError<T>> {
        let mut g = self.lk();
        while g.receiver && Self::full(&g) {
            g = self.not_full.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if !g.receiver {
            return Err(SendError(v));
        }
        g.items.push_back(v);
        self.not_empty.notify_one();
        // a rendezvous channel: wait until it has been taken
        if g.cap == Some(0) {
            while g.receiver && !g.items.is_empty() {
                g = self.not_full.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        Ok(())
    }
    fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        let mut g = self.lk();
        if !g.receiver {
            return Err(TrySendError::Disconnected(v));
        }
        if Self::full(&g) || (g.cap == Some(0) && g.waiting <= g.items.len()) {
            return Err(TrySendError::Full(v));
        }
        g.items.push_back(v);
        self.not_empty.notify_one();
        Ok(())
    }
    fn taken(&self, mut g: MutexGuard<'_, Q<T>>) -> Option<T> {
        let v = g.items.pop_front();
        if v.is_some() && g.cap.is_some() {
            self.not_full.notify_all();
        }
        v
    }
    fn add_sender(&self) {
        self.lk().senders += 1;
    }
    fn drop_sender(&self) {
        let mut g = self.lk();
        g.senders -= 1;
        if g.senders == 0 {
            self.not_empty.notify_all();
        }
    }
}

fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        q: Mutex::new(Q { items: VecDeque::new(), senders: 1, receiver: true, cap, waiting: 0 }),
        not_empty: Condvar::new(),
        not_full: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = new(Some(n));
    (SyncSender(c.clone()), Receiver(c))
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

macro_rules! sender {
    ($n:ident) => {
        impl<T> $n<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                self.0.send(v)
            }
        }
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.drop_sender();
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($n)).finish_non_exhaustive()
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(v)
    }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let g = self.0.lk();
        let gone = g.senders == 0;
        match self.0.taken(g) {
            Some(v) => Ok(v),
            None if gone => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.lk();
        loop {
            if !g.items.is_empty() {
                return self.0.taken(g).ok_or(RecvError);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g.waiting += 1;
            self.0.not_full.notify_all();
            g = self.0.not_empty.wait(g).unwrap_or_else(|e| e.into_inner());
            g.waiting -= 1;
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let mut g = self.0.lk();
        let mut late = false;
        loop {
            if !g.items.is_empty() {
                return self.0.taken(g).ok_or(RecvTimeoutError::Disconnected);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            if late {
                return Err(RecvTimeoutError::Timeout);
            }
            g.waiting += 1;
            self.0.not_full.notify_all();
            let (g2, t) = self.0.not_empty.wait_timeout(g, d).unwrap_or_else(|e| e.into_inner());
            g = g2;
            g.waiting -= 1;
            late = t.timed_out();
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut g = self.0.lk();
        g.receiver = false;
        let left = std::mem::take(&mut g.items);
        self.0.not_full.notify_all();
        drop(g);
        drop(left);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Receiver").finish_non_exhaustive()
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
