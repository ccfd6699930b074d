//! futures-locks 0.7's locks: cloneable handles, lazily acquired, readers are
//! only excluded while a writer holds the lock, writers are FIFO and preferred
//! when a writer releases.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll, Waker};

/// One waiter.  `granted` becomes true when the lock has been handed over.
struct Waiter { granted: bool, dead: bool, waker: Option<Waker> }
type WaiterRef = Arc<StdMutex<Waiter>>;

#[derive(Default)]
struct State {
    readers: usize,
    exclusive: bool,
    read_q: VecDeque<WaiterRef>,
    write_q: VecDeque<WaiterRef>,
}

fn grant(w: &WaiterRef) -> bool {
    let mut w = w.lock().unwrap();
    if w.dead { return false; }
    w.granted = true;
    if let Some(k) = w.waker.take() { k.wake(); }
    true
}

struct Inner<T: ?Sized> { st: StdMutex<State>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Inner<T> {}

impl<T: ?Sized> Inner<T> {
    fn unlock_reader(&self) {
        let mut s = self.st.lock().unwrap();
        assert!(s.readers > 0 && !s.exclusive);
        s.readers -= 1;
        while s.readers == 0 {
            match s.write_q.pop_front() {
                Some(w) => if grant(&w) { s.exclusive = true; return; },
                None => return
            }
        }
    }
    fn unlock_writer(&self) {
        let mut s = self.st.lock().unwrap();
        assert!(s.readers == 0 && s.exclusive);
        while let Some(w) = s.write_q.pop_front() {
            if grant(&w) { return; }
        }
        s.exclusive = false;
        while let Some(w) = s.read_q.pop_front() {
            if grant(&w) { s.readers += 1; }
        }
    }
}

pub struct RwLock<T: ?Sized> { inner: Arc<Inner<T>> }
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { RwLock { inner: self.inner.clone() } } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") }
}

pub struct RwLockReadGuard<T: ?Sized> { inner: Arc<Inner<T>> }
pub struct RwLockWriteGuard<T: ?Sized> { inner: Option<Arc<Inner<T>>> }

impl<T: ?Sized> Drop for RwLockReadGuard<T> { fn drop(&mut self) { self.inner.unlock_reader() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<T> {
    fn drop(&mut self) { if let Some(i) = self.inner.take() { i.unlock_writer() } }
}
impl<T: ?Sized> Deref for RwLockReadGuard<T> {
    type Target = T;
    fn deref(&self) -> &T { unsafe { &*self.inner.data.get() } }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<T> {
    type Target = T;
    fn deref(&self) -> &T { unsafe { &*self.inner.as_ref().unwrap().data.get() } }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> {
    fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.inner.as_ref().unwrap().data.get() } }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLockReadGuard<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLockWriteGuard<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}

impl<T: ?Sized> RwLockWriteGuard<T> {
    /// Downgrade to a read lock, without unlocking
    pub fn downgrade(mut self) -> RwLockReadGuard<T> {
        let inner = self.inner.take().unwrap();
        {
            let mut s = inner.st.lock().unwrap();
            assert!(s.exclusive && s.readers == 0);
            s.exclusive = false;
            s.readers = 1;
            while let Some(w) = s.read_q.pop_front() {
                if grant(&w) { s.readers += 1; }
            }
        }
        RwLockReadGuard { inner }
    }
}

enum Fs { New, Pending(WaiterRef), Done }
pub struct RwLockReadFut<T: ?Sized> { inner: Arc<Inner<T>>, st: Fs }
pub struct RwLockWriteFut<T: ?Sized> { inner: Arc<Inner<T>>, st: Fs }
impl<T: ?Sized> Unpin for RwLockReadFut<T> {}
impl<T: ?Sized> Unpin for RwLockWriteFut<T> {}

impl<T: ?Sized> Future for RwLockReadFut<T> {
    type Output = RwLockReadGuard<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match &self.st {
            Fs::New => {
                let w = {
                    let mut s = self.inner.st.lock().unwrap();
                    if s.exclusive {
                        let w = Arc::new(StdMutex::new(Waiter { granted: false, dead: false, waker: Some(cx.waker().clone()) }));
                        s.read_q.push_back(w.clone());
                        Some(w)
                    } else { s.readers += 1; None }
                };
                match w {
                    Some(w) => { self.st = Fs::Pending(w); Poll::Pending }
                    None => { self.st = Fs::Done; Poll::Ready(RwLockReadGuard { inner: self.inner.clone() }) }
                }
            }
            Fs::Pending(w) => {
                let g = { let mut w = w.lock().unwrap(); if !w.granted { w.waker = Some(cx.waker().clone()); } w.granted };
                if g { self.st = Fs::Done; Poll::Ready(RwLockReadGuard { inner: self.inner.clone() }) }
                else { Poll::Pending }
            }
            Fs::Done => panic!("Polled RwLockReadFut after it completed")
        }
    }
}
impl<T: ?Sized> Drop for RwLockReadFut<T> {
    fn drop(&mut self) {
        if let Fs::Pending(w) = &self.st {
            let g = { let mut w = w.lock().unwrap(); w.dead = true; w.granted };
            if g { self.inner.unlock_reader(); }
        }
    }
}

impl<T: ?Sized> Future for RwLockWriteFut<T> {
    type Output = RwLockWriteGuard<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match &self.st {
            Fs::New => {
                let w = {
                    let mut s = self.inner.st.lock().unwrap();
                    if s.exclusive || s.readers > 0 {
                        let w = Arc::new(StdMutex::new(Waiter { granted: false, dead: false, waker: Some(cx.waker().clone()) }));
                        s.write_q.push_back(w.clone());
                        Some(w)
                    } else { s.exclusive = true; None }
                };
                match w {
                    Some(w) => { self.st = Fs::Pending(w); Poll::Pending }
                    None => { self.st = Fs::Done; Poll::Ready(RwLockWriteGuard { inner: Some(self.inner.clone()) }) }
                }
            }
            Fs::Pending(w) => {
                let g = { let mut w = w.lock().unwrap(); if !w.granted { w.waker = Some(cx.waker().clone()); } w.granted };
                if g { self.st = Fs::Done; Poll::Ready(RwLockWriteGuard { inner: Some(self.inner.clone()) }) }
                else { Poll::Pending }
            }
            Fs::Done => panic!("Polled RwLockWriteFut after it completed")
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteFut<T> {
    fn drop(&mut self) {
        if let Fs::Pending(w) = &self.st {
            let g = { let mut w = w.lock().unwrap(); w.dead = true; w.granted };
            if g { self.inner.unlock_writer(); }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TryLockError;
impl fmt::Display for TryLockError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("try lock failed") }
}
impl std::error::Error for TryLockError {}

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        RwLock { inner: Arc::new(Inner { st: StdMutex::new(State::default()), data: UnsafeCell::new(t) }) }
    }
    pub fn try_unwrap(self) -> Result<T, RwLock<T>> {
        match Arc::try_unwrap(self.inner) {
            Ok(i) => Ok(i.data.into_inner()),
            Err(inner) => Err(RwLock { inner })
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { Arc::get_mut(&mut self.inner).map(|i| i.data.get_mut()) }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool { Arc::ptr_eq(&a.inner, &b.inner) }
    pub fn read(&self) -> RwLockReadFut<T> { RwLockReadFut { inner: self.inner.clone(), st: Fs::New } }
    pub fn write(&self) -> RwLockWriteFut<T> { RwLockWriteFut { inner: self.inner.clone(), st: Fs::New } }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.exclusive { Err(TryLockError) }
        else { s.readers += 1; Ok(RwLockReadGuard { inner: self.inner.clone() }) }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.exclusive || s.readers > 0 { Err(TryLockError) }
        else { s.exclusive = true; Ok(RwLockWriteGuard { inner: Some(self.inner.clone()) }) }
    }
}
impl<T: 'static + ?Sized> RwLock<T> {
    pub fn with_read<B, F, R>(&self, f: F) -> impl Future<Output = R> + Send
        where F: FnOnce(RwLockReadGuard<T>) -> B + Send + 'static, B: Future<Output = R> + Send + 'static, R: Send + 'static, T: Send + Sync
    {
        let fut = self.read();
        let h = simrt::spawn(async move { let g = fut.await; f(g).await });
        async move { h.await.unwrap() }
    }
    pub fn with_write<B, F, R>(&self, f: F) -> impl Future<Output = R> + Send
        where F: FnOnce(RwLockWriteGuard<T>) -> B + Send + 'static, B: Future<Output = R> + Send + 'static, R: Send + 'static, T: Send + Sync
    {
        let fut = self.write();
        let h = simrt::spawn(async move { let g = fut.await; f(g).await });
        async move { h.await.unwrap() }
    }
}

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> { l: RwLock<T> }
impl<T: ?Sized> Clone for Mutex<T> { fn clone(&self) -> Self { Mutex { l: self.l.clone() } } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
pub type MutexGuard<T> = RwLockWriteGuard<T>;
pub type MutexFut<T> = RwLockWriteFut<T>;
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self { Mutex { l: RwLock::new(t) } }
    pub fn try_unwrap(self) -> Result<T, Mutex<T>> { self.l.try_unwrap().map_err(|l| Mutex { l }) }
}
impl<T: ?Sized> Mutex<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { self.l.get_mut() }
    pub fn lock(&self) -> MutexFut<T> { self.l.write() }
    pub fn try_lock(&self) -> Result<MutexGuard<T>, TryLockError> { self.l.try_write() }
}
