//! Threads of which exactly one runs at a time, chosen at every step by a
//! seeded scheduler.
use simrt::rng::Rng;
use std::cell::{RefCell, UnsafeCell};
use std::fmt;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::atomic::{self as sa, Ordering};
use std::sync::{Arc, Condvar, LockResult, Mutex as SMutex, TryLockError, TryLockResult};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S { Run, Lock(usize), Wait, Done }

/// How the next thread is chosen
#[derive(Clone, Debug)]
pub enum Policy {
    /// Change threads with this probability
    Random(f64),
    /// Random priorities, which change at so many random steps
    Pct(u32, u64),
}

struct Inner {
    cur: usize,
    st: Vec<S>,
    woken: Vec<bool>,
    prio: Vec<u64>,
    points: Vec<u64>,
    rng: Rng,
    policy: Policy,
    steps: u64,
    switches: u64,
    hash: u64,
    over: Option<End>,
    log: Vec<String>,
    tracing: bool,
    failure: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Finished, Deadlock, TooLong, Failed }

pub struct Ctl { m: SMutex<Inner>, cv: Vec<Condvar>, max: u64 }

thread_local!(static ME: RefCell<Option<(usize, Arc<Ctl>)>> = const { RefCell::new(None) });

fn me() -> Option<(usize, Arc<Ctl>)> { ME.with(|m| m.borrow().clone()) }

struct Over;

impl Ctl {
    fn pick(&self, g: &mut Inner, me: usize) {
        g.steps += 1;
        if g.over.is_none() && g.steps > self.max { g.over = Some(End::TooLong); }
        if g.over.is_some() { for c in &self.cv { c.notify_all(); } return; }
        let run: Vec<usize> = (0..g.st.len()).filter(|&i| g.st[i] == S::Run).collect();
        if run.is_empty() {
            g.over = Some(if g.st.iter().all(|s| *s == S::Done) { End::Finished } else { End::Deadlock });
            for c in &self.cv { c.notify_all(); }
            return;
        }
        let next = match g.policy.clone() {
            Policy::Random(p) => if run.contains(&me) && !g.rng.chance(p) { me } else { *g.rng.pick(&run) },
            Policy::Pct(..) => {
                if g.points.contains(&g.steps) { g.prio[me] = g.rng.below(1 << 20); }
                *run.iter().max_by_key(|&&i| (g.prio[i], i)).unwrap()
            }
        };
        if next != me { g.switches += 1; }
        g.hash = (g.hash ^ next as u64).wrapping_mul(0x100_0000_01b3);
        g.cur = next;
        self.cv[next].notify_all();
    }

    /// Give others the chance to run, then go on
    fn turn(&self, me: usize, st: S) {
        let mut g = self.m.lock().unwrap();
        if g.over.is_some() { drop(g); self.quit(); return; }
        if st == S::Wait && g.woken[me] { g.woken[me] = false; } else { g.st[me] = st; }
        self.pick(&mut g, me);
        while g.over.is_none() && (g.cur != me || g.st[me] != S::Run) { g = self.cv[me].wait(g).unwrap(); }
        let over = g.over.is_some();
        drop(g);
        if over { self.quit(); }
    }

    fn quit(&self) { if !std::thread::panicking() { std::panic::resume_unwind(Box::new(Over)); } }
}

/// Any step that other threads might see
pub fn step() { if let Some((i, c)) = me() { c.turn(i, S::Run); } }

pub fn failed(msg: String) {
    if let Some((_, c)) = me() {
        let mut g = c.m.lock().unwrap();
        if g.failure.is_none() { g.failure = Some(msg); }
        g.over = Some(End::Failed);
        for c in &c.cv { c.notify_all(); }
        drop(g);
        c.quit();
    }
}

pub fn trace(f: impl FnOnce() -> String) {
    if let Some((i, c)) = me() {
        let mut g = c.m.lock().unwrap();
        if g.tracing { let n = g.steps; let s = f(); g.log.push(format!("{n} thread {i}: {s}")); }
    }
}

struct Wk { i: usize, c: Arc<Ctl> }
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        let mut g = self.c.m.lock().unwrap();
        g.woken[self.i] = true;
        if g.st[self.i] == S::Wait { g.st[self.i] = S::Run; g.woken[self.i] = false; }
    }
}

/// The waker of this thread
pub fn waker() -> Waker { let (i, c) = me().expect("not a simulated thread"); Waker::from(Arc::new(Wk { i, c })) }

/// Sleep until somebody wakes this thread's waker
pub fn park() { let (i, c) = me().expect("not a simulated thread"); c.turn(i, S::Wait); }

pub fn block_on<F: Future>(mut f: Pin<&mut F>) -> F::Output {
    let w = waker();
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => return r,
            Poll::Pending => park(),
        }
    }
}

#[derive(Debug)]
pub struct Outcome { pub end: End, pub failure: Option<String>, pub steps: u64, pub switches: u64, pub hash: u64, pub log: Vec<String> }

/// Run the threads to the end
pub fn run(seed: u64, policy: Policy, max: u64, tracing: bool, threads: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = threads.len();
    let mut rng = Rng::stream(seed, "threads");
    let prio = (0..n).map(|_| (1 << 20) + rng.below(1 << 20)).collect();
    let points = match policy { Policy::Pct(k, len) => (0..k).map(|_| rng.below(len.max(1))).collect(), _ => vec![] };
    let cur = rng.below(n as u64) as usize;
    let c = Arc::new(Ctl {
        m: SMutex::new(Inner { cur, st: vec![S::Run; n], woken: vec![false; n], prio, points, rng, policy, steps: 0, switches: 0, hash: 0xcbf2_9ce4_8422_2325, over: None, log: vec![], tracing, failure: None }),
        cv: (0..n).map(|_| Condvar::new()).collect(), max });
    let hs: Vec<_> = threads.into_iter().enumerate().map(|(i, f)| {
        let c = c.clone();
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((i, c.clone())));
            {
                let mut g = c.m.lock().unwrap();
                while g.cur != i && g.over.is_none() { g = c.cv[i].wait(g).unwrap(); }
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let mut g = c.m.lock().unwrap();
            g.st[i] = S::Done;
            if let Err(e) = r {
                if !e.is::<Over>() {
                    let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                    if g.failure.is_none() { g.failure = Some(format!("panic: {m}")); }
                    g.over = Some(End::Failed);
                }
            }
            c.pick(&mut g, i);
            drop(g);
            ME.with(|m| *m.borrow_mut() = None);
        }).unwrap()
    }).collect();
    for h in hs { let _ = h.join(); }
    let mut g = c.m.lock().unwrap();
    Outcome { end: g.over.unwrap_or(End::Finished), failure: g.failure.take(), steps: g.steps, switches: g.switches, hash: g.hash, log: std::mem::take(&mut g.log) }
}

// ------------------------------------------------------------------ seams

macro_rules! atomic {
    ($name: ident, $t: ty) => {
        #[derive(Default)]
        pub struct $name(sa::$name);
        impl $name {
            pub const fn new(v: $t) -> Self { Self(sa::$name::new(v)) }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn load(&self, _o: Ordering) -> $t { step(); self.0.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, _o: Ordering) { step(); self.0.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, _o: Ordering) -> $t { step(); self.0.swap(v, Ordering::SeqCst) }
            pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_and(v, Ordering::SeqCst) }
            pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_or(v, Ordering::SeqCst) }
            pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_xor(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> { step(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut v = self.load(l);
                while let Some(n) = f(v) { match self.compare_exchange(v, n, s, l) { Ok(o) => return Ok(o), Err(o) => v = o } }
                Err(v)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> { self.fetch_update(s, l, f) }
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t { self.fetch_update(s, l, |x| Some(f(x))).unwrap_or_else(|x| x) }
        }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
        impl serde::Serialize for $name { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
    };
    (num $name: ident, $t: ty) => {
        atomic!($name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_add(v, Ordering::SeqCst) }
            pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_sub(v, Ordering::SeqCst) }
            pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_max(v, Ordering::SeqCst) }
            pub fn fetch_min(&self, v: $t, _o: Ordering) -> $t { step(); self.0.fetch_min(v, Ordering::SeqCst) }
        }
    };
}
atomic!(AtomicBool, bool);
atomic!(num AtomicIsize, isize);
atomic!(num AtomicUsize, usize);

pub struct Mutex<T: ?Sized> { held: sa::AtomicBool, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, _not_send: std::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Self { held: sa::AtomicBool::new(false), v: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize { &self.held as *const _ as usize }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        step();
        while self.held.swap(true, Ordering::SeqCst) {
            let (i, c) = me().expect("locked by nobody");
            if std::thread::panicking() { break; }
            c.turn(i, S::Lock(self.id()));
        }
        Ok(MutexGuard { m: self, _not_send: std::marker::PhantomData })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        step();
        if self.held.swap(true, Ordering::SeqCst) { Err(TryLockError::WouldBlock) } else { Ok(MutexGuard { m: self, _not_send: std::marker::PhantomData }) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.held.store(false, Ordering::SeqCst);
        if let Some((_, c)) = me() {
            let id = self.m.id();
            if let Ok(mut g) = c.m.lock() { for s in g.st.iter_mut() { if *s == S::Lock(id) { *s = S::Run; } } }
        }
    }
}
