//! The write credit alone, with threads that interleave at every atomic step.
use crate::core::{Ctx, Tier};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use wb::th;
use wb::writeback::{Credit, WriteBack};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum WOp {
    /// Borrow so much, divide it, and leave it for the flusher
    Dirty(usize, u32),
    /// Borrow so much, divide it, and repay it at once
    Direct(usize, u32),
    /// Divide more than was borrowed
    Overdraw(usize, usize),
    /// Ask for so much, do so many other steps, and lose patience
    GiveUp(usize, u32),
    /// Borrow so much, to be divided by anybody
    Share(usize),
    /// Divide what somebody shared
    Nibble(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WPlan {
    pub seed: u64,
    pub capacity: usize,
    pub flushers: u32,
    /// Probability of changing threads
    pub p: f64,
    /// Or so many changes of priority
    pub pct: u32,
    pub clients: Vec<Vec<WOp>>,
}

struct Waiter { id: u64, wants: usize, since: u64, granted: bool, gone: bool }

#[derive(Default)]
struct St {
    clock: u64, inside: u32, out: isize, capacity: isize,
    waiters: Vec<Waiter>,
    dirty: VecDeque<Credit>, shared: Vec<Arc<Credit>>,
    /// Pieces of what is shared
    busy: usize,
    idle: Vec<Waker>,
    working: usize,
    /// Somebody divides more than they borrowed, so more is out than there is
    debts: bool,
    bad: Option<String>,
    probes: std::collections::BTreeMap<&'static str, u64>,
}
impl St {
    fn probe(&mut self, k: &'static str) { *self.probes.entry(k).or_default() += 1; }
    fn bad(&mut self, m: String) { if self.bad.is_none() { self.bad = Some(m); } }
    /// Somebody who came at `start` gets what they asked for
    fn grant(&mut self, id: u64, start: u64, n: usize) {
        if let Some(w) = self.waiters.iter().find(|w| w.id != id && !w.granted && !w.gone && w.since < start) {
            let m = format!("{n} bytes are lent to somebody who asked for them later than somebody else who still waits for {}", w.wants);
            self.bad(m);
        }
        self.out += n as isize;
        if self.out > self.capacity && !self.debts { let m = format!("{} bytes are lent out of {}", self.out, self.capacity); self.bad(m); }
    }
    fn quiet(&mut self) {
        if self.inside != 0 { return; }
        let max = self.waiters.iter().filter(|w| !w.granted).map(|w| w.wants).max();
        if let Some(m) = max {
            if m as isize <= self.capacity - self.out && self.waiters.iter().any(|w| !w.granted && !w.gone) { let s = format!("somebody waits for {m} bytes or less, though only {} of {} are lent", self.out, self.capacity); self.bad(s); }
            else if m as isize <= self.capacity - self.out { self.waiters.retain(|w| w.granted); }
        }
    }
}

type Sh = Arc<(WriteBack, Mutex<St>)>;

struct Bell { id: u64, start: u64, n: usize, s: Sh, rung: AtomicBool, inner: Waker }
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        if self.rung.swap(true, SeqCst) { return; }
        {
            let mut s = self.s.1.lock().unwrap();
            s.grant(self.id, self.start, self.n);
            let id = self.id;
            if let Some(w) = s.waiters.iter_mut().find(|w| w.id == id) { w.granted = true; }
        }
        self.inner.wake_by_ref();
    }
}

fn check(s: &Sh) { let b = s.1.lock().unwrap().bad.clone(); if let Some(b) = b { th::failed(b); } }

fn enter(s: &Sh) -> u64 { let mut g = s.1.lock().unwrap(); g.inside += 1; g.clock += 1; g.clock }
fn leave(s: &Sh) { let mut g = s.1.lock().unwrap(); g.inside -= 1; g.quiet(); drop(g); check(s); }

fn repay(s: &Sh, mut c: Credit) {
    let v = (&mut c) + 0;
    th::trace(|| format!("repays {v}"));
    enter(s);
    s.1.lock().unwrap().out -= v;
    s.0.repay(c);
    leave(s);
}

/// Borrow; give up after so many steps
fn borrow(s: &Sh, n: usize, patience: Option<u32>) -> Option<Credit> {
    th::trace(|| format!("borrows {n}"));
    let start = enter(s);
    let mut f: Pin<Box<dyn Future<Output = Credit> + Send>> = Box::pin(s.0.borrow(n));
    let bell = Arc::new(Bell { id: start, start, n, s: s.clone(), rung: AtomicBool::new(false), inner: th::waker() });
    let w = Waker::from(bell.clone());
    let r = f.as_mut().poll(&mut Context::from_waker(&w));
    if let Poll::Ready(c) = r {
        s.1.lock().unwrap().grant(start, start, n);
        leave(s);
        expect(&c, n);
        return Some(c);
    }
    {
        let mut g = s.1.lock().unwrap();
        g.clock += 1;
        let since = g.clock;
        g.waiters.push(Waiter { id: start, wants: n, since, granted: false, gone: false });
        g.probe("waited");
    }
    leave(s);
    th::trace(|| format!("waits for {n}"));
    let mut left = patience;
    let r = loop {
        if bell.rung.load(SeqCst) {
            match f.as_mut().poll(&mut Context::from_waker(&w)) {
                Poll::Ready(c) => break Some(c),
                Poll::Pending => { th::failed(format!("woken, but without the {n} bytes")); return None }
            }
        }
        match &mut left {
            None => th::park(),
            Some(0) => break None,
            Some(k) => { *k -= 1; th::step(); }
        }
    };
    {
        let mut g = s.1.lock().unwrap();
        if r.is_none() {
            // Those behind may have to wait until it could have been served
            g.probe("gave_up");
            if let Some(w) = g.waiters.iter_mut().find(|w| w.id == start) { w.gone = true; }
        } else {
            g.waiters.retain(|w| w.id != start);
        }
    }
    match &r { Some(c) => expect(c, n), None => { th::trace(|| format!("no longer waits for {n}")); drop(f) } }
    check(s);
    r
}

#[allow(clippy::nonminimal_bool)]
fn expect(c: &Credit, n: usize) {
    if *c != n || *c > n || *c < n || !(*c >= n) || (n > 0 && *c == n - 1) || !(*c < n + 1) || c.is_null() != (n == 0) {
        th::failed(format!("borrowed {n} bytes, but got {c:?}"));
    }
}

fn val(c: &mut Credit) -> isize {
    let a = { let c = &mut *c; c + 0 };
    if { let c = &mut *c; c + 7 } != a + 7 || { let c = &mut *c; c - 5 } != a - 5 { th::failed(format!("the arithmetic of {c:?} is wrong")); }
    a
}

/// Divide some credit in so many ways, and check that nothing is lost
fn divide(mut c: Credit, k: u32) -> Vec<Credit> {
    let mut v = vec![];
    let total = val(&mut c);
    let mut null = Credit::null();
    if !null.is_null() || val(&mut null) != 0 { th::failed(format!("no credit at all is {null:?}")); }
    c.extend(null);
    if val(&mut c) != total { th::failed(format!("{total} bytes of credit and none make {c:?}")); }
    for i in 0..k {
        let have = val(&mut c);
        let (mut d, want) = match (i + k) % 5 {
            0 => { let n = have / 3; (c.split(n as usize), n) }
            1 => { let d = c.halve(); (d, have / 2) }
            2 => { let n = have / 4; (c.atomic_split(n as usize), n) }
            3 => (c.split(have as usize + 3), have),
            _ => { let n = have / 5; (c.isplit(n), n) }
        };
        let (got, left) = (val(&mut d), val(&mut c));
        if got != want || left != have - want { th::failed(format!("{have} bytes of credit were divided into {got} and {left}, not {want} and {}", have - want)); }
        v.push(d);
        if i % 3 == 2 {
            // Join two again
            let mut a = v.swap_remove(0);
            let mut b = v.pop().unwrap();
            let (x, y) = (val(&mut b), val(&mut a));
            b.extend(a);
            if val(&mut b) != x + y { th::failed(format!("{x} and {y} bytes of credit do not make {}", val(&mut b))); }
            v.push(b);
        }
    }
    let mut rest = c.take();
    if !c.is_null() { th::failed("taking all leaves some".into()); }
    if k % 2 == 0 { drop(c); } else { v.push(c); }
    let mut sum = val(&mut rest);
    for x in v.iter_mut() { sum += val(x); }
    if sum != total { th::failed(format!("{total} bytes of credit became {sum}")); }
    v.push(rest);
    v
}

fn leave_dirty(s: &Sh, v: Vec<Credit>) {
    let mut g = s.1.lock().unwrap();
    g.dirty.extend(v);
    for w in std::mem::take(&mut g.idle) { w.wake(); }
}

fn client(s: &Sh, ops: &[WOp]) {
    for op in ops {
        let cap = s.0.capacity();
        let size = |n: usize| n.min(cap);
        match *op {
            WOp::Dirty(n, k) => { let c = borrow(s, size(n), None).unwrap(); let v = divide(c, k); leave_dirty(s, v); s.1.lock().unwrap().probe("dirty"); }
            WOp::Direct(n, k) => { let c = borrow(s, size(n), None).unwrap(); for c in divide(c, k) { repay(s, c); } }
            WOp::Overdraw(n, x) => {
                let mut c = borrow(s, size(n), None).unwrap();
                let d = c.isplit((size(n) + x) as isize);
                if d != size(n) + x || val(&mut c) != -(x as isize) { th::failed(format!("overdrawing gave {d:?} and {c:?}")); }
                // Debts must be paid first
                repay(s, c);
                s.1.lock().unwrap().probe("overdrawn");
                leave_dirty(s, vec![d]);
            }
            WOp::GiveUp(n, k) => if let Some(c) = borrow(s, size(n), Some(k)) { repay(s, c); },
            WOp::Share(n) => {
                let c = borrow(s, size(n), None).unwrap();
                let mut g = s.1.lock().unwrap();
                g.shared.push(Arc::new(c));
                g.probe("shared");
                for w in std::mem::take(&mut g.idle) { w.wake(); }
            }
            WOp::Nibble(n) => {
                let c = { let mut g = s.1.lock().unwrap(); let c = g.shared.last().cloned(); if c.is_some() { g.busy += 1; } c };
                if let Some(c) = c {
                    let d = c.atomic_split(n);
                    if d > n { th::failed(format!("asked for a piece of {n} bytes, but got {d:?}")); }
                    drop(c);
                    s.1.lock().unwrap().busy -= 1;
                    leave_dirty(s, vec![d]);
                }
            }
        }
        check(s);
    }
    let mut g = s.1.lock().unwrap();
    g.working -= 1;
    for w in std::mem::take(&mut g.idle) { w.wake(); }
}

fn flusher(s: &Sh) {
    loop {
        enum Job { Repay(Credit), Wait, Over }
        let job = {
            let mut g = s.1.lock().unwrap();
            if let Some(c) = g.dirty.pop_front() { Job::Repay(c) }
            else if g.shared.iter().any(|c| Arc::strong_count(c) == 1) {
                let i = g.shared.iter().position(|c| Arc::strong_count(c) == 1).unwrap();
                let c = g.shared.remove(i);
                Job::Repay(Arc::try_unwrap(c).unwrap())
            }
            else if g.working == 0 && g.busy == 0 { Job::Over }
            else { g.idle.push(th::waker()); Job::Wait }
        };
        match job {
            Job::Repay(c) => { repay(s, c); check(s); }
            Job::Wait => th::park(),
            Job::Over => break,
        }
    }
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: WPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    let capacity = p.capacity.max(1);
    let s: Sh = Arc::new((WriteBack::with_capacity(capacity), Mutex::new(St { capacity: capacity as isize, working: p.clients.len(), debts: p.clients.iter().flatten().any(|o| matches!(o, WOp::Overdraw(_, x) if *x > 0)), ..Default::default() })));
    if s.0.capacity() != capacity { ctx.rep.fail("property", format!("a limit of {capacity} bytes became {}", s.0.capacity())); return; }
    let mut th_: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for c in p.clients.clone() { let s = s.clone(); th_.push(Box::new(move || client(&s, &c))); }
    for _ in 0..p.flushers.max(1) { let s = s.clone(); th_.push(Box::new(move || flusher(&s))); }
    let policy = if p.pct > 0 { th::Policy::Pct(p.pct, 40 * p.clients.iter().map(|c| c.len() as u64).sum::<u64>()) } else { th::Policy::Random(p.p) };
    let o = th::run(p.seed, policy, 200_000, ctx.trace, th_);
    ctx.rep.trace.extend(o.log.iter().cloned());
    ctx.rep.hash = o.hash;
    ctx.rep.steps += o.steps;
    ctx.rep.sched_choices += o.steps;
    ctx.rep.epochs += 1;
    ctx.rep.probe_n("switches", o.switches);
    ctx.rep.sigs.push(o.hash);
    if o.switches > 3 { ctx.rep.nontrivial = true; }
    let mut g = s.1.lock().unwrap();
    for (k, v) in &g.probes { ctx.rep.probe_n(k, *v); }
    if let Some(m) = o.failure { ctx.rep.fail("property", m); return; }
    match o.end {
        th::End::Deadlock => {
            let w: Vec<usize> = g.waiters.iter().map(|w| w.wants).collect();
            ctx.rep.fail("hang", format!("nobody runs any more, but some still wait for {w:?} bytes, while {} of {} are lent", g.out, g.capacity));
        }
        th::End::TooLong => ctx.rep.fail("hang", "the threads do not come to an end"),
        _ => {
            if let Some(b) = g.bad.take() { ctx.rep.fail("property", b); return; }
            drop(g);
            ctx.rep.probe("all_repaid");
            match futures::FutureExt::now_or_never(s.0.borrow(capacity)) {
                Some(c) if c == capacity => s.0.repay(c),
                x => ctx.rep.fail("property", format!("everything was repaid, but all of the {capacity} bytes cannot be borrowed again: {x:?}")),
            }
        }
    }
}

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let capacity = *r.pick(&[1usize, 2, 10, 16, 100, 1000, 1 << 20]);
    let big = if tier == Tier::Quick { 12 } else { 40 };
    let nc = r.range(2, 4);
    let wt: [u32; 6] = *r.pick(&[[10, 10, 1, 2, 1, 2], [10, 0, 0, 0, 0, 0], [0, 10, 0, 3, 0, 0], [3, 3, 3, 6, 3, 6]]);
    let scale = *r.pick(&[1usize, 2, 4, 8]);
    let clients = (0..nc).map(|_| (0..r.range(1, big)).map(|_| {
        let n = if r.chance(0.1) { capacity } else if r.chance(0.03) { 0 } else { 1 + r.below((capacity / scale).max(1) as u64) as usize };
        match r.weighted(&wt) {
            0 => WOp::Dirty(n, r.below(6) as u32), 1 => WOp::Direct(n, r.below(6) as u32), 2 => WOp::Overdraw(n, r.below(8) as usize),
            3 => WOp::GiveUp(n, r.below(30) as u32), 4 => WOp::Share(n), _ => WOp::Nibble(n),
        }
    }).collect()).collect();
    let (p, pct) = if r.chance(0.4) { (0.0, r.range(1, 6) as u32) } else { (*r.pick(&[0.02, 0.1, 0.3, 0.9]), 0) };
    serde_json::to_value(WPlan { seed, capacity, flushers: r.range(1, 2) as u32, p, pct, clients }).unwrap()
}
