//! Deterministic simulator: seeded scheduler, simulated clock, simulated
//! disks.  Everything runs on the calling thread; all choices come from the
//! world's PRNG streams.

pub mod disk;
pub mod rng;

use disk::{Disk, Health, LogEnt, LogKind, Page, BLK};
use rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::cmp::Reverse;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type DiskRef = Rc<RefCell<Disk>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SchedMode { Fifo, Random, Lifo, Pct }

/// A fault, placed at the n-th I/O submission of the world (counting from 0)
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// This operation fails with EIO
    Eio,
    /// Submission reports EAGAIN `n` times
    Eagain(u32),
    /// This operation takes this much extra simulated time (ns)
    Stall(u64),
    /// The disk dies: this and all later operations get ENXIO
    Kill,
    /// The block(s) this operation reads become unreadable until rewritten
    BadSector,
    /// The power fails at the moment this operation is submitted
    Crash,
    /// A write is acknowledged but never happens
    LostWrite,
}

#[derive(Clone, Debug)]
pub struct FaultAt { pub io: u64, pub disk: Option<String>, pub fault: Fault }

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub sched: SchedMode,
    /// Chance that an I/O or timer event is handled before a ready task
    pub p_event: f64,
    /// Explicit schedule choices; when exhausted, 0 is used.  None: random
    pub choices: Option<Vec<u32>>,
    pub io_min_ns: u64,
    pub io_max_ns: u64,
    pub max_steps: u64,
    pub max_time_ns: u64,
    pub faults: Vec<FaultAt>,
    /// probability of EAGAIN per submission
    pub p_eagain: f64,
    /// probability of a stall per IO
    pub p_stall: f64,
    /// Realtime clock offset
    pub clock_base_s: i64,
    pub trace: bool,
}

impl Config {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::stream(seed, "config");
        let sched = *r.pick(&[SchedMode::Random, SchedMode::Random,
            SchedMode::Fifo, SchedMode::Lifo, SchedMode::Pct]);
        let io_max = *r.pick(&[100_000u64, 1_000_000, 10_000_000, 50_000_000]);
        Config {
            seed, sched,
            p_event: *r.pick(&[0.0, 0.02, 0.1, 0.3]),
            choices: None,
            io_min_ns: 10_000, io_max_ns: io_max,
            max_steps: 3_000_000, max_time_ns: 3_600_000_000_000,
            faults: Vec::new(), p_eagain: 0.0, p_stall: 0.0,
            clock_base_s: 1_700_000_000,
            trace: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub spawned: u64,
    pub ios: u64,
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub erases: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub sched_choices: u64,
    pub max_ready: u64,
    pub faults: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.steps += o.steps; self.spawned += o.spawned; self.ios += o.ios;
        self.reads += o.reads; self.writes += o.writes; self.syncs += o.syncs;
        self.erases += o.erases; self.sim_ns += o.sim_ns;
        self.trace_hash = (self.trace_hash ^ o.trace_hash).wrapping_mul(0x0000_0100_0000_01B3);
        self.sched_choices += o.sched_choices;
        self.max_ready = self.max_ready.max(o.max_ready);
        for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_default() += v; }
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// The main future finished
    Done,
    /// Power failure, injected or requested
    Crashed,
    /// Some task panicked
    Panic { msg: String, loc: String, task: u64 },
    /// No task can ever run again, but main isn't done
    Deadlock,
    /// max_time_ns of simulated time elapsed
    TimeLimit,
    StepLimit,
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct TaskSlot { fut: Option<BoxFut>, prio: u64, ready: bool }

enum Ev {
    Wake(Waker),
    Io(u64),
}

pub enum IoReq {
    Read { off: u64, len: usize },
    Write { off: u64, data: Vec<u8> },
    Erase { off: u64, len: u64 },
    Sync,
}

struct IoState {
    disk: DiskRef,
    req: IoKind,
    fault: Option<Fault>,
    submit_seq: u64,
    /// How often it has been put off
    waits: u32,
    waker: Option<Waker>,
    done: Option<Result<Vec<u8>, i32>>,
    dropped: bool,
}

enum IoKind { Read { off: u64, len: usize }, Write { lba: u64, n: u64 }, Erase { lba: u64, n: u64 }, Sync }

pub struct World {
    pub cfg: Config,
    epoch: u64,
    pub now: u64,
    seq: u64,
    tasks: Vec<TaskSlot>,
    free: Vec<usize>,
    ready: Vec<usize>,
    events: BinaryHeap<Reverse<(u64, u64)>>,
    evs: HashMap<u64, Ev>,
    ios: HashMap<u64, IoState>,
    next_io: u64,
    sched_rng: Rng,
    event_rng: Rng,
    io_rng: Rng,
    pub fault_rng: Rng,
    pub id_rng: Rng,
    pub disks: HashMap<(u64, u64), DiskRef>,
    pub stats: Stats,
    pub choices: Vec<u32>,
    choice_pos: usize,
    crash_now: bool,
    stop_main: bool,
    pub io_count: u64,
    pub trace: Vec<String>,
    pub op_seq: u64,
    pub clock_skew_ns: i64,
    pub bad_io: Vec<String>,
    eagain_left: u32,
    sync_waits: Vec<(u64, u64)>,
}

thread_local! {
    static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    static EPOCH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PENDING_WAKES: RefCell<Vec<(u64, usize)>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static RANDSTATE: RefCell<Option<Rng>> = const { RefCell::new(None) };
}

/// Access the current world.  Must not be held across arbitrary code.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulated world")))
}

pub fn active() -> bool {
    WORLD.with(|w| w.try_borrow().map(|w| w.is_some()).unwrap_or(true))
}

struct TaskWaker { epoch: u64, id: usize }

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        // NB: may be called while the world is borrowed
        let _ = PENDING_WAKES.try_with(|p| p.borrow_mut().push((self.epoch, self.id)));
    }
}

impl World {
    fn new(cfg: Config, epoch: u64) -> Self {
        let seed = cfg.seed;
        World {
            epoch, now: 0, seq: 0,
            tasks: Vec::new(), free: Vec::new(), ready: Vec::new(),
            events: BinaryHeap::new(), evs: HashMap::new(),
            ios: HashMap::new(), next_io: 0,
            sched_rng: Rng::stream(seed, "sched"),
            event_rng: Rng::stream(seed, "event"),
            io_rng: Rng::stream(seed, "io"),
            fault_rng: Rng::stream(seed, "fault"),
            id_rng: Rng::stream(seed, "id"),
            disks: HashMap::new(), stats: Stats { trace_hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
            choices: Vec::new(), choice_pos: 0,
            crash_now: false, stop_main: false, io_count: 0,
            trace: Vec::new(), op_seq: 0, clock_skew_ns: 0,
            bad_io: Vec::new(), eagain_left: 0, sync_waits: Vec::new(),
            cfg,
        }
    }

    fn th(&mut self, v: u64) {
        self.stats.trace_hash = (self.stats.trace_hash ^ v).wrapping_mul(0x0000_0100_0000_01B3)
            .rotate_left(23);
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.cfg.trace {
            let s = format!("[{:>12}] {}", self.now, f());
            self.trace.push(s);
        }
    }

    pub fn fault_fired(&mut self, k: &str) {
        *self.stats.faults.entry(k.to_owned()).or_default() += 1;
    }

    fn spawn(&mut self, fut: BoxFut) -> usize {
        let prio = self.sched_rng.u64();
        let slot = TaskSlot { fut: Some(fut), prio, ready: true };
        let id = if let Some(i) = self.free.pop() { self.tasks[i] = slot; i }
            else { self.tasks.push(slot); self.tasks.len() - 1 };
        self.ready.push(id);
        self.stats.spawned += 1;
        id
    }

    fn drain_wakes(&mut self) {
        PENDING_WAKES.with(|p| {
            for (e, id) in p.borrow_mut().drain(..) {
                if e != self.epoch { continue; }
                if let Some(t) = self.tasks.get_mut(id) {
                    if t.fut.is_some() && !t.ready {
                        t.ready = true;
                        self.ready.push(id);
                    }
                }
            }
        });
    }

    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        let c = match &self.cfg.choices {
            Some(v) => {
                let c = v.get(self.choice_pos).copied().unwrap_or(0) as usize % n;
                self.choice_pos += 1;
                c
            }
            None => match self.cfg.sched {
                SchedMode::Fifo => 0,
                SchedMode::Lifo => if self.sched_rng.chance(0.8) { n - 1 }
                    else { self.sched_rng.below(n as u64) as usize },
                SchedMode::Random => self.sched_rng.below(n as u64) as usize,
                SchedMode::Pct => {
                    if self.sched_rng.chance(0.01) {
                        // priority change point
                        let i = self.sched_rng.below(n as u64) as usize;
                        let t = self.ready[i];
                        self.tasks[t].prio = self.sched_rng.u64() >> 8;
                    }
                    (0..n).max_by_key(|i| self.tasks[self.ready[*i]].prio).unwrap()
                }
            }
        };
        self.choices.push(c as u32);
        self.stats.sched_choices += 1;
        c
    }

    pub fn after(&mut self, dt: u64, w: Waker) {
        let at = self.now.saturating_add(dt);
        self.seq += 1;
        self.events.push(Reverse((at, self.seq)));
        self.evs.insert(self.seq, Ev::Wake(w));
    }

    fn latency(&mut self) -> u64 {
        let lo = self.cfg.io_min_ns;
        let hi = self.cfg.io_max_ns.max(lo);
        let l = self.io_rng.range(lo, hi);
        if self.cfg.p_stall > 0.0 && self.io_rng.chance(self.cfg.p_stall) {
            self.fault_fired("stall");
            l + self.io_rng.range(100_000_000, 20_000_000_000)
        } else { l }
    }

    /// Submit an operation.  Err means a synchronous failure (EAGAIN etc)
    pub fn submit(&mut self, disk: DiskRef, req: IoReq) -> Result<u64, i32> {
        if self.eagain_left > 0 {
            self.eagain_left -= 1;
            self.fault_fired("eagain");
            return Err(libc::EAGAIN);
        }
        if self.cfg.p_eagain > 0.0 && self.fault_rng.chance(self.cfg.p_eagain) {
            self.fault_fired("eagain");
            return Err(libc::EAGAIN);
        }
        let n = self.io_count;
        self.io_count += 1;
        let dname = disk.borrow().name.clone();
        let mut fault = None;
        for f in &self.cfg.faults {
            if f.io == n && f.disk.as_ref().map(|d| *d == dname).unwrap_or(true) {
                fault = Some(f.fault.clone());
                break;
            }
        }
        let mut lat = self.latency();
        match &fault {
            Some(Fault::Eagain(k)) => {
                self.eagain_left = k.saturating_sub(1);
                self.fault_fired("eagain");
                return Err(libc::EAGAIN);
            }
            Some(Fault::Stall(ns)) => { lat += ns; self.fault_fired("stall"); }
            Some(Fault::Kill) => {
                disk.borrow_mut().health = Health::Dead;
                self.fault_fired("disk_dead");
            }
            Some(Fault::Crash) => {
                self.crash_now = true;
                self.fault_fired("crash");
            }
            _ => {}
        }
        self.seq += 1;
        let submit_seq = self.seq;
        self.stats.ios += 1;
        let kind = {
            let mut d = disk.borrow_mut();
            let align = |off: u64, len: u64, bad: &mut Vec<String>, dname: &str, size: u64| {
                if off % BLK as u64 != 0 || len % BLK as u64 != 0 {
                    bad.push(format!("misaligned I/O on {dname}: off={off} len={len}"));
                }
                if off + len > size {
                    bad.push(format!("I/O beyond end of {dname}: off={off} len={len}"));
                }
            };
            let size = d.blocks * BLK as u64;
            match req {
                IoReq::Read { off, len } => {
                    self.stats.reads += 1; d.reads += 1;
                    align(off, len as u64, &mut self.bad_io, &dname, size);
                    IoKind::Read { off, len }
                }
                IoReq::Write { off, data } => {
                    self.stats.writes += 1; d.writes += 1;
                    align(off, data.len() as u64, &mut self.bad_io, &dname, size);
                    let lba = off / BLK as u64;
                    let pages: Vec<Option<Page>> = data.chunks(BLK).map(|c| {
                        let mut b = [0u8; BLK];
                        b[..c.len()].copy_from_slice(c);
                        Some(Arc::new(b))
                    }).collect();
                    let n = pages.len() as u64;
                    d.begin_write(submit_seq, lba, pages);
                    IoKind::Write { lba, n }
                }
                IoReq::Erase { off, len } => {
                    self.stats.erases += 1; d.erases += 1;
                    let lba = off / BLK as u64;
                    let mut n = len / BLK as u64;
                    if lba + n > d.blocks { n = d.blocks.saturating_sub(lba); }
                    d.begin_write(submit_seq, lba, vec![None; n as usize]);
                    IoKind::Erase { lba, n }
                }
                IoReq::Sync => { self.stats.syncs += 1; d.syncs += 1; IoKind::Sync }
            }
        };
        self.note(|| format!("submit io{} {} {} seq{}{}", n, dname, match &kind {
            IoKind::Read { off, len } => format!("read lba={} n={}", off / 4096, len / 4096),
            IoKind::Write { lba, n } => format!("write lba={lba} n={n}"),
            IoKind::Erase { lba, n } => format!("erase lba={lba} n={n}"),
            IoKind::Sync => "sync".to_string(),
        }, submit_seq, fault.as_ref().map(|f| format!(" FAULT {f:?}")).unwrap_or_default()));
        let id = self.next_io;
        self.next_io += 1;
        self.ios.insert(id, IoState { disk, req: kind, fault, submit_seq, waits: 0,
            waker: None, done: None, dropped: false });
        let at = self.now + lat;
        self.seq += 1;
        self.events.push(Reverse((at, self.seq)));
        self.evs.insert(self.seq, Ev::Io(id));
        Ok(id)
    }

    fn finish_io(&mut self, id: u64) {
        let Some(io) = self.ios.get(&id) else { return };
        let disk = io.disk.clone();
        let fault = io.fault.clone();
        let submit_seq = io.submit_seq;
        // A sync waits for every operation that was queued before it
        if matches!(io.req, IoKind::Sync) {
            let busy = self.ios.values().any(|o| o.submit_seq < submit_seq
                && o.done.is_none() && Rc::ptr_eq(&o.disk, &disk)
                && !matches!(o.req, IoKind::Sync | IoKind::Read{..}));
            if busy {
                let io = self.ios.get_mut(&id).unwrap();
                io.waits += 1;
                let at = self.now + (50_000 << (io.waits / 16).min(10));
                self.seq += 1;
                self.events.push(Reverse((at, self.seq)));
                self.evs.insert(self.seq, Ev::Io(id));
                return;
            }
        }
        self.seq += 1;
        let done_seq = self.seq;
        let mut d = disk.borrow_mut();
        let io = self.ios.get(&id).unwrap();
        let dead = d.health == Health::Dead;
        let mut fired: Option<&'static str> = None;
        let (kind, lba, n, r): (LogKind, u64, u64, Result<Vec<u8>, i32>) = match &io.req {
            IoKind::Read { off, len } => {
                let lba = off / BLK as u64;
                let n = (*len as u64).div_ceil(BLK as u64);
                if fault == Some(Fault::BadSector) {
                    for i in 0..n { d.bad_read.insert(lba + i, ()); }
                    fired = Some("bad_sector");
                }
                let bad = d.bad_read.range(lba..lba + n).next().is_some();
                let r = if dead { Err(libc::ENXIO) }
                    else if fault == Some(Fault::Eio) { fired = Some("read_eio"); Err(libc::EIO) }
                    else if bad { Err(libc::EIO) }
                    else if d.flaky > 0 && self.fault_rng.below(100) < d.flaky { fired = Some("flaky_read"); Err(libc::EIO) }
                    else { Ok(d.read(*off, *len)) };
                (LogKind::Read, lba, n, r)
            }
            IoKind::Write { lba, n } | IoKind::Erase { lba, n } => {
                let e = matches!(io.req, IoKind::Erase{..});
                let r = if dead || d.fail_writes {
                    let idx = d.unsynced.iter().position(|u| u.seq == submit_seq).unwrap();
                    d.unsynced.remove(idx);
                    Err(if dead { libc::ENXIO } else { libc::EIO })
                } else if fault == Some(Fault::Eio) {
                    d.fail_write(submit_seq, &mut self.fault_rng);
                    fired = Some("write_eio");
                    Err(libc::EIO)
                } else if fault == Some(Fault::LostWrite) {
                    let idx = d.unsynced.iter().position(|u| u.seq == submit_seq).unwrap();
                    d.unsynced.remove(idx);
                    fired = Some("lost_write");
                    Ok(Vec::new())
                } else {
                    d.complete_write(submit_seq);
                    Ok(Vec::new())
                };
                (if e { LogKind::Erase } else { LogKind::Write }, *lba, *n, r)
            }
            IoKind::Sync => {
                let r = if dead { Err(libc::ENXIO) }
                    else if fault == Some(Fault::Eio) { fired = Some("sync_eio"); Err(libc::EIO) }
                    else { d.sync(submit_seq); Ok(Vec::new()) };
                (LogKind::Sync, 0, 0, r)
            }
        };
        let err = match &r { Ok(_) => 0, Err(e) => *e };
        if let Some(l) = d.log.as_mut() {
            l.push(LogEnt { kind, lba, n, submit_seq, done_seq, err });
        }
        drop(d);
        if let Some(f) = fired { self.fault_fired(f); }
        self.note(|| format!("done seq{submit_seq} {:?} lba={lba} n={n} err={err}", kind));
        self.th(lba.wrapping_mul(31) ^ n ^ ((kind as u64) << 60) ^ ((err as u64) << 50));
        let io = self.ios.get_mut(&id).unwrap();
        io.done = Some(r);
        let dropped = io.dropped;
        if let Some(w) = io.waker.take() { w.wake(); }
        if dropped { self.ios.remove(&id); }
    }

    pub fn poll_io(&mut self, id: u64, w: &Waker) -> Poll<Result<Vec<u8>, i32>> {
        let io = self.ios.get_mut(&id).expect("polled a finished I/O");
        if io.done.is_some() {
            let io = self.ios.remove(&id).unwrap();
            Poll::Ready(io.done.unwrap())
        } else {
            io.waker = Some(w.clone());
            Poll::Pending
        }
    }

    pub fn drop_io(&mut self, id: u64) {
        if let Some(io) = self.ios.get_mut(&id) {
            if io.done.is_some() { self.ios.remove(&id); }
            else { io.dropped = true; io.waker = None; }
        }
    }

    pub fn inflight(&self) -> usize {
        self.ios.values().filter(|o| o.done.is_none()).count()
    }

    /// Cut the power at the next scheduling point
    pub fn crash(&mut self) { self.crash_now = true; }

    /// The sequence number most recently given to an I/O's submission or
    /// completion
    pub fn io_seq(&self) -> u64 { self.seq }

    /// A fresh, strictly increasing stamp for history events
    pub fn stamp(&mut self) -> u64 { self.op_seq += 1; self.op_seq }
}

pub fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let verbose = std::env::var_os("DST_PANIC").is_some();
        std::panic::set_hook(Box::new(move |info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "panic".to_string() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            if verbose {
                eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
            }
            let _ = PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    if p.is_none() { *p = Some((msg, loc)); }
                }
            });
        }));
    });
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Run `main` in a fresh world until it completes, or until the power fails.
/// Everything still alive at that point is leaked, as if the machine had
/// stopped.
pub struct RunResult { pub outcome: Outcome, pub stats: Stats, pub choices: Vec<u32>, pub trace: Vec<String>, pub bad_io: Vec<String>, pub io_count: u64 }

pub fn run<F, M>(cfg: Config, disks: &[((u64, u64), DiskRef)], main: M) -> RunResult
    where M: FnOnce() -> F, F: Future<Output = ()> + 'static
{
    install_panic_hook();
    let epoch = EPOCH.with(|e| { e.set(e.get() + 1); e.get() });
    PANIC.with(|p| *p.borrow_mut() = None);
    PENDING_WAKES.with(|p| p.borrow_mut().clear());
    RANDSTATE.with(|r| *r.borrow_mut() = Some(Rng::stream(cfg.seed, "randstate")));
    let mut w = Box::new(World::new(cfg, epoch));
    for (k, d) in disks { w.disks.insert(*k, d.clone()); }
    WORLD.with(|x| *x.borrow_mut() = Some(w));
    let fut: BoxFut = Box::pin(main());
    let main_id = with(|w| w.spawn(fut));
    let outcome = run_loop(epoch, main_id);
    let mut w = WORLD.with(|x| x.borrow_mut().take()).unwrap();
    w.stats.sim_ns = w.now;
    w.stats.faults.retain(|_, v| *v > 0);
    let r = RunResult {
        outcome, stats: std::mem::take(&mut w.stats), choices: std::mem::take(&mut w.choices),
        trace: std::mem::take(&mut w.trace), bad_io: std::mem::take(&mut w.bad_io), io_count: w.io_count
    };
    // The machine stops dead.  No destructors run.
    w.disks.clear();
    std::mem::forget(w);
    PENDING_WAKES.with(|p| p.borrow_mut().clear());
    r
}

fn run_loop(epoch: u64, main_id: usize) -> Outcome {
    enum Act { Poll(usize, BoxFut), Event, Stop(Outcome) }
    loop {
        let act = with(|w| {
            w.drain_wakes();
            if w.crash_now { return Act::Stop(Outcome::Crashed); }
            if w.stats.steps >= w.cfg.max_steps { return Act::Stop(Outcome::StepLimit); }
            if w.now >= w.cfg.max_time_ns { return Act::Stop(Outcome::TimeLimit); }
            w.stats.steps += 1;
            let nready = w.ready.len();
            w.stats.max_ready = w.stats.max_ready.max(nready as u64);
            if nready == 0 {
                if w.events.is_empty() { return Act::Stop(Outcome::Deadlock); }
                return Act::Event;
            }
            if !w.events.is_empty() && w.cfg.p_event > 0.0 {
                let p = w.cfg.p_event;
                if w.event_rng.chance(p) { return Act::Event; }
            }
            let i = w.choose(nready);
            let id = w.ready.remove(i);
            let t = &mut w.tasks[id];
            t.ready = false;
            let fut = t.fut.take().unwrap();
            w.th(id as u64 + 0x1000);
            Act::Poll(id, fut)
        });
        match act {
            Act::Stop(o) => return o,
            Act::Event => with(|w| {
                let Reverse((at, seq)) = w.events.pop().unwrap();
                w.now = w.now.max(at);
                match w.evs.remove(&seq) {
                    Some(Ev::Wake(wk)) => wk.wake(),
                    Some(Ev::Io(id)) => w.finish_io(id),
                    None => {}
                }
            }),
            Act::Poll(id, mut fut) => {
                let waker = Waker::from(Arc::new(TaskWaker { epoch, id }));
                let mut cx = Context::from_waker(&waker);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    fut.as_mut().poll(&mut cx)
                }));
                match r {
                    Ok(Poll::Pending) => {
                        with(|w| w.tasks[id].fut = Some(fut));
                    }
                    Ok(Poll::Ready(())) => {
                        // Dropping the future may run user code
                        let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(fut)));
                        if d.is_err() {
                            let (msg, loc) = take_panic().unwrap_or_default();
                            return Outcome::Panic { msg, loc, task: id as u64 };
                        }
                        if id == main_id { return Outcome::Done; }
                        with(|w| { w.drain_wakes(); w.free.push(id); });
                    }
                    Err(_) => {
                        std::mem::forget(fut);
                        let (msg, loc) = take_panic().unwrap_or_default();
                        return Outcome::Panic { msg, loc, task: id as u64 };
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- tasks

struct JoinState<T> { val: Option<T>, waker: Option<Waker>, aborted: bool }

pub struct JoinHandle<T>(Arc<Mutex<JoinState<T>>>);

impl<T> Unpin for JoinHandle<T> {}

#[derive(Debug)]
pub struct JoinError;

impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task was cancelled") }
}
impl std::error::Error for JoinError {}
impl JoinError {
    pub fn is_cancelled(&self) -> bool { true }
    pub fn is_panic(&self) -> bool { false }
}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.val.take() { Poll::Ready(Ok(v)) }
        else if s.aborted { Poll::Ready(Err(JoinError)) }
        else { s.waker = Some(cx.waker().clone()); Poll::Pending }
    }
}

impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.val.is_some() || s.aborted
    }
    pub fn abort(&self) {
        let mut s = self.0.lock().unwrap();
        if s.val.is_none() {
            s.aborted = true;
            if let Some(w) = s.waker.take() { w.wake(); }
        }
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where F: Future + 'static, F::Output: 'static
{
    let st = Arc::new(Mutex::new(JoinState { val: None, waker: None, aborted: false }));
    let st2 = st.clone();
    let fut: BoxFut = Box::pin(async move {
        let mut f = Box::pin(f);
        let r = std::future::poll_fn(|cx| {
            if st2.lock().unwrap().aborted { return Poll::Ready(None); }
            f.as_mut().poll(cx).map(Some)
        }).await;
        drop(f);
        let mut s = st2.lock().unwrap();
        s.val = r;
        if let Some(w) = s.waker.take() { w.wake(); }
    });
    with(|w| w.spawn(fut));
    JoinHandle(st)
}

/// A "thread pool" job: runs, atomically, at some later scheduling point.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where F: FnOnce() -> R + 'static, R: 'static
{
    let delay = with(|w| w.io_rng.below(1_000_000));
    spawn(async move { sleep_ns(delay).await; f() })
}

/// Let any other task run
pub fn yield_now() -> impl Future<Output = ()> {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first { first = false; cx.waker().wake_by_ref(); Poll::Pending }
        else { Poll::Ready(()) }
    })
}

// ---------------------------------------------------------------- time

pub fn now_ns() -> u64 { with(|w| w.now) }

pub struct SleepNs { at: u64, armed: Option<Waker> }

impl Future for SleepNs {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let at = self.at;
        let armed = self.armed.as_ref().map(|w| w.will_wake(cx.waker())).unwrap_or(false);
        let r = with(|w| {
            if w.now >= at { true }
            else if armed { false }
            else {
                let dt = at - w.now;
                w.after(dt, cx.waker().clone());
                false
            }
        });
        if !r && !armed { self.armed = Some(cx.waker().clone()); }
        if r { Poll::Ready(()) } else { Poll::Pending }
    }
}

pub fn sleep_until_ns(at: u64) -> SleepNs { SleepNs { at, armed: None } }
pub fn sleep_ns(dt: u64) -> SleepNs { sleep_until_ns(now_ns().saturating_add(dt)) }

// ---------------------------------------------------------------- disks

pub fn fd_key(fd: i32) -> (u64, u64) {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::fstat(fd, &mut st) };
    assert_eq!(r, 0, "fstat of a bad descriptor");
    (st.st_dev, st.st_ino)
}

pub fn disk_for_fd(fd: i32) -> Result<DiskRef, i32> {
    let k = fd_key(fd);
    with(|w| w.disks.get(&k).cloned().ok_or(libc::ENXIO))
}

pub enum IoFut { New(i32, Option<IoReq>), Pending(u64), Done }

impl IoFut {
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Vec<u8>, i32>> {
        match self {
            IoFut::New(fd, req) => {
                let d = match disk_for_fd(*fd) { Ok(d) => d, Err(e) => return Poll::Ready(Err(e)) };
                // On EAGAIN the request must remain usable
                let probe = match req.as_ref().expect("polled after completion") {
                    IoReq::Read { off, len } => IoReq::Read { off: *off, len: *len },
                    IoReq::Write { off, data } => IoReq::Write { off: *off, data: data.clone() },
                    IoReq::Erase { off, len } => IoReq::Erase { off: *off, len: *len },
                    IoReq::Sync => IoReq::Sync,
                };
                match with(|w| w.submit(d, probe)) {
                    Err(e) => Poll::Ready(Err(e)),
                    Ok(id) => {
                        *self = IoFut::Pending(id);
                        with(|w| w.poll_io(id, cx.waker()))
                    }
                }
            }
            IoFut::Pending(id) => {
                let r = with(|w| w.poll_io(*id, cx.waker()));
                if r.is_ready() { *self = IoFut::Done; }
                r
            }
            IoFut::Done => panic!("I/O future polled after completion"),
        }
    }
}

impl Drop for IoFut {
    fn drop(&mut self) {
        if let IoFut::Pending(id) = self {
            if active() {
                let id = *id;
                WORLD.with(|w| if let Ok(mut w) = w.try_borrow_mut() {
                    if let Some(w) = w.as_mut() { w.drop_io(id); }
                });
            }
        }
    }
}

/// Synchronously punch a hole
pub fn erase_sync(fd: i32, off: u64, len: u64) -> Result<(), i32> {
    let d = disk_for_fd(fd)?;
    with(|w| {
        w.seq += 1;
        let seq = w.seq;
        let mut dm = d.borrow_mut();
        if dm.health == Health::Dead { return Err(libc::ENXIO); }
        dm.erases += 1;
        let lba = off / BLK as u64;
        let n = (len / BLK as u64).min(dm.blocks.saturating_sub(lba));
        dm.begin_write(seq, lba, vec![None; n as usize]);
        dm.complete_write(seq);
        if let Some(l) = dm.log.as_mut() {
            l.push(LogEnt { kind: LogKind::Erase, lba, n, submit_seq: seq, done_seq: seq, err: 0 });
        }
        let name = dm.name.clone();
        drop(dm);
        w.stats.erases += 1;
        w.note(|| format!("erase {name} lba={lba} n={n}"));
        w.th(lba ^ 0xE0E0_0000);
        Ok(())
    })
}

// ---------------------------------------------------------------- entropy

/// Deterministic replacement for the operating system's entropy
pub fn fill_random(b: &mut [u8]) {
    let ok = WORLD.with(|w| match w.try_borrow_mut() {
        Ok(mut w) => if let Some(w) = w.as_mut() { w.id_rng.fill(b); true } else { false },
        Err(_) => false
    });
    if !ok {
        RANDSTATE.with(|r| {
            let mut r = r.borrow_mut();
            r.get_or_insert_with(|| Rng::new(42)).fill(b);
        });
    }
}

/// std's RandomState keys come from here
///
/// # Safety
/// As getrandom(2)
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let s = unsafe { std::slice::from_raw_parts_mut(buf.cast::<u8>(), len) };
    let ok = RANDSTATE.try_with(|r| match r.try_borrow_mut() {
        Ok(mut r) => { r.get_or_insert_with(|| Rng::new(42)).fill(s); true }
        Err(_) => false
    }).unwrap_or(false);
    if !ok { s.fill(0x5a); }
    len as libc::ssize_t
}

/// The simulated wall clock
pub fn realtime() -> (i64, i64) {
    with(|w| {
        let t = w.now as i64 + w.clock_skew_ns;
        let s = w.cfg.clock_base_s + t.div_euclid(1_000_000_000);
        (s, t.rem_euclid(1_000_000_000))
    })
}
