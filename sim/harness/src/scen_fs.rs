//! The whole stack, from the file system interface to the disks, under
//! concurrent clients, faults and crashes.
use crate::core::{Ctx, Tier};
use crate::env::*;
use crate::fsdrive::*;
use crate::fsmodel::*;
use bfffs_core::{fs::Fs, property::Property};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::{Fault, FaultAt, Outcome};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PFault { pub at: u64, #[serde(default)] pub disk: Option<usize>, pub kind: String, #[serde(default)] pub arg: u64 }

impl PFault {
    pub fn fault(&self) -> Fault {
        match self.kind.as_str() {
            "eio" => Fault::Eio, "eagain" => Fault::Eagain(self.arg as u32), "stall" => Fault::Stall(self.arg),
            "kill" => Fault::Kill, "bad" => Fault::BadSector, "crash" => Fault::Crash, "lost" => Fault::LostWrite,
            x => panic!("unknown fault {x}"),
        }
    }
}

pub fn arm(faults: &[PFault]) {
    simrt::with(|w| for f in faults {
        // An error may persist
        let n = if f.kind == "eio" { f.arg } else { 0 };
        for i in 0..=n {
            let io = w.io_count + f.at + i;
            w.cfg.faults.push(FaultAt { io, disk: f.disk.map(|d| format!("d{d}")), fault: f.fault() });
        }
    })
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Epoch {
    pub clients: Vec<Vec<Op>>,
    /// Crash at this I/O, counting from the start of the workload
    #[serde(default)] pub crash: Option<u64>,
    /// Crash at this I/O, counting from power-on
    #[serde(default)] pub crash_early: Option<u64>,
    pub mode: String,
    #[serde(default)] pub faults: Vec<PFault>,
    /// what happens once the clients are done: "sync", "verify", "shutdown", "idle" or "none"
    pub fin: String,
    /// Clock offset during this epoch, seconds
    #[serde(default)] pub skew: i64,
    /// jumps: (simulated ms, seconds)
    #[serde(default)] pub events: Vec<(u64, i64)>,
    /// disks that aren't there when the pool is imported
    #[serde(default)] pub missing: Vec<usize>,
    /// disks some percentage of whose reads fail
    #[serde(default)] pub flaky: Vec<(usize, u64)>,
    /// disks that the administrator faults: (simulated ms, disk)
    #[serde(default)] pub admin_fault: Vec<(u64, usize)>,
    /// disks that the administrator attaches: (simulated ms, some disk of the mirror, new disk)
    #[serde(default)] pub attach: Vec<(u64, usize, usize)>,
    /// Wait for repairs to complete at the end
    #[serde(default)] pub repair: bool,
    /// Blocks that rot while the power is off: (disk, how many, seed, labels and spacemaps too?)
    #[serde(default)] pub rot: Vec<(usize, u64, u64, bool)>,
    /// Errors are acceptable, but wrong answers aren't
    #[serde(default)] pub tolerant: bool,
    /// The first error that might be due to a disk's stops the machine
    #[serde(default)] pub fail_stop: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub geo: Geometry,
    pub sizing: Sizing,
    pub sched: SchedCfg,
    pub recexp: u8,
    pub atime: bool,
    pub fanout: usize,
    pub epochs: Vec<Epoch>,
    /// Completed operations older than this must survive (seconds)
    #[serde(default)] pub window: Option<u64>,
    /// Check timestamps after recovery, too
    #[serde(default = "yes")] pub times: bool,
    #[serde(default)] pub selfcheck: bool,
    /// Look for leaked objects
    #[serde(default)] pub leak: bool,
    /// Check the pool's accounting of space
    #[serde(default)] pub space: bool,
    /// More disks than the pool was created with
    #[serde(default)] pub spares: usize,
    /// Appended to the description of any violation
    #[serde(default)] pub tag: String,
    /// Report listings that go wrong because a hash bucket changed
    #[serde(default)] pub buckets: bool,
    /// Go through the FUSE server
    #[serde(default)] pub fuse: bool,
}
fn yes() -> bool { true }

/// History carried from one lifetime of the machine to the next
struct Past { model: Model, base: Model, log: Vec<LogOp>, must: u64, crash_ns: u64, clean: bool }

struct Out { drive: Option<Drive>, recovered: bool, err: Option<(String, String)>, finished: bool, notes: Vec<String> }

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: Plan = serde_json::from_value(plan.clone()).expect("bad plan");
    run_plan(&p, ctx);
    if !p.tag.is_empty() {
        if let Some(v) = &mut ctx.rep.viol { v.msg = format!("{} {}", p.tag, v.msg); }
    }
}

pub fn run_plan(p: &Plan, ctx: &mut Ctx) {
    let mut rig = Rig::new(ctx, &p.geo);
    for _ in 0..p.spares { rig.add_disk(p.geo.blocks); }
    let rig = rig;
    let mut past: Option<Past> = None;
    let mut crng = Rng::stream(p.seed, "crashes");
    let n = p.epochs.len();
    for e in 0..=n {
        // The last lifetime only verifies
        let empty = Epoch { clients: vec![], crash: None, crash_early: None, mode: String::new(), faults: vec![], fin: "verify".into(), missing: p.epochs.last().map(|x| x.missing.clone()).unwrap_or_default(), ..Default::default() };
        let ep = p.epochs.get(e).cloned().unwrap_or(empty);
        if e == n && (past.is_none() || p.epochs.iter().any(|x| x.tolerant)) { break; }
        let mut cfg = p.sched.config(p.seed, &format!("e{e}"));
        cfg.trace = ctx.trace;
        cfg.clock_base_s += e as i64 * 4000 + ep.skew;
        let out = cell(Out { drive: None, recovered: false, err: None, finished: false, notes: vec![] });
        let (out2, p2, ep2, paths) = (out.clone(), p.clone(), ep.clone(), rig.paths.clone());
        let pastbox = cell(past.take());
        let past2 = pastbox.clone();
        let verify_only = e == n;
        for (_, d) in &rig.disks { d.borrow_mut().flaky = 0; }
        for (d, n, seed, labels) in &ep.rot {
            let k = rot(&p.geo, &rig.disk(*d), *n, *seed, *labels);
            ctx.rep.faults.entry("rotten_blocks".into()).and_modify(|x| *x += k).or_insert(k);
            if k > 0 { ctx.rep.nontrivial = true; }
        }
        let flaky: Vec<_> = ep.flaky.iter().map(|(d, pct)| (rig.disk(*d), *pct)).collect();
        let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, ep2, paths, flaky, past2, out2, verify_only).await });
        ctx.rep.absorb(&r);
        past = pastbox.borrow_mut().take();
        let mut o = out.borrow_mut();
        // Anything a client or oracle complained about?
        if let Some((k, m)) = o.err.take() { ctx.rep.fail(&k, format!("epoch {e}: {m}")); }
        if let Some(d) = &o.drive {
            let mut s = d.st.borrow_mut();
            if let Some((k, m)) = s.fail.take() { ctx.rep.fail(&k, format!("epoch {e}: {m}")); }
            for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
            ctx.rep.probe_n("ops", s.nops);
            ctx.rep.sigs.push(s.model.sig());
        }
        // Stopping dead because of an error is acceptable, too, if not graceful
        let erred = ep.fail_stop && r.stats.faults.keys().any(|k| k.ends_with("_eio"));
        let stopped = (ep.tolerant || erred) && matches!(&r.outcome, Outcome::Panic { msg, .. } if erred || fault_error(msg));
        if stopped { ctx.rep.probe("stopped_by_error"); } else { ctx.rep.judge(&r, &format!("epoch {e}")); }
        if ctx.trace {
            for (_, a, b) in &ep.attach {
                let (da, db) = (rig.disk(*a), rig.disk(*b));
                let (da, db) = (da.borrow(), db.borrow());
                let z = simrt::disk::zero_page();
                let diff: Vec<u64> = (0..p.geo.blocks).filter(|l| da.current.get(l).unwrap_or(&z) != db.current.get(l).unwrap_or(&z)).collect();
                ctx.rep.trace.push(format!("d{a} and d{b} differ at {} blocks: {:?}", diff.len(), &diff[..diff.len().min(50)]));
            }
        }
        ctx.rep.trace.extend(o.notes.drain(..));
        if ctx.rep.failed() {
            std::mem::forget(std::mem::replace(&mut *o, Out { drive: None, recovered: false, err: None, finished: false, notes: vec![] }));
            return;
        }
        if o.recovered { ctx.rep.probe("recoveries"); }
        let crashed = stopped || matches!(r.outcome, Outcome::Crashed);
        if let Some(d) = o.drive.take() {
            let s = d.st.borrow();
            past = Some(Past { model: s.model.clone(), base: s.base.clone(), log: s.log.clone(), must: s.must, crash_ns: r.stats.sim_ns, clean: o.finished && !crashed && matches!(ep.fin.as_str(), "sync" | "brief" | "shutdown") });
            drop(s);
            std::mem::forget(d);
        } else if past.is_none() && e < n {
            // Crashed while creating the pool: nothing was promised
            return;
        }
        if crashed || ep.fin == "none" || ep.fin == "idle" {
            let (k, l, t) = rig.crash(crash_mode(&ep.mode), &mut crng);
            ctx.rep.probe("crashes");
            ctx.rep.probe(&format!("crash_{}", ep.mode));
            if l > 0 { ctx.rep.probe("crash_lost_writes"); *ctx.rep.faults.entry("lost_blocks".into()).or_default() += l; }
            if t > 0 { *ctx.rep.faults.entry("torn_blocks".into()).or_default() += t; }
            let _ = k;
            ctx.rep.nontrivial = true;
        } else if ep.fin == "sync" || ep.fin == "brief" {
            // Synced, then cut the power: only synced data survives
            rig.crash(crash_mode(&ep.mode), &mut crng);
        } else {
            rig.quiesce();
        }
        if p.epochs.get(e).map(|x| x.clients.len() > 1).unwrap_or(false) { ctx.rep.nontrivial = true; }
    }
}

/// Corrupt some of the blocks that have ever been written
fn rot(geo: &Geometry, disk: &simrt::DiskRef, n: u64, seed: u64, labels: bool) -> u64 {
    let mut r = Rng::stream(seed, "rot");
    let mut d = disk.borrow_mut();
    let spacemap = (geo.blocks / geo.zone).div_ceil(255);
    let first = if labels { 0 } else { 8 + 2 * spacemap };
    let used: Vec<u64> = d.current.range(first..).map(|(l, _)| *l).collect();
    if used.is_empty() { return 0; }
    let mut k = 0;
    for _ in 0..n {
        // Labels and spacemaps are few
        let lba = if labels && r.chance(0.3) { r.below((8 + 2 * spacemap).min(used.len() as u64)) } else { *r.pick(&used) };
        if d.rot(lba, &mut r) { k += 1; }
    }
    k
}

fn d_probe(s: &'static str) { simrt::with(|w| w.fault_fired(s)); }

/// The UUIDs of a disk and its mirror
async fn leaf_of(db: &Arc<bfffs_core::database::Database>, path: &std::path::Path) -> Option<(bfffs_core::Uuid, bfffs_core::Uuid)> {
    let s = db.status().await;
    for m in s.clusters.iter().flat_map(|c| c.mirrors.iter()) {
        for l in &m.leaves { if l.path == path { return Some((l.uuid, m.uuid)); } }
    }
    None
}

async fn fs_tree(db: &Arc<bfffs_core::database::Database>) -> bfffs_core::database::TreeID { db.lookup_fs("").await.unwrap().1.unwrap() }

async fn lifetime(p: Plan, ep: Epoch, paths: Vec<std::path::PathBuf>, flaky: Vec<(simrt::DiskRef, u64)>, past: Cell<Option<Past>>, out: Cell<Out>, verify_only: bool) {
    bfffs_core::tree::dst::set_max_fanout(p.fanout);
    macro_rules! bail { ($k:expr, $($a:tt)*) => {{ out.borrow_mut().err = Some(($k.to_string(), format!($($a)*))); return; }} }
    if let Some(k) = ep.crash_early { arm(&[PFault { at: k, disk: None, kind: "crash".into(), arg: 0 }]); }
    let fresh = past.borrow().is_none();
    let (db, fs) = if fresh {
        let db = Arc::new(create_db(&p.geo, &paths, p.sizing.cache));
        let t = match db.create_fs(None, "").await { Ok(t) => t, Err(e) => bail!("errno", "creating the root file system: {e:?}") };
        let fs = Arc::new(Fs::new(db.clone(), t).await);
        if let Err(e) = fs.set_prop(Property::RecordSize(p.recexp)).await { bail!("errno", "set_prop: {e:?}"); }
        if let Err(e) = fs.set_prop(Property::Atime(p.atime)).await { bail!("errno", "set_prop: {e:?}"); }
        if let Err(e) = db.sync_transaction().await { bail!("errno", "sync: {e:?}"); }
        // Reimport is the only way to set the writeback size
        (db, fs)
    } else {
        let have: Vec<_> = paths.iter().enumerate().filter(|(i, _)| !ep.missing.contains(i)).map(|(_, p)| p.clone()).collect();
        if !ep.missing.is_empty() { d_probe("degraded_import"); }
        let db = match import_db(&have, &p.sizing).await { Ok(d) => Arc::new(d), Err(_) if ep.tolerant => { d_probe("import_refused"); return }, Err(e) => bail!("import", "the pool can no longer be imported: {e}") };
        let t = match db.lookup_fs("").await { Ok((_, Some(t))) => t, Err(bfffs_core::Error::EINTEGRITY | bfffs_core::Error::ENXIO | bfffs_core::Error::EIO) if ep.tolerant => { d_probe("import_refused"); return }, x => bail!("import", "the root file system is gone: {x:?}") };
        (db.clone(), Arc::new(Fs::new(db, t).await))
    };
    // From now on some disks' reads may fail.  If that had happened any sooner,
    // then the disk wouldn't have been part of the pool at all.
    for (d, pct) in &flaky { d.borrow_mut().flaky = *pct; }
    if ep.tolerant {
        let m = past.borrow().as_ref().unwrap().model.clone();
        match tolerate(&fs, &m).await {
            Ok((good, bad)) => simrt::with(|w| { if good > 0 { w.fault_fired("good_reads"); } if bad > 0 { w.fault_fired("reported_errors"); } }),
            Err(e) => bail!("wrong_data", "{e}"),
        }
        return;
    }
    let obs = match observe(&fs).await { Ok(o) => o, Err(e) => bail!("wrong_state", "{}: {e}", if fresh { "new file system" } else { "after recovery" }) };
    if !fresh {
        let p0 = past.borrow();
        let p0 = p0.as_ref().unwrap();
        let mut must = p0.must;
        if p0.clean { must = u64::MAX; }
        if let Some(w) = p.window {
            for l in &p0.log { if l.end.is_some() && l.t_end.saturating_add(w * 1_000_000_000) < p0.crash_ns { must = must.max(l.end.unwrap() + 1); } }
        }
        match (CutSearch { base: &p0.base, log: &p0.log, must, times: p.times }).search(&obs) {
            Ok(f) => { if f.in_doubt_kept > 0 { simrt::with(|w| w.fault_fired("recovered_in_doubt")); } }
            Err(m) => {
                let tail: Vec<String> = p0.log.iter().rev().take(6).rev().map(|l| format!("#{}..{} {}", l.start, l.end.map(|x| x.to_string()).unwrap_or("?".into()), l.what)).collect();
                bail!("bad_recovery", "{m} [must>={must}; last operations: {}]", tail.join("; "))
            }
        }
        out.borrow_mut().recovered = true;
    }
    if !fresh || p.selfcheck {
        match db.check().await { Ok(true) => (), x => bail!("selfcheck", "{} the consistency check says {x:?}", if fresh { "at first" } else { "after recovery," }) }
    }
    let mut base = obs;
    for (_, i) in base.inodes.iter_mut() { i.atime.hi = i64::MAX; }
    let mut d = Drive::new(fs.clone(), db.clone(), base, p.recexp);
    if p.fuse { d.mount(p.seed); }
    d.st.borrow_mut().atime = p.atime;
    d.st.borrow_mut().buckets = p.buckets;
    d.st.borrow_mut().fail_stop = ep.fail_stop;
    out.borrow_mut().drive = Some(d.clone());
    if p.leak {
        let m = d.st.borrow().model.clone();
        // The dump requires that nothing be locked
        if let Err(e) = db.sync_transaction().await { fail(&d.st, "errno", format!("sync: {e:?}")); return; }
        if let Err(e) = leaks(&db, fs_tree(&db).await, &m).await { fail(&d.st, "leak", format!("{}: {e}", if fresh { "at first" } else { "after recovery" })); return; }
        d.st.borrow_mut().probe("leak_check");
    }
    if p.space {
        if let Err(e) = accounting(&db).await { fail(&d.st, "space", format!("{}: {e}", if fresh { "at first" } else { "after recovery" })); return; }
        d.st.borrow_mut().probe("space_check");
    }
    if verify_only { return; }
    if let Some(k) = ep.crash { arm(&[PFault { at: k, disk: None, kind: "crash".into(), arg: 0 }]); }
    arm(&ep.faults);
    for (ms, s) in &ep.events {
        let (ms, s) = (*ms, *s);
        simrt::spawn(async move {
            simrt::sleep_ns(ms * 1_000_000).await;
            simrt::with(|w| { w.clock_skew_ns += s * 1_000_000_000; w.fault_fired("clock_jump"); });
        });
    }
    let admin = cell(ep.admin_fault.len() + ep.attach.len());
    for (ms, disk) in &ep.admin_fault {
        let (ms, path, db, st) = (*ms, paths[*disk].clone(), db.clone(), d.st.clone());
        let admin = admin.clone();
        simrt::spawn(async move {
            simrt::sleep_ns(ms * 1_000_000).await;
            if let Some((leaf, _)) = leaf_of(&db, &path).await {
                loop {
                    match db.fault(leaf).await {
                        Ok(()) => break,
                        // In use; try again
                        Err(bfffs_core::Error::EAGAIN) => simrt::sleep_ns(1_000_000).await,
                        Err(e) => { fail(&st, "errno", format!("fault: {e:?}")); return }
                    }
                }
                d_probe("admin_fault");
            }
            *admin.borrow_mut() -= 1;
        });
    }
    for (ms, disk, new) in &ep.attach {
        let (ms, path, new, db, st) = (*ms, paths[*disk].clone(), paths[*new].clone(), db.clone(), d.st.clone());
        let admin = admin.clone();
        simrt::spawn(async move {
            simrt::sleep_ns(ms * 1_000_000).await;
            if let Some((_, mirror)) = leaf_of(&db, &path).await {
                loop {
                    match db.attach(mirror, &new).await {
                        Ok(()) => break,
                        Err(bfffs_core::Error::EAGAIN | bfffs_core::Error::EBUSY) => simrt::sleep_ns(1_000_000).await,
                        Err(e) => { fail(&st, "errno", format!("attach: {e:?}")); return }
                    }
                }
                d_probe("attach");
            }
            *admin.borrow_mut() -= 1;
        });
    }
    d.clients(&ep.clients).await;
    match ep.fin.as_str() {
        "none" => { out.borrow_mut().finished = true; return; }
        "idle" => {
            // Time passes; the background syncer should save everything
            simrt::sleep_ns(p.window.unwrap_or(30) * 1_000_000_000 + 1_000_000_000).await;
            out.borrow_mut().finished = true;
            return;
        }
        "brief" => {
            // But a single transaction
            d.sync(None).await;
            out.borrow_mut().finished = true;
            return;
        }
        _ => ()
    }
    if !d.verify("after the workload").await { return; }
    for i in 0.. {
        if *admin.borrow() == 0 { break; }
        if i > 3600 { fail(&d.st, "stuck_admin", "faulting or attaching a disk didn't complete".to_string()); return; }
        simrt::sleep_ns(1_000_000_000).await;
    }
    if ep.repair {
        // If nobody's using the pool, repairs must complete
        for i in 0.. {
            let s = db.status().await;
            let todo = s.clusters.iter().flat_map(|c| c.mirrors.iter()).any(|m| m.rebuilding.is_some());
            if !todo { break; }
            if i > 3600 { fail(&d.st, "stuck_repair", format!("a repair didn't complete: {s:?}")); return; }
            simrt::sleep_ns(1_000_000_000).await;
        }
        d_probe("repaired");
        // The labels don't get rewritten unless something changed
        if p.tag != UNTOUCHED { d.clients(&[vec![Op::SetAttr { f: 0, what: 1, v: 0o755 }]]).await; }
    }
    d.sync(None).await;
    db.drop_cache();
    if !d.verify("after the final sync").await { return; }
    match db.check().await { Ok(true) => (), x => fail(&d.st, "selfcheck", format!("at the end, the consistency check says {x:?}")) }
    if p.leak {
        let m = d.st.borrow().model.clone();
        if let Err(e) = leaks(&db, fs_tree(&db).await, &m).await { fail(&d.st, "leak", format!("at the end: {e}")) }
    }
    if p.space {
        if let Err(e) = accounting(&db).await { fail(&d.st, "space", format!("at the end: {e}")) }
    }
    if !credit(&d, &db).await { return; }
    if ep.fin == "shutdown" {
        if let Some(k) = d.be.kernel() {
            // Unmounting saves everything
            d.clients(&[vec![Op::Create { d: 0, n: 77, perm: 0o644 }, Op::Append { f: 0, len: 5000, pat: 1 }, Op::Unlink { d: 1, n: 0, looked_up: true }]]).await;
            k.unmount().await;
        } else { d.sync(None).await; }
        out.borrow_mut().drive = Some(d.clone());
    } else {
        d.sync(None).await;
    }
    out.borrow_mut().finished = true;
}

/// Once nothing is dirty, all of the write credit must have come back
async fn credit(d: &Drive, db: &Arc<bfffs_core::database::Database>) -> bool {
    // The background flusher and syncer may still be at it
    let t = fs_tree(db).await;
    let f = db.fswrite(t, 0, 0, 0, db.writeback_size(), |_ds| futures::future::ok(()));
    let done = cell(false);
    let d2 = done.clone();
    let f: std::pin::Pin<Box<dyn std::future::Future<Output = _>>> = Box::pin(f);
    simrt::spawn(async move { if f.await.is_ok() { *d2.borrow_mut() = true; } });
    for i in 0..200 {
        if *done.borrow() { d_probe("credit"); return true; }
        simrt::sleep_ns(1_000_000 << (i / 5).min(10)).await;
    }
    fail(&d.st, "credit", "nobody writes any more and everything was synced, but some of the write credit is missing: writers will wait forever".to_string());
    false
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq)]
pub enum Profile { Churn, Mixed, Names, Data, Attrs, Readdir, Open, Small }

pub fn gen_op(r: &mut Rng, pr: Profile, rs: u32, sync: f64) -> Op {
    if r.chance(sync) { return if r.chance(0.5) { Op::Sync } else { Op::Fsync { f: r.below(100) as u32 } }; }
    let nn = |r: &mut Rng| if r.chance(0.35) { r.below(6) as u32 } else { r.below(24) as u32 };
    let s = |r: &mut Rng| r.below(64) as u32;
    let big = |r: &mut Rng| r.below(1 << 20) as u32;
    let off = move |r: &mut Rng| -> u32 { match r.below(5) { 0 => 0, 1 => (r.below(8) as u32) * rs, 2 => (r.below(8) as u32 + 1) * rs - 1 - r.below(3) as u32, 3 => r.below(rs as u64 * 10) as u32, _ => r.below(rs as u64) as u32 } };
    let len = move |r: &mut Rng| -> u32 { match r.below(6) { 0 => 1 + r.below(10) as u32, 1 => rs, 2 => rs * (1 + r.below(5) as u32), 3 => 1 + r.below(rs as u64 * 4) as u32, 4 => rs - 1 + r.below(3) as u32, _ => 1 + r.below(rs as u64) as u32 } };
    // Few files, so that the amount of live data stays small
    let s = move |r: &mut Rng| if pr == Profile::Churn { r.below(4) as u32 } else { s(r) };
    let nn = move |r: &mut Rng| if pr == Profile::Churn { r.below(4) as u32 } else { nn(r) };
    let w: &[u32] = match pr {
        Profile::Churn => &[4, 0, 0, 0, 3, 0, 0, 0, 30, 4, 2, 4, 2, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 6, 0, 0],
        //              cr mk sy no ul rm rn ln wr ap rd tr de ls sa ga sx gx lx dx rr lk op cl sl st dc cn bk br
        Profile::Mixed => &[8, 4, 2, 1, 6, 2, 6, 3, 10, 4, 5, 4, 4, 2, 3, 4, 4, 2, 1, 2, 3, 3, 3, 3, 1, 1, 1, 1, 1, 1],
        Profile::Names => &[10, 6, 2, 2, 8, 5, 12, 6, 1, 0, 0, 0, 0, 0, 1, 3, 0, 0, 0, 0, 6, 6, 2, 2, 1, 0, 1, 0, 2, 2],
        Profile::Data => &[4, 1, 0, 0, 2, 0, 1, 0, 20, 8, 12, 8, 10, 6, 1, 3, 0, 0, 0, 0, 0, 0, 2, 2, 1, 1, 2, 1, 0, 0],
        Profile::Attrs => &[5, 2, 2, 2, 3, 1, 1, 1, 2, 0, 0, 1, 0, 0, 12, 12, 14, 8, 6, 8, 0, 0, 1, 1, 1, 1, 1, 0, 0, 0],
        Profile::Readdir => &[14, 3, 0, 1, 10, 1, 5, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16, 2, 0, 0, 1, 0, 1, 0, 3, 3],
        Profile::Open => &[8, 1, 0, 0, 8, 0, 4, 4, 8, 2, 6, 2, 1, 0, 1, 3, 2, 0, 0, 0, 0, 0, 12, 8, 1, 0, 0, 0, 0, 0],
        Profile::Small => &[10, 3, 1, 0, 5, 2, 5, 3, 8, 2, 0, 2, 2, 0, 2, 0, 2, 0, 0, 1, 0, 0, 2, 2, 0, 0, 0, 0, 0, 0],
    };
    let tot: u32 = w.iter().sum();
    let mut x = r.below(tot as u64) as u32;
    let mut k = 0;
    while x >= w[k] { x -= w[k]; k += 1; }
    match k {
        0 => Op::Create { d: s(r), n: nn(r), perm: (r.below(0o7777)) as u16 },
        1 => Op::Mkdir { d: s(r), n: nn(r), perm: 0o755 },
        2 => Op::Symlink { d: s(r), n: nn(r), t: s(r) },
        3 => Op::Mknod { d: s(r), n: nn(r), k: r.below(8) as u8 },
        4 => Op::Unlink { d: s(r), n: s(r), looked_up: r.chance(0.7) },
        5 => Op::Rmdir { d: s(r), n: s(r) },
        6 => Op::Rename { d: s(r), n: s(r), d2: s(r), n2: big(r) },
        7 => Op::Link { f: s(r), d: s(r), n: nn(r) },
        8 => Op::Write { f: s(r), off: off(r), len: len(r), pat: big(r) },
        9 => Op::Append { f: s(r), len: len(r), pat: big(r) },
        10 => Op::Read { f: s(r), off: off(r), len: len(r) * 2 },
        11 => Op::Trunc { f: s(r), size: off(r) },
        12 => Op::Dealloc { f: s(r), off: off(r), len: len(r) },
        13 => Op::Lseek { f: s(r), off: off(r), hole: r.chance(0.5) },
        14 => Op::SetAttr { f: s(r), what: r.below(64) as u8, v: big(r) },
        15 => Op::GetAttr { f: s(r) },
        16 => Op::SetX { f: s(r), x: s(r), len: *r.pick(&[0, 1, 5, 100, 1000, 5000]), pat: big(r) },
        17 => Op::GetX { f: s(r), x: s(r) },
        18 => Op::ListX { f: s(r) },
        19 => Op::DelX { f: s(r), x: s(r) },
        20 => Op::Readdir { d: s(r), chunk: *r.pick(&[0, 1, 2, 3, 7]) },
        21 => Op::Lookup { d: s(r), n: s(r) },
        22 => Op::Open { f: s(r) },
        23 => Op::Close { h: s(r) },
        24 => Op::Sleep { ms: *r.pick(&[1, 10, 100, 1000, 6000]) },
        25 => Op::Statvfs,
        26 => Op::DropCache,
        27 => Op::Clean,
        28 => Op::Bulk { d: s(r), n: r.below(4) as u32, count: 2 + r.below(30) as u32, len: *r.pick(&[0, 10, 3000]) },
        _ => Op::BulkRm { d: s(r), n: r.below(4) as u32, count: 2 + r.below(30) as u32 },
    }
}

pub fn gen_clients(r: &mut Rng, pr: Profile, rs: u32, nc: usize, nops: usize, sync: f64) -> Vec<Vec<Op>> {
    (0..nc).map(|_| (0..nops).map(|_| gen_op(r, pr, rs, sync)).collect()).collect()
}

pub fn base_plan(r: &mut Rng, seed: u64) -> Plan {
    let recexp = *r.pick(&[12u8, 12, 13, 14, 15]);
    let zone = *r.pick(&[64u64, 128, 256, 1024]);
    let blocks = *r.pick(&[8192u64, 16384]);
    let fanout = *r.pick(&[0usize, 8, 8, 12, 16, 32]);
    Plan {
        seed,
        geo: Geometry::single(zone, blocks / zone),
        // Must be able to hold the largest single item
        sizing: Sizing { cache: if fanout == 0 { 2 << 20 } else { *r.pick(&[128usize << 10, 256 << 10, 1 << 20, 16 << 20]) }, wb: if fanout == 0 { 512 << 20 } else { *r.pick(&[16usize << 20, 64 << 20]) } },
        sched: SchedCfg::gen(r),
        recexp, atime: r.chance(0.5),
        fanout,
        epochs: vec![], window: None, times: true, selfcheck: r.chance(0.3), leak: false, space: false, buckets: false, fuse: false, spares: 0, tag: String::new(),
    }
}

fn ep(clients: Vec<Vec<Op>>, r: &mut Rng, fin: &str) -> Epoch {
    Epoch { clients, crash: None, crash_early: None, mode: pick_crash_mode(r), fin: fin.into(), ..Default::default() }
}

/// Not every pool is a single disk of a round size
pub fn vary(p: &mut Plan, r: &mut Rng) {
    let geo = if r.chance(0.2) { gen_geo(r, p.geo.blocks * 2) } else { p.geo.clone() };
    p.geo = geo;
    if r.chance(0.25) { p.geo.blocks += r.below(p.geo.zone); }
}

/// POSIX semantics under concurrency; clean restarts
pub fn gen_posix(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    vary(&mut p, &mut r);
    let rs = 1u32 << p.recexp;
    let pr = *r.pick(&[Profile::Mixed, Profile::Mixed, Profile::Names, Profile::Data, Profile::Attrs]);
    let ne = r.range(1, 2);
    for _ in 0..ne {
        let nc = r.range(1, 5) as usize;
        let nops = r.range(5, if tier == Tier::Quick { 50 } else { 150 }) as usize;
        let sync = *r.pick(&[0.0, 0.02, 0.1]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let e = ep(c, &mut r, "sync");
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Crashes at arbitrary points
pub fn gen_crash(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    vary(&mut p, &mut r);
    let rs = 1u32 << p.recexp;
    p.space = r.chance(0.2);
    let ne = r.range(1, if tier == Tier::Quick { 3 } else { 5 });
    for _ in 0..ne {
        let pr = *r.pick(&[Profile::Mixed, Profile::Small, Profile::Names, Profile::Data]);
        let nc = r.range(1, 5) as usize;
        let nops = r.range(3, if tier == Tier::Quick { 30 } else { 80 }) as usize;
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let mut c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let how = r.below(10);
        if how == 0 { c[0].push(Op::Crash); }
        let fin = *r.pick(&["sync", "none", "sync"]);
        let mut e = ep(c, &mut r, fin);
        if how > 1 {
            // I/Os are few unless something syncs
            let m = *r.pick(&[20u64, 60, 200, 600]);
            e.crash = Some(r.below(m));
        }
        if r.chance(0.15) && !p.epochs.is_empty() { e.crash_early = Some(r.below(60)); }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Directory listings while entries come and go
pub fn gen_readdir(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    vary(&mut p, &mut r);
    p.recexp = 12;
    p.buckets = true;
    let ne = r.range(1, 2);
    for _ in 0..ne {
        let nc = r.range(2, 5) as usize;
        let nops = r.range(10, if tier == Tier::Quick { 50 } else { 120 }) as usize;
        let c = gen_clients(&mut r, Profile::Readdir, 4096, nc, nops, 0.02);
        let e = ep(c, &mut r, "sync");
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Files that are unlinked while open; crashes; nothing may leak
pub fn gen_orphan(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    vary(&mut p, &mut r);
    p.leak = true;
    let rs = 1u32 << p.recexp;
    let ne = r.range(1, 4);
    for _ in 0..ne {
        let nc = r.range(1, 4) as usize;
        let nops = r.range(5, if tier == Tier::Quick { 40 } else { 100 }) as usize;
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let pr = *r.pick(&[Profile::Open, Profile::Open, Profile::Small, Profile::Data, Profile::Attrs]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let fin = *r.pick(&["sync", "none"]);
        let mut e = ep(c, &mut r, fin);
        if r.chance(0.6) { let m = *r.pick(&[20u64, 60, 200, 600]); e.crash = Some(r.below(m)); }
        if r.chance(0.25) && !p.epochs.is_empty() { e.crash_early = Some(r.below(80)); }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Through the FUSE server, and a kernel that caches and forgets
pub fn gen_fuse(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    vary(&mut p, &mut r);
    p.fuse = true;
    p.leak = r.chance(0.5);
    let rs = 1u32 << p.recexp;
    let ne = r.range(1, 2);
    for _ in 0..ne {
        let nc = r.range(1, 5) as usize;
        let nops = r.range(5, if tier == Tier::Quick { 50 } else { 150 }) as usize;
        let sync = *r.pick(&[0.0, 0.02, 0.1]);
        let pr = *r.pick(&[Profile::Mixed, Profile::Mixed, Profile::Names, Profile::Names, Profile::Open, Profile::Attrs, Profile::Data, Profile::Readdir]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let fin = *r.pick(&["sync", "shutdown", "none"]);
        let mut e = ep(c, &mut r, fin);
        if r.chance(0.2) { let m = *r.pick(&[20u64, 60, 200]); e.crash = Some(r.below(m)); }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Every geometry the pool grammar can express, within the size of a simulation
pub fn gen_geo(r: &mut Rng, total: u64) -> Geometry {
    let nclusters = *r.pick(&[1usize, 1, 1, 2]);
    let (n, k, f) = *r.pick(&[(1usize, 1i16, 0i16), (1, 1, 0), (2, 2, 1), (3, 3, 1), (3, 2, 1), (3, 3, 2), (5, 4, 1), (5, 4, 2), (5, 5, 2), (5, 3, 1), (7, 5, 2), (7, 7, 3)]);
    let m = if n == 1 { *r.pick(&[1usize, 2, 2, 3]) } else { *r.pick(&[1usize, 1, 1, 2]) };
    let zone = *r.pick(&[128u64, 256, 512]);
    // Same usable space, more or less
    let data = if n == 1 { 1 } else { (n as u64 * (k - f) as u64).div_ceil(k as u64).max(1) };
    let blocks = (total / nclusters as u64 / data).div_ceil(zone).max(10) * zone;
    let blocks = blocks + if r.chance(0.2) { r.below(zone) } else { 0 };
    let chunksize = if n == 1 { None } else { *r.pick(&[Some(1u64), Some(2), Some(3), Some(4), Some(8), None]) };
    Geometry { nclusters, n, m, k, f, chunksize, zone, blocks }
}

const REJOINED: &str = "[rejoined after a crash]";
const UNTOUCHED: &str = "[nothing changed after the repair]";

/// What the administrator knows about a redundant pool's disks
#[derive(Clone)]
struct Disks {
    /// Each disk's mirror
    mirror: Vec<Option<usize>>,
    /// Disks that don't have all of the data
    stale: Vec<bool>,
    /// Disks that may or may not have become part of their mirror
    unknown: Vec<bool>,
    /// Disks that must stay away until the rest of the pool has synced.  The
    /// last labels of their mirrors may have been lost in a crash, after which
    /// nothing distinguishes them from disks with all of the data.
    quarantine: Vec<bool>,
    /// Some disks might be a transaction ahead of others
    uneven: bool,
    /// So these, that were being repaired at the time, can't be removed yet
    keep: Vec<bool>,
}

impl Disks {
    fn new(p: &Plan) -> Self {
        let nd = p.geo.ndisks();
        let n = nd + p.spares;
        Disks {
            mirror: (0..n).map(|d| if d < nd { Some(p.geo.mirror_of(d)) } else { None }).collect(),
            stale: (0..n).map(|d| d >= nd).collect(),
            unknown: vec![false; n], quarantine: vec![false; n], keep: vec![false; n], uneven: false
        }
    }
    fn n(&self) -> usize { self.stale.len() }
    fn survivable(&self, geo: &Geometry, out: &[usize]) -> bool {
        (0..geo.nclusters).all(|c| {
            let lost = (c * geo.n..(c + 1) * geo.n).filter(|m| (0..self.n()).all(|d| self.mirror[d] != Some(*m) || self.stale[d] || out.contains(&d))).count();
            lost <= geo.f as usize
        })
    }
    /// Does this stale disk need to be kept away?
    fn keep_away(&self, d: usize, tag: &str) -> bool {
        let fixable = (0..self.n()).any(|o| self.mirror[o] == self.mirror[d] && !self.stale[o]);
        !fixable || self.unknown[d] || self.quarantine[d] && tag != REJOINED
    }
    /// Is any disk of this mirror being repaired?
    fn repairing(&self, m: Option<usize>, x: &Epoch) -> bool {
        (0..self.n()).any(|o| self.mirror[o] == m && self.stale[o] && !x.missing.contains(&o))
    }
    /// Disks that are good, but won't be used or relied upon
    fn newly_out(&self, x: &Epoch) -> Vec<usize> {
        x.missing.iter().copied().filter(|d| !self.stale[*d]).chain(x.flaky.iter().map(|f| f.0)).chain(x.admin_fault.iter().map(|f| f.1)).collect()
    }
    /// Must the pool survive this epoch?
    fn legal(&self, p: &Plan, x: &Epoch) -> bool {
        if (0..self.n()).any(|d| self.stale[d] && self.mirror[d].is_some() && !x.missing.contains(&d) && self.keep_away(d, &p.tag)) { return false; }
        if x.missing.iter().any(|d| *d >= self.n() || self.keep[*d]) { return false; }
        let out = self.newly_out(x);
        if !out.is_empty() && self.uneven { return false; }
        for (i, d) in out.iter().enumerate() {
            if out[..i].contains(d) || *d >= self.n() || self.stale[*d] { return false; }
            // A repair needs all of the mirror's other disks
            if self.repairing(self.mirror[*d], x) { return false; }
        }
        if !self.survivable(&p.geo, &out) { return false; }
        for (i, (_, src, new)) in x.attach.iter().enumerate() {
            if *src >= self.n() || *new >= self.n() || i > 0 { return false; }
            let m = self.mirror[*src];
            // Somebody must be able to supply the data
            if m.is_none() || self.stale[*src] || out.contains(src) || self.mirror[*new].is_some() { return false; }
            if x.flaky.iter().any(|(f, _)| self.mirror[*f] == m) || self.repairing(m, x) { return false; }
        }
        true
    }
    fn after(&mut self, x: &Epoch) {
        let newly: Vec<usize> = self.newly_out(x).into_iter().filter(|d| x.flaky.iter().all(|f| f.0 != *d)).collect();
        if x.crash.is_some() || x.crash_early.is_some() {
            self.uneven = true;
            for d in 0..self.n() { self.keep[d] = self.stale[d] && self.mirror[d].is_some() && !x.missing.contains(&d); }
            for d in newly { self.stale[d] = true; self.quarantine[d] = true; }
            for a in &x.attach { self.mirror[a.2] = self.mirror[a.1]; self.unknown[a.2] = true; }
        } else if x.fin == "brief" {
            // Nothing waited for the repairs
            self.uneven = false;
            for d in 0..self.n() {
                self.keep[d] = self.stale[d] && self.mirror[d].is_some() && !x.missing.contains(&d);
                self.quarantine[d] = false;
            }
            for d in newly { self.stale[d] = true; }
        } else {
            self.uneven = false;
            self.keep.fill(false);
            for d in 0..self.n() {
                if self.mirror[d].is_some() && !self.unknown[d] && !x.missing.contains(&d) { self.stale[d] = false; }
                self.quarantine[d] = false;
            }
            for d in newly { self.stale[d] = true; }
            for a in &x.attach { self.mirror[a.2] = self.mirror[a.1]; self.stale[a.2] = false; }
        }
    }
}

fn legal(p: &Plan) -> bool {
    let mut d = Disks::new(p);
    let ok = |x: &Epoch, d: &Disks| d.legal(p, x) && x.repair && (x.fin == "sync" || x.fin == "brief" && x.admin_fault.is_empty() && x.attach.is_empty());
    for (i, x) in p.epochs.iter().enumerate() {
        if !ok(x, &d) || i == 0 && !(d.newly_out(x).is_empty() && x.attach.is_empty()) { return false; }
        d.after(x);
    }
    let last = Epoch { missing: p.epochs.last().map(|x| x.missing.clone()).unwrap_or_default(), ..Default::default() };
    d.legal(p, &last)
}

pub fn run_redundant(plan: &Value, ctx: &mut Ctx) {
    let p: Plan = serde_json::from_value(plan.clone()).expect("bad plan");
    if !legal(&p) { ctx.rep.probe("illegal_plan"); return; }
    run(plan, ctx)
}

/// A disk that was away for a while returns, and the power fails while it's
/// being rebuilt.
fn gen_rebuild(mut r: Rng, mut p: Plan) -> Value {
    loop {
        p.geo = gen_geo(&mut r, p.geo.blocks);
        if p.geo.m > 1 { break; }
    }
    if p.geo.n == 1 && r.chance(0.5) { p.geo.zone = 64; }
    p.geo.blocks *= 2;
    let rs = 1u32 << p.recexp;
    let d = r.below(p.geo.ndisks() as u64) as usize;
    let m = p.geo.mirror_of(d);
    let all: Vec<usize> = (0..p.geo.ndisks()).filter(|o| p.geo.mirror_of(*o) == m).collect();
    // Others may stay away for longer
    let gone: Vec<usize> = all.iter().copied().filter(|o| *o != d && all.len() > 2 && r.chance(0.2)).take(all.len() - 2).collect();
    let epoch = |r: &mut Rng, nops: usize, missing: Vec<usize>| {
        let nc = r.range(1, 3) as usize;
        let sync = *r.pick(&[0.05, 0.1, 0.3]);
        let pr = *r.pick(&[Profile::Mixed, Profile::Data, Profile::Data]);
        let c = if nops > 0 { gen_clients(r, pr, rs, nc, nops, sync) } else { vec![] };
        let mut x = ep(c, r, "sync");
        x.repair = true;
        x.missing = missing;
        x
    };
    let n = r.range(5, 25) as usize;
    p.epochs.push(epoch(&mut r, n, vec![]));
    let away: Vec<usize> = gone.iter().copied().chain([d]).collect();
    let n = r.range(10, 50) as usize;
    let mut x = epoch(&mut r, n, away);
    if r.chance(0.4) {
        // What it misses is very little
        x.fin = "brief".into();
        for c in &mut x.clients { c.retain(|o| !matches!(o, Op::Sync)); }
    }
    p.epochs.push(x);
    for _ in 0..r.range(1, 3) {
        let n = if r.chance(0.5) { 0 } else { r.range(5, 25) as usize };
        let mut x = epoch(&mut r, n, gone.clone());
        let max = *r.pick(&[40u64, 80, 200, 400]);
        x.crash = Some(r.below(max));
        p.epochs.push(x);
    }
    let n = if r.chance(0.5) { 0 } else { r.range(5, 25) as usize };
    p.epochs.push(epoch(&mut r, n, gone));
    p.epochs.push(epoch(&mut r, 0, all.into_iter().filter(|o| *o != d).collect()));
    assert!(legal(&p), "{}", serde_json::to_string(&p).unwrap());
    serde_json::to_value(&p).unwrap()
}

/// Redundant pools
pub fn gen_redundant(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    if r.chance(0.25) { return gen_rebuild(r, p); }
    p.geo = gen_geo(&mut r, p.geo.blocks * 2);
    let rs = 1u32 << p.recexp;
    let ne = r.range(2, 5);
    let nd = p.geo.ndisks();
    p.spares = 2;
    let mut ds = Disks::new(&p);
    // Disks that have been rebuilt
    let mut rebuilt: Vec<usize> = vec![];
    let tag = ["", REJOINED, UNTOUCHED][r.weighted(&[96, 2, 2])];
    p.tag = tag.into();
    for e in 0..ne {
        let nc = r.range(1, 4) as usize;
        let nops = r.range(5, if tier == Tier::Quick { 30 } else { 60 }) as usize;
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let pr = *r.pick(&[Profile::Mixed, Profile::Data, Profile::Data, Profile::Small]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let busy = (0..ds.n()).any(|d| ds.stale[d] && ds.mirror[d].is_some() && !ds.keep_away(d, &p.tag));
        let crash = r.chance(if busy { 0.5 } else { 0.2 });
        let mut x = ep(c, &mut r, "sync");
        x.repair = true;
        if crash { let m = *r.pick(&[20u64, 60, 200, 600]); x.crash = Some(r.below(m)); }
        // Those that have missed something must stay away unless their mirror can be repaired.
        x.missing = (0..ds.n()).filter(|d| ds.stale[*d] && ds.mirror[*d].is_some() && (ds.keep_away(*d, &p.tag) || !ds.keep[*d] && r.chance(0.3))).collect();
        if e > 0 {
            for _ in 0..r.below(4) {
                let d = r.below(ds.n() as u64) as usize;
                let mut y = x.clone();
                match r.below(3) {
                    0 => y.missing.push(d),
                    1 => y.flaky.push((d, *r.pick(&[10u64, 50, 100]))),
                    _ => y.admin_fault.push((*r.pick(&[0u64, 1, 10, 100, 1000]), d)),
                }
                if ds.legal(&p, &y) { x = y; }
            }
            if r.chance(0.3) {
                let d = r.below(ds.n() as u64) as usize;
                if let Some(free) = (nd..ds.n()).find(|s| ds.mirror[*s].is_none()) {
                    let mut y = x.clone();
                    y.attach.push((*r.pick(&[0u64, 1, 10, 100, 1000]), d, free));
                    if ds.legal(&p, &y) { x = y; }
                }
            }
        }
        if x.crash.is_none() && x.admin_fault.is_empty() && x.attach.is_empty() && r.chance(0.15) {
            x.fin = "brief".into();
            if r.chance(0.5) { for c in &mut x.clients { c.retain(|o| !matches!(o, Op::Sync)); } }
        }
        let before = ds.clone();
        ds.after(&x);
        for d in 0..ds.n() { if before.stale[d] && !ds.stale[d] { rebuilt.push(d); } }
        p.epochs.push(x);
    }
    // The final verification
    let mut x = ep(vec![], &mut r, "sync");
    x.repair = true;
    x.missing = (0..ds.n()).filter(|d| ds.stale[*d] && ds.mirror[*d].is_some() && !ds.keep[*d]).collect();
    let mut cand: Vec<usize> = (0..r.below(5)).map(|_| r.below(ds.n() as u64) as usize).collect();
    for d in rebuilt.iter().rev() {
        if r.chance(0.5) { for o in 0..ds.n() { if ds.mirror[o] == ds.mirror[*d] && o != *d { cand.insert(0, o); } } }
    }
    for d in cand {
        let mut y = x.clone();
        y.missing.push(d);
        if ds.legal(&p, &y) { x = y; }
    }
    p.epochs.push(x);
    assert!(legal(&p), "{}", serde_json::to_string(&p).unwrap());
    serde_json::to_value(&p).unwrap()
}

/// Disks whose contents rot
pub fn gen_rot(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    let rs = 1u32 << p.recexp;
    p.geo = gen_geo(&mut r, p.geo.blocks * 2);
    let bad = rot_set(&mut r, &p.geo);
    let tolerant = bad.is_empty() || r.chance(0.4);
    let ne = r.range(1, 3);
    for e in 0..ne {
        let nc = r.range(1, 4) as usize;
        let nops = r.range(10, if tier == Tier::Quick { 40 } else { 100 }) as usize;
        let pr = *r.pick(&[Profile::Mixed, Profile::Data, Profile::Data, Profile::Small, Profile::Attrs]);
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let mut x = ep(c, &mut r, "sync");
        if e > 0 && !tolerant { x.rot = gen_rots(&mut r, &bad, false); x.repair = p.geo.m > 1; }
        p.epochs.push(x);
    }
    let mut x = ep(vec![], &mut r, "sync");
    if tolerant {
        x.tolerant = true;
        let all: Vec<usize> = (0..p.geo.ndisks()).collect();
        let labels = r.chance(0.3);
        x.rot = gen_rots(&mut r, &all, labels);
    } else {
        x.rot = gen_rots(&mut r, &bad, false);
    }
    p.epochs.push(x);
    serde_json::to_value(&p).unwrap()
}

fn gen_rots(r: &mut Rng, disks: &[usize], labels: bool) -> Vec<(usize, u64, u64, bool)> {
    let mut v = vec![];
    for d in disks { if r.chance(0.7) { v.push((*d, *r.pick(&[1u64, 3, 10, 50, 1000]), r.u64() >> 11, labels)); } }
    v
}

/// Disks that might all rot, yet leave every record recoverable
fn rot_set(r: &mut Rng, g: &Geometry) -> Vec<usize> {
    let mut v = vec![];
    for c in 0..g.nclusters {
        if g.n == 1 {
            let keep = c * g.m + r.below(g.m as u64) as usize;
            v.extend((c * g.m..(c + 1) * g.m).filter(|d| *d != keep));
        } else {
            let mut ms: Vec<usize> = (c * g.n..(c + 1) * g.n).collect();
            for _ in 0..g.f {
                let i = r.below(ms.len() as u64) as usize;
                let mi = ms.swap_remove(i);
                v.extend(mi * g.m..(mi + 1) * g.m);
            }
        }
    }
    v
}

/// Within its redundancy, does every record have at least one good copy?
fn legal_rot(p: &Plan) -> bool {
    let bad: std::collections::BTreeSet<usize> = p.epochs.iter().filter(|e| !e.tolerant).flat_map(|e| e.rot.iter().map(|x| x.0)).collect();
    let g = &p.geo;
    if p.epochs.iter().any(|e| e.rot.iter().any(|x| x.0 >= g.ndisks() || !e.tolerant && x.3)) || p.epochs.iter().rev().skip(1).any(|e| e.tolerant) { return false; }
    if p.epochs.first().map(|e| !e.rot.is_empty() || e.tolerant).unwrap_or(false) { return false; }
    (0..g.nclusters).all(|c| if g.n == 1 {
        (0..g.m).any(|i| !bad.contains(&(c * g.m + i)))
    } else {
        (c * g.n..(c + 1) * g.n).filter(|m| (m * g.m..(m + 1) * g.m).any(|d| bad.contains(&d))).count() <= g.f as usize
    })
}

pub fn run_rot(plan: &Value, ctx: &mut Ctx) {
    let p: Plan = serde_json::from_value(plan.clone()).expect("bad plan");
    if !legal_rot(&p) { ctx.rep.probe("illegal_plan"); return; }
    run(plan, ctx)
}

/// Disks that fail some operations, or fill up
pub fn gen_errors(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    let rs = 1u32 << p.recexp;
    if r.chance(0.5) { p.geo = gen_geo(&mut r, p.geo.blocks * 2); }
    p.space = r.chance(0.4);
    let ne = r.range(1, if tier == Tier::Quick { 3 } else { 5 });
    // With erasure coding, writes that fail on up to f columns succeed.
    let mut bad = vec![];
    if p.geo.f > 0 {
        for c in 0..p.geo.nclusters {
            let mut v: Vec<usize> = (0..p.geo.n).collect();
            for _ in 0..p.geo.f {
                let i = r.below(v.len() as u64) as usize;
                let m = c * p.geo.n + v.swap_remove(i);
                bad.extend(m * p.geo.m..(m + 1) * p.geo.m);
            }
        }
    }
    for _ in 0..ne {
        let pr = *r.pick(&[Profile::Mixed, Profile::Small, Profile::Names, Profile::Data]);
        let nc = r.range(1, 4) as usize;
        let nops = r.range(5, if tier == Tier::Quick { 40 } else { 80 }) as usize;
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        let mut e = ep(c, &mut r, "sync");
        e.fail_stop = true;
        let m = *r.pick(&[20u64, 60, 200, 600]);
        for _ in 0..r.range(1, 4) {
            let (disk, arg) = if !bad.is_empty() { (Some(*r.pick(&bad)), *r.pick(&[4u64, 10, 60, 400])) }
                else if r.chance(0.3) { (Some(r.below(p.geo.ndisks() as u64) as usize), *r.pick(&[0u64, 10, 400])) }
                else { (None, *r.pick(&[0u64, 0, 0, 3])) };
            e.faults.push(PFault { at: r.below(m), disk, kind: "eio".into(), arg });
        }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}

/// Is every acknowledged write recoverable, whichever of them fail?
fn legal_errors(p: &Plan) -> bool {
    let g = &p.geo;
    if g.f == 0 { return true; }
    let mut bad = std::collections::BTreeSet::new();
    for f in p.epochs.iter().flat_map(|e| &e.faults) {
        match f.disk { Some(d) if d < g.ndisks() => { bad.insert(d / g.m); }, _ => return false }
    }
    (0..g.nclusters).all(|c| bad.range(c * g.n..(c + 1) * g.n).count() <= g.f as usize)
}

pub fn run_errors(plan: &Value, ctx: &mut Ctx) {
    let p: Plan = serde_json::from_value(plan.clone()).expect("bad plan");
    if !legal_errors(&p) { ctx.rep.probe("illegal_plan"); return; }
    run(plan, ctx)
}

/// Much more gets written than there is space for, though not at once
pub fn gen_space(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut p = base_plan(&mut r, seed);
    p.space = true;
    let rs = 1u32 << p.recexp;
    if r.chance(0.3) { p.geo = gen_geo(&mut r, p.geo.blocks); }
    let ne = r.range(1, 3);
    for _ in 0..ne {
        let pr = *r.pick(&[Profile::Churn, Profile::Churn, Profile::Mixed, Profile::Data, Profile::Small]);
        let nc = if pr == Profile::Churn { 1 } else { r.range(1, 4) as usize };
        let nops = if pr == Profile::Churn { r.range(100, if tier == Tier::Quick { 300 } else { 2000 }) } else { r.range(5, 40) } as usize;
        let sync = *r.pick(&[0.02, 0.1, 0.3]);
        let mut c = gen_clients(&mut r, pr, rs, nc, nops, sync);
        if pr == Profile::Churn {
            // Cleaned zones only become available in the following transaction
            let mut v = vec![];
            for (i, op) in c[0].drain(..).enumerate() {
                if i % 10 == 0 { v.push(Op::Sync); v.push(Op::Clean); v.push(Op::Sync); }
                v.push(op);
            }
            c[0] = v;
        }
        let mut e = ep(c, &mut r, "sync");
        if r.chance(0.3) { let m = *r.pick(&[60u64, 200, 600, 3000]); e.crash = Some(r.below(m)); }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}
