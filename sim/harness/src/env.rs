//! Simulated machines: disks, pools, databases.
use crate::core::Ctx;
use bfffs_core::{cache::Cache, cluster::Cluster, database, ddml::DDML, idml::IDML, mirror::Mirror, pool::Pool, raid};
use serde::{Deserialize, Serialize};
use simrt::disk::{CrashMode, Disk, CRASH_MODES};
use simrt::rng::Rng;
use simrt::{Config, DiskRef, SchedMode};
use std::cell::RefCell;
use std::num::NonZeroU64;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const POOL: &str = "testpool";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Geometry {
    /// clusters
    pub nclusters: usize,
    /// mirrors per cluster
    pub n: usize,
    /// disks per mirror
    pub m: usize,
    pub k: i16,
    pub f: i16,
    pub chunksize: Option<u64>,
    /// LBAs per zone
    pub zone: u64,
    /// blocks per disk
    pub blocks: u64,
}

impl Geometry {
    pub fn ndisks(&self) -> usize { self.nclusters * self.n * self.m }
    pub fn single(zone: u64, nzones: u64) -> Self {
        Geometry { nclusters: 1, n: 1, m: 1, k: 1, f: 0, chunksize: None, zone, blocks: zone * nzones }
    }
    /// disk indices of a cluster
    pub fn cluster_of(&self, d: usize) -> usize { d / (self.n * self.m) }
    pub fn mirror_of(&self, d: usize) -> usize { d / self.m }
    /// Does the set of unavailable disks leave every datum recoverable?
    pub fn survivable(&self, dead: &[usize]) -> bool {
        for c in 0..self.nclusters {
            let mut lost = 0;
            for mi in 0..self.n {
                let base = (c * self.n + mi) * self.m;
                if (base..base + self.m).all(|d| dead.contains(&d)) { lost += 1; }
            }
            if lost > self.f as usize { return false; }
        }
        true
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCfg {
    pub sched: String,
    pub p_event: f64,
    pub io_max_ns: u64,
    pub p_eagain: f64,
    pub p_stall: f64,
}

impl SchedCfg {
    pub fn gen(r: &mut Rng) -> Self {
        SchedCfg {
            sched: r.pick(&["random", "random", "random", "fifo", "lifo", "pct", "pct"]).to_string(),
            p_event: *r.pick(&[0.0, 0.02, 0.1, 0.3]),
            io_max_ns: *r.pick(&[100_000u64, 1_000_000, 10_000_000, 50_000_000]),
            p_eagain: *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.05, 0.3]), p_stall: *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.001]),
        }
    }
    pub fn config(&self, seed: u64, label: &str) -> Config {
        let s = Rng::stream(seed, label).u64();
        let mut c = Config::new(s);
        c.sched = match self.sched.as_str() {
            "fifo" => SchedMode::Fifo, "lifo" => SchedMode::Lifo, "pct" => SchedMode::Pct, _ => SchedMode::Random,
        };
        c.p_event = self.p_event;
        c.io_max_ns = self.io_max_ns;
        c.p_eagain = self.p_eagain;
        c.p_stall = self.p_stall;
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sizing { pub cache: usize, pub wb: usize }

impl Sizing {
    pub fn gen(r: &mut Rng) -> Self {
        Sizing {
            cache: *r.pick(&[4096usize, 65536, 1 << 20, 16 << 20]),
            wb: *r.pick(&[8usize << 20, 16 << 20, 64 << 20]),
        }
    }
}

/// The disks of the simulated machine.  They outlive its crashes.
pub struct Rig {
    pub geo: Geometry,
    pub disks: Vec<((u64, u64), DiskRef)>,
    pub paths: Vec<PathBuf>,
    files: Vec<std::fs::File>,
    dir: PathBuf,
}

impl Rig {
    pub fn new(ctx: &Ctx, geo: &Geometry) -> Self {
        let mut r = Rig { geo: geo.clone(), disks: vec![], paths: vec![], files: vec![], dir: ctx.scratch.clone() };
        for _ in 0..geo.ndisks() { r.add_disk(geo.blocks); }
        r
    }
    pub fn add_disk(&mut self, blocks: u64) -> usize {
        let i = self.disks.len();
        let p = self.dir.join(format!("disk{i}"));
        let f = std::fs::File::create(&p).unwrap();
        f.set_len(blocks * 4096).unwrap();
        use std::os::fd::AsRawFd;
        let key = simrt::fd_key(f.as_raw_fd());
        // Keep it open, so the inode number isn't reused
        self.files.push(f);
        self.paths.push(p);
        self.disks.push((key, Rc::new(RefCell::new(Disk::new(&format!("d{i}"), blocks)))));
        i
    }
    pub fn disk(&self, i: usize) -> DiskRef { self.disks[i].1.clone() }
    pub fn crash(&self, mode: CrashMode, rng: &mut Rng) -> (u64, u64, u64) {
        let (mut k, mut l, mut t) = (0, 0, 0);
        for (_, d) in &self.disks {
            let s = d.borrow_mut().crash(mode, rng);
            k += s.kept; l += s.lost; t += s.torn;
        }
        (k, l, t)
    }
    pub fn quiesce(&self) { for (_, d) in &self.disks { d.borrow_mut().quiesce(); } }
    pub fn live_paths(&self) -> Vec<PathBuf> {
        self.paths.iter().zip(&self.disks).filter(|(_, d)| d.1.borrow().health == simrt::disk::Health::Ok)
            .map(|(p, _)| p.clone()).collect()
    }
}

pub fn crash_mode(s: &str) -> CrashMode {
    CRASH_MODES.iter().copied().find(|m| format!("{m:?}") == s).unwrap_or(CrashMode::Random)
}
pub fn pick_crash_mode(r: &mut Rng) -> String { format!("{:?}", r.pick(&CRASH_MODES)) }

/// Within the simulation: format the disks
pub fn create_pool(geo: &Geometry, paths: &[PathBuf]) -> Pool {
    let zs = NonZeroU64::new(geo.zone);
    let mut clusters = Vec::new();
    for c in 0..geo.nclusters {
        let mirrors: Vec<Mirror> = (0..geo.n).map(|i| {
            let b = (c * geo.n + i) * geo.m;
            Mirror::create(&paths[b..b + geo.m], zs).unwrap()
        }).collect();
        let r = raid::create(geo.chunksize.and_then(NonZeroU64::new), geo.k, geo.f, mirrors);
        clusters.push(Cluster::create(r));
    }
    Pool::create(POOL.to_string(), clusters)
}

pub fn create_db(geo: &Geometry, paths: &[PathBuf], cache: usize) -> database::Database {
    let pool = create_pool(geo, paths);
    let cache = Arc::new(Mutex::new(Cache::with_capacity(cache)));
    let ddml = Arc::new(DDML::create(pool, cache.clone()));
    let idml = IDML::create(ddml, cache);
    database::Database::create(Arc::new(idml))
}

pub async fn import_db(paths: &[PathBuf], sz: &Sizing) -> Result<database::Database, String> {
    let mut m = database::Manager::default();
    m.cache_size(sz.cache);
    m.writeback_size(sz.wb);
    for p in paths {
        // A disk without a label isn't an error: it's just not ours.
        let _ = m.taste(p).await;
    }
    m.import_by_name(POOL).await.map_err(|e| format!("{e:?}"))
}

/// Values the simulation hands to the harness
pub type Cell<T> = Rc<RefCell<T>>;
pub fn cell<T>(t: T) -> Cell<T> { Rc::new(RefCell::new(t)) }
