//! Boots bfffs on simulated disks, under a seeded scheduler.
#![allow(dead_code)]
pub use bfffs_core::{cache::Cache, cluster::Cluster, database::{self, Database}, ddml::DDML, fs::*,
    idml::IDML, mirror::Mirror, pool::Pool, property::*, raid};
pub use simrt::disk::{CrashMode, Disk, CRASH_MODES};
pub use simrt::rng::Rng;
pub use simrt::{Config, DiskRef, Fault, FaultAt, Outcome, RunResult};
use std::cell::RefCell;
use std::future::Future;
pub use std::ffi::{OsStr, OsString};
use std::num::NonZeroU64;
use std::path::PathBuf;
pub use std::rc::Rc;
pub use std::sync::{Arc, Mutex};

pub struct Machine {
    pub disks: Vec<((u64, u64), DiskRef)>,
    pub paths: Vec<PathBuf>,
    files: Vec<std::fs::File>,
    dir: PathBuf,
}
impl Drop for Machine { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }

impl Machine {
    pub fn new(ndisks: usize, blocks: u64) -> Self {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let base = std::env::var("DEMO_SCRATCH").expect("DEMO_SCRATCH");
        let dir = PathBuf::from(base).join(format!("m{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).unwrap();
        let mut m = Machine { disks: vec![], paths: vec![], files: vec![], dir };
        for _ in 0..ndisks { m.add_disk(blocks); }
        m
    }
    pub fn add_disk(&mut self, blocks: u64) -> usize {
        use std::os::fd::AsRawFd;
        let i = self.disks.len();
        let p = self.dir.join(format!("disk{i}"));
        let f = std::fs::File::create(&p).unwrap();
        f.set_len(blocks * 4096).unwrap();
        let key = simrt::fd_key(f.as_raw_fd());
        self.files.push(f);
        self.paths.push(p);
        self.disks.push((key, Rc::new(RefCell::new(Disk::new(&format!("d{i}"), blocks)))));
        i
    }
    /// Run one lifetime of the machine
    pub fn boot<F, M>(&self, seed: u64, cfg: impl FnOnce(&mut Config), main: M) -> RunResult
        where M: FnOnce() -> F + 'static, F: Future<Output = ()> + 'static
    {
        let mut c = Config::new(seed);
        cfg(&mut c);
        simrt::run(c, &self.disks, main)
    }
    pub fn crash(&self, mode: CrashMode, seed: u64) {
        let mut r = Rng::new(seed);
        for (_, d) in &self.disks { d.borrow_mut().crash(mode, &mut r); }
    }
    pub fn quiesce(&self) { for (_, d) in &self.disks { d.borrow_mut().quiesce(); } }
}

pub fn ok(r: &RunResult) {
    match &r.outcome {
        Outcome::Done | Outcome::Crashed => (),
        x => fail(format!("{x:?}"))
    }
}
pub fn fail(s: impl Into<String>) -> ! { println!("DEMO FAILED: {}", s.into()); std::process::exit(1) }

/// Abort the demonstration if `b` is false.  Usable inside of the simulation.
pub fn check(b: bool, s: impl FnOnce() -> String) { if !b { fail(s()) } }

/// crash at the nth I/O from now
pub fn crash_at(n: u64) {
    simrt::with(|w| { let io = w.io_count + n; w.cfg.faults.push(FaultAt { io, disk: None, fault: Fault::Crash }) });
}

/// n: mirrors, m: disks per mirror
pub fn create_db(paths: &[PathBuf], n: usize, m: usize, k: i16, f: i16, zone: u64) -> Arc<Database> {
    create_db_cs(paths, n, m, k, f, zone, None)
}
pub fn create_db_cs(paths: &[PathBuf], n: usize, m: usize, k: i16, f: i16, zone: u64, cs: Option<u64>) -> Arc<Database> {
    let zs = NonZeroU64::new(zone);
    let mirrors: Vec<Mirror> = (0..n).map(|i| Mirror::create(&paths[i * m..i * m + m], zs).unwrap()).collect();
    let pool = Pool::create("demo".into(), vec![Cluster::create(raid::create(cs.and_then(NonZeroU64::new), k, f, mirrors))]);
    let cache = Arc::new(Mutex::new(Cache::with_capacity(4 << 20)));
    let ddml = Arc::new(DDML::create(pool, cache.clone()));
    Arc::new(Database::create(Arc::new(IDML::create(ddml, cache))))
}
pub async fn import_db(paths: &[PathBuf], cache: usize, wb: usize) -> Result<Arc<Database>, String> {
    let mut m = database::Manager::default();
    m.cache_size(cache);
    m.writeback_size(wb);
    for p in paths { let _ = m.taste(p).await; }
    m.import_by_name("demo").await.map(Arc::new).map_err(|e| format!("{e:?}"))
}
pub async fn new_fs(db: &Arc<Database>) -> Arc<Fs> {
    let t = db.create_fs(None, "").await.unwrap();
    Arc::new(Fs::new(db.clone(), t).await)
}
pub async fn open_fs(db: &Arc<Database>) -> Arc<Fs> {
    let t = db.lookup_fs("").await.unwrap().1.unwrap();
    Arc::new(Fs::new(db.clone(), t).await)
}
pub async fn read_all(fs: &Fs, fd: &FileData, off: u64, len: usize) -> Vec<u8> {
    let sg = fs.read(fd, off, len).await.unwrap_or_else(|e| fail(format!("read: errno {e}")));
    let mut v = Vec::new();
    for b in sg.iter() { v.extend_from_slice(&b[..]); }
    v
}
pub async fn names(fs: &Fs, fd: &FileData, off: i64) -> Vec<(String, u64, i64)> {
    use futures::StreamExt;
    let mut v = Vec::new();
    let mut s = Box::pin(fs.readdir(fd, off));
    while let Some(d) = s.next().await {
        let d = d.unwrap_or_else(|e| fail(format!("readdir: errno {e}")));
        let n: Vec<u8> = d.d_name[..d.d_namlen as usize].iter().map(|c| *c as u8).collect();
        v.push((String::from_utf8_lossy(&n).into_owned(), d.d_fileno, d.d_off));
    }
    v
}
pub fn pattern(tag: u8, n: usize) -> Vec<u8> { (0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_le_bytes()[3] ^ tag).collect() }
