//! The simulated disk: what is durable, what is merely in the device's
//! volatile cache, what is still in flight, and the faults it suffers.

use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const BLK: usize = 4096;
pub const SECTOR: usize = 512;
pub type Page = Arc<[u8; BLK]>;

pub fn zero_page() -> Page {
    thread_local! { static Z: Page = Arc::new([0u8; BLK]); }
    Z.with(|z| z.clone())
}

/// A write that has been acknowledged (or is in flight) but not synced.
#[derive(Clone)]
pub struct Unsynced {
    /// Submission sequence number
    pub seq: u64,
    pub lba: u64,
    /// None means "erased": reads as zeros
    pub pages: Vec<Option<Page>>,
    pub complete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Health { Ok, Dead }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CrashMode {
    /// Everything the device acknowledged survives
    KeepAcked,
    /// Only what was explicitly synced survives
    LoseUnsynced,
    /// Each unsynced block independently survives or not; in-flight blocks may
    /// tear at sector granularity.
    Random,
    /// As Random, but acknowledged-unsynced blocks may tear too.
    Torn,
    /// Unsynced writes survive as a prefix of submission order
    Prefix,
}

pub const CRASH_MODES: [CrashMode; 5] = [CrashMode::KeepAcked,
    CrashMode::LoseUnsynced, CrashMode::Random, CrashMode::Torn, CrashMode::Prefix];

#[derive(Clone)]
pub struct Disk {
    pub name: String,
    pub blocks: u64,
    /// Stable contents
    pub durable: BTreeMap<u64, Page>,
    /// Current contents as seen by reads (durable + completed writes)
    pub current: BTreeMap<u64, Page>,
    pub unsynced: Vec<Unsynced>,
    pub health: Health,
    /// LBAs that return EIO when read, until rewritten
    pub bad_read: BTreeMap<u64, ()>,
    /// Percentage of reads that fail
    pub flaky: u64,
    /// Every write fails
    pub fail_writes: bool,
    /// Whether to journal every completed op (for the harness's oracles)
    pub log: Option<Vec<LogEnt>>,
    pub writes: u64,
    pub reads: u64,
    pub syncs: u64,
    pub erases: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LogKind { Read, Write, Sync, Erase }

#[derive(Clone, Debug)]
pub struct LogEnt {
    pub kind: LogKind,
    pub lba: u64,
    pub n: u64,
    pub submit_seq: u64,
    pub done_seq: u64,
    pub err: i32,
}

impl Disk {
    pub fn new(name: &str, blocks: u64) -> Self {
        Disk {
            name: name.to_owned(), blocks,
            durable: BTreeMap::new(), current: BTreeMap::new(),
            unsynced: Vec::new(), health: Health::Ok,
            bad_read: BTreeMap::new(), flaky: 0, fail_writes: false, log: None,
            writes: 0, reads: 0, syncs: 0, erases: 0
        }
    }

    pub fn read(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0u8; len];
        let lba0 = off / BLK as u64;
        debug_assert_eq!(off % BLK as u64, 0);
        for (i, c) in v.chunks_mut(BLK).enumerate() {
            if let Some(p) = self.current.get(&(lba0 + i as u64)) {
                let l = c.len();
                c.copy_from_slice(&p[..l]);
            }
        }
        v
    }

    fn put(map: &mut BTreeMap<u64, Page>, lba: u64, p: &Option<Page>) {
        match p {
            Some(p) => { map.insert(lba, p.clone()); }
            None => { map.remove(&lba); }
        }
    }

    pub fn begin_write(&mut self, seq: u64, lba: u64, pages: Vec<Option<Page>>) {
        self.unsynced.push(Unsynced { seq, lba, pages, complete: false });
    }

    pub fn complete_write(&mut self, seq: u64) {
        let u = self.unsynced.iter_mut().find(|u| u.seq == seq).unwrap();
        u.complete = true;
        for (i, p) in u.pages.iter().enumerate() {
            Self::put(&mut self.current, u.lba + i as u64, p);
            self.bad_read.remove(&(u.lba + i as u64));
        }
    }

    /// The write failed.  Its effect is indeterminate: some of it may have
    /// reached the medium.
    pub fn fail_write(&mut self, seq: u64, rng: &mut Rng) {
        let idx = self.unsynced.iter().position(|u| u.seq == seq).unwrap();
        let mut u = self.unsynced.remove(idx);
        if rng.chance(0.5) {
            // A prefix of it made it
            let n = rng.below(u.pages.len() as u64 + 1) as usize;
            u.pages.truncate(n);
            u.complete = true;
            for (i, p) in u.pages.iter().enumerate() {
                Self::put(&mut self.current, u.lba + i as u64, p);
            }
            if n > 0 {
                self.unsynced.insert(idx, u);
            }
        }
    }

    /// Every write submitted before `seq` becomes stable.
    pub fn sync(&mut self, seq: u64) {
        let mut keep = Vec::new();
        for u in std::mem::take(&mut self.unsynced) {
            if u.seq < seq && u.complete {
                for (i, p) in u.pages.iter().enumerate() {
                    Self::put(&mut self.durable, u.lba + i as u64, p);
                }
            } else {
                keep.push(u);
            }
        }
        self.unsynced = keep;
    }

    fn tear(old: Option<&Page>, new: &Option<Page>, rng: &mut Rng) -> Page {
        let z = zero_page();
        let old = old.unwrap_or(&z);
        let newp = new.as_ref().unwrap_or(&z);
        let mut b = [0u8; BLK];
        b.copy_from_slice(&old[..]);
        let prefix = rng.chance(0.5);
        let k = rng.below((BLK / SECTOR) as u64 + 1) as usize;
        for s in 0..BLK / SECTOR {
            let take = if prefix { s < k } else { rng.chance(0.5) };
            if take {
                b[s * SECTOR..(s + 1) * SECTOR]
                    .copy_from_slice(&newp[s * SECTOR..(s + 1) * SECTOR]);
            }
        }
        Arc::new(b)
    }

    /// Power loss.
    pub fn crash(&mut self, mode: CrashMode, rng: &mut Rng) -> CrashStats {
        let mut st = CrashStats::default();
        let p = *rng.pick(&[0.1, 0.5, 0.9]);
        let un = std::mem::take(&mut self.unsynced);
        let cut = rng.below(un.len() as u64 + 1) as usize;
        for (n, u) in un.iter().enumerate() {
            for (i, pg) in u.pages.iter().enumerate() {
                let lba = u.lba + i as u64;
                // (survives, torn)
                let (s, t) = match mode {
                    CrashMode::KeepAcked => if u.complete { (true, false) }
                        else { (rng.chance(0.5), rng.chance(0.3)) },
                    CrashMode::LoseUnsynced => (false, false),
                    CrashMode::Random => (rng.chance(p), !u.complete && rng.chance(0.3)),
                    CrashMode::Torn => (rng.chance(p), rng.chance(0.3)),
                    CrashMode::Prefix => (n < cut, n + 1 == cut && rng.chance(0.5)),
                };
                if t && s {
                    st.torn += 1;
                    let np = Self::tear(self.durable.get(&lba), pg, rng);
                    self.durable.insert(lba, np);
                } else if s {
                    st.kept += 1;
                    Self::put(&mut self.durable, lba, pg);
                } else {
                    st.lost += 1;
                }
            }
        }
        self.current = self.durable.clone();
        st
    }

    /// Orderly power off: everything written is stable
    pub fn quiesce(&mut self) {
        for u in std::mem::take(&mut self.unsynced) {
            if u.complete {
                for (i, p) in u.pages.iter().enumerate() {
                    Self::put(&mut self.durable, u.lba + i as u64, p);
                }
            }
        }
        self.current = self.durable.clone();
    }

    /// Silently flip bits of the block, on the medium
    pub fn rot(&mut self, lba: u64, rng: &mut Rng) -> bool {
        let Some(pg) = self.current.get(&lba) else { return false; };
        let mut b = [0u8; BLK];
        b.copy_from_slice(&pg[..]);
        match rng.below(5) {
            0 => { // one bit
                let i = rng.below(BLK as u64 * 8) as usize;
                b[i / 8] ^= 1 << (i % 8);
            }
            1 => { // a sector of garbage
                let s = rng.below((BLK / SECTOR) as u64) as usize;
                rng.fill(&mut b[s * SECTOR..(s + 1) * SECTOR]);
            }
            2 => rng.fill(&mut b[..]),
            3 => { // another block's contents
                let n = rng.below(self.current.len() as u64) as usize;
                b.copy_from_slice(&self.current.values().nth(n).unwrap()[..]);
            }
            _ => b = [0u8; BLK],
        }
        if b[..] == pg[..] {
            return false;
        }
        let np: Page = Arc::new(b);
        self.current.insert(lba, np.clone());
        self.durable.insert(lba, np);
        true
    }
}

#[derive(Default, Clone, Debug)]
pub struct CrashStats { pub kept: u64, pub lost: u64, pub torn: u64 }
