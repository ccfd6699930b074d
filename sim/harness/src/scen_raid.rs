//! The RAID layer alone, of any geometry: every address, any tolerated set of
//! lost columns, stripes in every stage of being written.
use crate::core::{Ctx, Tier};
use crate::env::*;
use crate::fsdrive::stamp;
use bfffs_core::label::LabelWriter;
use bfffs_core::mirror::Mirror;
use bfffs_core::raid::{self, RaidImpl, VdevRaidApi};
use bfffs_core::types::{LbaT, TxgT, ZoneT};
use bfffs_core::vdev::Vdev;
use divbuf::DivBufShared;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::disk::Health;
use simrt::rng::Rng;
use simrt::Outcome;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU64;
use std::path::PathBuf;
use std::rc::Rc;

const BS: usize = 4096;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum ROp {
    /// Write bytes to the open zone, opening one if needed
    Write(u32, bool),
    Flush(bool), Finish, Erase(u32),
    /// Where and how much
    Read(u32, u32), Long(u32, u32),
    Sync, Space(u32), Sleep(u32), Crash,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RFault { Die, Flaky(u64), Bad(u32), Fault, Rot(u32) }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct REpoch {
    pub clients: Vec<Vec<ROp>>,
    /// At this many ms, to this mirror
    #[serde(default)]
    pub events: Vec<(u32, usize, RFault)>,
    /// Mirrors that don't come back after this epoch
    #[serde(default)]
    pub lose: Vec<usize>,
    /// The power fails at the end
    #[serde(default)]
    pub crash: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RPlan { pub seed: u64, pub geo: Geometry, pub sched: SchedCfg, pub epochs: Vec<REpoch>, #[serde(default)] pub writefail: bool }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Z { Open, Closed }

/// What is known of the contents, in and out of the simulation
#[derive(Default)]
struct St {
    /// Written data by LBA
    data: BTreeMap<LbaT, Box<[u8]>>,
    /// LBAs whose write has finished
    acked: BTreeSet<LbaT>,
    /// Next LBA of each zone in use, and its state
    zones: BTreeMap<ZoneT, (Z, LbaT)>,
    /// As of the last sync, if none was erased since
    durable: BTreeMap<ZoneT, (Z, LbaT)>,
    durable_acked: BTreeSet<LbaT>,
    /// Each of the spacemaps
    spacemap: [Option<Vec<u8>>; 2],
    limits: Vec<(LbaT, LbaT)>,
    uuid: Option<bfffs_core::types::Uuid>,
    nextsync: u32,
    gen: u64,
    /// Mirrors whose disks can't be read
    gone: BTreeSet<usize>,
    /// Those that may contain garbage
    rotten: BTreeSet<usize>,
    fail: Option<(String, String)>,
    probes: BTreeMap<&'static str, u64>,
    refused: bool,
    nops: u64,
}

struct Sys {
    v: RefCell<RaidImpl>,
    st: Rc<RefCell<St>>,
    rng: RefCell<Rng>,
    f: usize, m: usize, k: usize,
    /// Writes in flight, and a sync in progress
    busy: RefCell<usize>,
    syncing: RefCell<bool>,
    /// Reads and writes in flight by zone
    inzone: RefCell<BTreeMap<ZoneT, usize>>,
    /// Zones taken by each client
    mine: RefCell<BTreeMap<usize, ZoneT>>,
    finishing: RefCell<BTreeSet<ZoneT>>,
}

fn page(rng: &mut Rng) -> Box<[u8]> {
    let mut b = vec![0u8; BS].into_boxed_slice();
    match rng.below(8) { 0 => (), 1 => b[rng.below(BS as u64) as usize] = 1, _ => { rng.fill(&mut b[..64]); for i in 64..BS { b[i] = b[i - 64].wrapping_mul(5).wrapping_add(i as u8); } } }
    b
}

impl Sys {
    fn fail(&self, k: &str, m: String) { let mut s = self.st.borrow_mut(); if s.fail.is_none() { s.fail = Some((k.into(), m)); } }
    fn failed(&self) -> bool { self.st.borrow().fail.is_some() }
    fn probe(&self, k: &'static str) { *self.st.borrow_mut().probes.entry(k).or_default() += 1; }
    /// More can't be read than can be tolerated?  (can't happen)
    fn unsafe_(&self) -> bool { let s = self.st.borrow(); s.gone.union(&s.rotten).count() > self.f }
    fn impaired(&self) -> bool { !self.st.borrow().gone.is_empty() }

    async fn enter(self: &Rc<Self>) {
        while *self.syncing.borrow() { simrt::sleep_ns(200_000).await; }
        *self.busy.borrow_mut() += 1;
    }
    fn leave(&self) { *self.busy.borrow_mut() -= 1; }
    fn hold(&self, z: ZoneT) { *self.inzone.borrow_mut().entry(z).or_default() += 1; }
    fn release(&self, z: ZoneT) { *self.inzone.borrow_mut().get_mut(&z).unwrap() -= 1; }

    async fn write(self: &Rc<Self>, id: usize, bytes: usize, wait: bool) {
        self.enter().await;
        let mine = self.mine.borrow().get(&id).copied();
        let mut opening = None;
        let z = match mine {
            Some(z) => z,
            None => {
                let free: Vec<ZoneT> = { let s = self.st.borrow(); (0..s.limits.len() as ZoneT).filter(|z| !s.zones.contains_key(z) && !self.finishing.borrow().contains(z) && s.limits[*z as usize].0 < s.limits[*z as usize].1).collect() };
                if free.is_empty() { self.leave(); return; }
                let z = free[self.rng.borrow_mut().below(free.len() as u64) as usize];
                let start = self.st.borrow().limits[z as usize].0;
                self.st.borrow_mut().zones.insert(z, (Z::Open, start));
                self.mine.borrow_mut().insert(id, z);
                opening = Some(self.v.borrow().open_zone(z));
                self.probe("open_zone");
                z
            }
        };
        let (lba, end) = { let s = self.st.borrow(); (s.zones[&z].1, s.limits[z as usize].1) };
        let bytes = bytes.min((end - lba) as usize * BS);
        if bytes == 0 {
            // The zone is full
            self.leave();
            self.finish(id, wait).await;
            return;
        }
        let n = bytes.div_ceil(BS) as LbaT;
        let mut buf = Vec::with_capacity(bytes);
        {
            let mut s = self.st.borrow_mut();
            for i in 0..n {
                let mut p = page(&mut self.rng.borrow_mut());
                let have = (bytes - i as usize * BS).min(BS);
                p[have..].fill(0);
                buf.extend_from_slice(&p[..have]);
                s.data.insert(lba + i, p);
                s.acked.remove(&(lba + i));
            }
            s.zones.get_mut(&z).unwrap().1 += n;
        }
        let dbs = DivBufShared::from(buf);
        let fut = self.v.borrow().write_at(dbs.try_const().unwrap(), z, lba);
        self.hold(z);
        let s = self.clone();
        let todo = async move {
            let _dbs = dbs;
            let mut r = Ok(());
            if let Some(o) = opening { r = o.await; }
            if r.is_ok() { r = fut.await; }
            match r {
                Ok(()) => { let mut st = s.st.borrow_mut(); for i in 0..n { st.acked.insert(lba + i); } }
                Err(e) => if !s.impaired() { s.fail("errno", format!("writing {bytes} bytes at LBA {lba} of zone {z}: {e:?}")) }
            }
            s.release(z);
            s.leave();
        };
        if wait { todo.await } else { simrt::spawn(todo); }
    }

    /// Flush the client's zone, while others write
    async fn flush(self: &Rc<Self>, id: usize, wait: bool) {
        let Some(z) = self.mine.borrow().get(&id).copied() else { return };
        self.enter().await;
        let (fut, at, n) = self.flush_zone(z);
        self.hold(z);
        let s = self.clone();
        let todo = async move { s.flushed(fut.await, z, at, n); s.release(z); s.leave(); };
        if wait { todo.await } else { simrt::spawn(todo); }
    }
    fn flush_zone(&self, z: ZoneT) -> (bfffs_core::vdev::BoxVdevFut, LbaT, LbaT) {
        let (n, fut) = self.v.borrow().flush_zone(z);
        let mut s = self.st.borrow_mut();
        let at = s.zones[&z].1;
        for i in 0..n { s.data.insert(at + i, vec![0; BS].into()); s.acked.remove(&(at + i)); }
        s.zones.get_mut(&z).unwrap().1 += n;
        if n > 0 { *s.probes.entry("padded_flush").or_default() += 1; }
        (fut, at, n)
    }
    fn flushed(&self, r: Result<(), bfffs_core::Error>, z: ZoneT, at: LbaT, n: LbaT) {
        match r {
            Ok(()) => { let mut st = self.st.borrow_mut(); for i in 0..n { st.acked.insert(at + i); } }
            Err(e) => if !self.impaired() { self.fail("errno", format!("flushing zone {z}: {e:?}")) }
        }
    }

    async fn finish(self: &Rc<Self>, id: usize, wait: bool) {
        let Some(z) = self.mine.borrow_mut().remove(&id) else { return };
        self.enter().await;
        let fut = self.v.borrow().finish_zone(z);
        self.st.borrow_mut().zones.get_mut(&z).unwrap().0 = Z::Closed;
        self.finishing.borrow_mut().insert(z);
        self.probe("finish_zone");
        let s = self.clone();
        let todo = async move {
            if let Err(e) = fut.await { if !s.impaired() { s.fail("errno", format!("finishing zone {z}: {e:?}")) } }
            s.finishing.borrow_mut().remove(&z);
            s.leave();
        };
        if wait { todo.await } else { simrt::spawn(todo); }
    }

    /// Erase a closed zone that nobody uses
    async fn erase(self: &Rc<Self>, pick: u32) {
        self.enter().await;
        let idle: Vec<ZoneT> = self.st.borrow().zones.iter().filter(|(z, s)| s.0 == Z::Closed && !self.finishing.borrow().contains(z)
            && self.inzone.borrow().get(z).copied().unwrap_or(0) == 0).map(|(z, _)| *z).collect();
        if let Some(z) = idle.get(pick as usize % idle.len().max(1)).copied() {
            let (a, b) = self.st.borrow().limits[z as usize];
            {
                let mut s = self.st.borrow_mut();
                s.durable.remove(&z);
                let gone: Vec<LbaT> = s.data.range(a..b).map(|x| *x.0).collect();
                for l in gone { s.data.remove(&l); s.acked.remove(&l); }
                s.zones.remove(&z);
            }
            self.finishing.borrow_mut().insert(z);
            let fut = self.v.borrow().erase_zone(z);
            if let Err(e) = fut.await { if !self.impaired() { self.fail("errno", format!("erasing zone {z}: {e:?}")) } }
            self.finishing.borrow_mut().remove(&z);
            self.probe("erase_zone");
        }
        self.leave();
    }

    /// A range of readable LBAs
    fn choose(&self, at: u32, len: u32) -> Option<(ZoneT, LbaT, LbaT)> {
        let s = self.st.borrow();
        if s.acked.is_empty() { return None; }
        // Favour what was just written
        let zs: Vec<_> = s.zones.iter().collect();
        let (z, (_, next)) = zs[at as usize % zs.len()];
        let lo = s.limits[*z as usize].0;
        if *next == lo { return None; }
        let span = *next - lo;
        let h = at as u64 / 7;
        let from = match h % 4 { 0 => lo + h / 4 % span, 1 => next.saturating_sub(1 + h / 4 % 40).max(lo), 2 => { let st = self.stripe(); (lo + h / 4 % span) / st * st }, _ => lo + (h / 4 * 31) % span };
        let a = *s.acked.range(from.max(lo)..*next).next()?;
        let mut b = a + 1;
        while b < *next && b - a < len as u64 && s.acked.contains(&b) { b += 1; }
        Some((*z, a, b - a))
    }
    fn stripe(&self) -> LbaT { self.chunk() * self.m as LbaT }
    fn chunk(&self) -> LbaT { CHUNK.with(|c| *c.borrow()) }
    fn want(&self, lba: LbaT, n: LbaT) -> Vec<u8> {
        let s = self.st.borrow();
        (0..n).flat_map(|i| s.data[&(lba + i)].to_vec()).collect()
    }
    fn differs(&self, got: &[u8], want: &[u8], lba: LbaT) -> String {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
        format!("byte {} of LBA {} is {:#x}, not {:#x}", i % BS, lba + (i / BS) as LbaT, got[i], want[i])
    }

    async fn read(self: &Rc<Self>, at: u32, len: u32) {
        let Some((z, lba, n)) = self.choose(at, len) else { return };
        self.read_range(z, lba, n).await
    }
    async fn read_range(self: &Rc<Self>, z: ZoneT, lba: LbaT, n: LbaT) {
        self.hold(z);
        let want = self.want(lba, n);
        let start = stamp();
        let dbs = DivBufShared::from(vec![0xa5u8; want.len()]);
        let fut = self.v.borrow().read_at(dbs.try_mut().unwrap(), lba);
        let r = fut.await;
        let rotten = !self.st.borrow().rotten.is_empty();
        if !self.unsafe_() {
            match r {
                Ok(()) => {
                    let got = dbs.try_const().unwrap();
                    if got[..] != want[..] {
                        if rotten {
                            drop(got);
                            // It doesn't look at what isn't on disk yet
                            let next = self.st.borrow().zones[&z].1;
                            let spare = self.st.borrow().gone.len() < self.f;
                            if *self.busy.borrow() == 0 && lba + n <= next / self.stripe() * self.stripe() && spare && n <= 2 * self.stripe() { self.enter().await; self.long_range(lba, n, &want).await; self.leave(); }
                        }
                        else { self.fail("wrong_data", format!("reading {n} blocks at LBA {lba} of zone {z} since #{start}: {}", self.differs(&got, &want, lba))); }
                    }
                }
                Err(e) => self.fail("errno", format!("reading {n} blocks at LBA {lba} of zone {z}: {e:?}")),
            }
            self.probe(if self.impaired() { "degraded_read" } else { "read" });
            if n > self.stripe() { self.probe("multi_read"); }
        }
        self.release(z);
    }
    /// One of the reconstructions must be right
    async fn long_range(&self, lba: LbaT, n: LbaT, want: &[u8]) {
        // With none to spare, it's allowed to refuse
        if self.st.borrow().gone.len() >= self.f { return; }
        let fut = self.v.borrow().read_long(n, lba);
        match fut.await {
            Err(e) => self.fail("errno", format!("reconstructing {n} blocks at LBA {lba}: {e:?}")),
            Ok(it) => {
                let mut count = 0;
                for (i, dbs) in it.enumerate() {
                    count += 1;
                    let got = dbs.try_const().unwrap();
                    if got.len() != want.len() { self.fail("read_long", format!("reconstructing {n} blocks at LBA {lba} returned {} bytes", got.len())); return; }
                    if got[..] == *want { self.probe("reconstructed"); return; }
                    drop(got);
                    if i > 4000 { return; }
                }
                self.fail("read_long", format!("none of {count} reconstructions of {n} blocks at LBA {lba} is right"));
            }
        }
    }
    /// Deliberately consider all combinations
    async fn long(self: &Rc<Self>, at: u32, len: u32) {
        let Some((z, lba, n)) = self.choose(at, len) else { return };
        if self.f == 0 || self.unsafe_() { return; }
        // Only of whole stripes that were flushed
        let next = self.st.borrow().zones[&z].1;
        let st = self.stripe();
        let limit = next / st * st;
        if lba >= limit || *self.busy.borrow() > 0 { return; }
        let n = n.min(limit - lba).min(st * 2);
        // With none to spare, it's allowed to refuse
        if self.st.borrow().gone.len() >= self.f { return; }
        self.hold(z);
        self.enter().await;
        let want = self.want(lba, n);
        let d = DivBufShared::from(vec![0u8; 1]);
        drop(d);
        self.long_range(lba, n, &want).await;
        self.leave();
        self.release(z);
    }

    async fn space(&self, len: u32) {
        let _ = len;
        for idx in 0..2 {
            let want = self.st.borrow().spacemap[idx].clone();
            if let Some(w) = want {
                let dbs = DivBufShared::from(vec![0u8; w.len()]);
                let fut = self.v.borrow().read_spacemap(dbs.try_mut().unwrap(), idx as u32);
                let r = fut.await;
                // It has no redundancy other than copies
                if !self.st.borrow().rotten.is_empty() || self.st.borrow().spacemap[idx].as_ref() != Some(&w) { continue; }
                match r {
                    Ok(()) => if dbs.try_const().unwrap()[..] != w[..] { self.fail("spacemap", format!("spacemap {idx} isn't what was written")) },
                    Err(e) => if !self.unsafe_() { self.fail("errno", format!("reading spacemap {idx}: {e:?}")) },
                }
                self.probe("read_spacemap");
            }
        }
    }

    async fn sync(self: &Rc<Self>) {
        while *self.syncing.borrow() { simrt::sleep_ns(200_000).await; }
        *self.syncing.borrow_mut() = true;
        while *self.busy.borrow() > 0 { simrt::sleep_ns(200_000).await; }
        self.sync_locked().await;
        *self.syncing.borrow_mut() = false;
    }
    async fn sync_locked(self: &Rc<Self>) {
        let open: Vec<ZoneT> = self.st.borrow().zones.iter().filter(|(_, s)| s.0 == Z::Open).map(|(z, _)| *z).collect();
        let mut ok = true;
        let mut futs = vec![];
        for z in open { let (f, at, n) = self.flush_zone(z); futs.push((f, z, at, n)); }
        for (f, z, at, n) in futs { let r = f.await; ok &= r.is_ok(); self.flushed(r, z, at, n); }
        let idx = self.st.borrow().nextsync;
        // The spacemap first, then the label
        let gen = { let mut s = self.st.borrow_mut(); s.gen += 1; s.gen };
        let mut sm = vec![0u8; BS];
        Rng::new(gen).fill(&mut sm);
        self.st.borrow_mut().spacemap[idx as usize] = None;
        let dbs = DivBufShared::from(sm.clone());
        let f = self.v.borrow().write_spacemap(vec![dbs.try_const().unwrap()], idx, 0);
        ok &= f.await.is_ok();
        let f = self.v.borrow().sync_all(None);
        ok &= f.await.is_ok();
        let f = self.v.borrow().write_label(LabelWriter::new(idx), TxgT::from(gen as u32));
        ok &= f.await.is_ok();
        let f = self.v.borrow().sync_all(None);
        ok &= f.await.is_ok();
        if ok {
            let mut s = self.st.borrow_mut();
            s.spacemap[idx as usize] = Some(sm);
            s.nextsync = 1 - idx;
            s.durable = s.zones.clone();
            s.durable_acked = s.acked.clone();
            *s.probes.entry("sync").or_default() += 1;
        } else if !self.impaired() {
            self.fail("errno", "sync failed, though all of the disks work".into());
        }
    }

    async fn op(self: &Rc<Self>, id: usize, op: ROp) {
        self.st.borrow_mut().nops += 1;
        match op {
            ROp::Write(n, w) => self.write(id, n as usize, w).await,
            ROp::Flush(w) => self.flush(id, w).await,
            ROp::Finish => self.finish(id, true).await,
            ROp::Erase(p) => self.erase(p).await,
            ROp::Read(a, n) => self.read(a, n).await,
            ROp::Long(a, n) => self.long(a, n).await,
            ROp::Sync => self.sync().await,
            ROp::Space(n) => self.space(n).await,
            ROp::Sleep(ms) => simrt::sleep_ns(ms as u64 * 1_000_000).await,
            ROp::Crash => { simrt::with(|w| { w.fault_fired("crash"); w.crash() }); simrt::yield_now().await; }
        }
    }

    /// Everything that was written, once it's quiet
    async fn verify(self: &Rc<Self>) {
        let zones: Vec<_> = { let s = self.st.borrow(); s.zones.iter().map(|(z, (_, n))| (*z, s.limits[*z as usize].0, *n)).collect() };
        for (z, lo, next) in zones {
            let mut at = lo;
            while at < next && !self.failed() {
                let len = 1 + self.rng.borrow_mut().below(self.stripe() * 3);
                let mut n = 0;
                { let s = self.st.borrow(); while at + n < next && n < len && s.acked.contains(&(at + n)) { n += 1; } }
                if n == 0 { at += 1; continue; }
                self.read_range(z, at, n).await;
                at += n;
            }
        }
    }
    /// Disks refuse to write, for good.  Stripes that can still be read have
    /// been written; those that can't have not.
    async fn writefail(self: &Rc<Self>, disks: &[Vec<simrt::DiskRef>], seed: u64, n: usize) {
        let mut r = Rng::stream(seed, "writefail");
        let stripe = self.stripe();
        let mut zs: Vec<ZoneT> = self.mine.borrow().values().copied().collect();
        for _ in 0..3 {
            let free: Vec<ZoneT> = { let s = self.st.borrow(); (0..s.limits.len() as ZoneT).filter(|z| !s.zones.contains_key(z) && s.limits[*z as usize].0 < s.limits[*z as usize].1).collect() };
            if free.is_empty() { break; }
            let z = *r.pick(&free);
            let start = self.st.borrow().limits[z as usize].0;
            self.st.borrow_mut().zones.insert(z, (Z::Open, start));
            let fut = self.v.borrow().open_zone(z);
            if let Err(e) = fut.await { if !self.impaired() { self.fail("errno", format!("opening zone {z}: {e:?}")); } return; }
            zs.push(z);
        }
        let refuse = |set: &[usize], r: &mut Rng, all: bool| { for mi in set {
            // A disk that has missed something isn't written to at all
            let one = r.below(disks[*mi].len() as u64) as usize;
            for (i, d) in disks[*mi].iter().enumerate() { if all || i == one { d.borrow_mut().fail_writes = true; } }
        } };
        let subset = |r: &mut Rng, from: &mut Vec<usize>, n: usize| -> Vec<usize> { (0..n).map(|_| { let i = r.below(from.len() as u64) as usize; from.swap_remove(i) }).collect() };
        let bad: BTreeSet<usize> = { let s = self.st.borrow(); s.gone.union(&s.rotten).copied().collect() };
        if bad.len() < self.f {
            let Some(z) = zs.pop() else { return };
            let mut from: Vec<usize> = (0..n).filter(|m| !bad.contains(m)).collect();
            let k = r.range(1, (self.f - bad.len()) as u64) as usize;
            let set = subset(&mut r, &mut from, k);
            refuse(&set, &mut r, false);
            let at = self.st.borrow().zones[&z].1;
            for _ in 0..r.range(1, 3) {
                let (lba, end) = { let s = self.st.borrow(); (s.zones[&z].1, s.limits[z as usize].1) };
                let len = r.range(1, stripe * 3).min(end - lba);
                if len == 0 { break; }
                if let Err(e) = self.put(z, len).await { return self.fail("errno", format!("writing {len} blocks at LBA {lba} of zone {z}, while {k} disks refuse: {e:?}")); }
            }
            let (fut, pos, pad) = self.flush_zone(z);
            if let Err(e) = fut.await { return self.fail("errno", format!("flushing zone {z}, while {k} disks refuse: {e:?}")); }
            { let mut s = self.st.borrow_mut(); for i in 0..pad { s.acked.insert(pos + i); } }
            for mi in &set { self.st.borrow_mut().gone.insert(*mi); for d in &disks[*mi] { d.borrow_mut().health = Health::Dead; } }
            let next = self.st.borrow().zones[&z].1;
            if next > at { self.read_range(z, at, next - at).await; }
            self.probe("refused_some_writes");
        }
        // So many that no stripe has enough columns
        let mut from: Vec<usize> = (0..n).collect();
        let k = r.range((n - self.m + 1) as u64, n as u64) as usize;
        let set = subset(&mut r, &mut from, k);
        // Of what's buffered now, nothing can be written later
        let how: Vec<u64> = zs.iter().map(|_| r.below(4)).collect();
        for (z, how) in zs.iter().zip(&how) {
            let (lba, lo, end) = { let s = self.st.borrow(); (s.zones[z].1, s.limits[*z as usize].0, s.limits[*z as usize].1) };
            let left = stripe - (lba - lo) % stripe;
            if *how < 2 && stripe > 1 && left > 1 && end - lba >= left { let len = r.range(1, left - 1); if let Err(e) = self.put(*z, len).await { if !self.impaired() { self.fail("errno", format!("writing {len} blocks at LBA {lba} of zone {z}: {e:?}")); } return; } }
        }
        refuse(&set, &mut r, true);
        for (z, how) in zs.iter().zip(&how) {
            let (lba, lo, end) = { let s = self.st.borrow(); (s.zones[z].1, s.limits[*z as usize].0, s.limits[*z as usize].1) };
            let part = (lba - lo) % stripe;
            let (what, res) = match how {
                0 if part > 0 => { let (_, fut) = self.v.borrow().flush_zone(*z); ("flushing".to_string(), fut.await) }
                1 if part > 0 => { let fut = self.v.borrow().finish_zone(*z); ("finishing".to_string(), fut.await) }
                _ => {
                    let len = stripe - part + r.below(3) * stripe + r.below(stripe);
                    if lba + len > end { continue; }
                    (format!("writing {len} blocks at LBA {lba} of"), self.put(*z, len).await)
                }
            };
            self.probe("refused_writes");
            if res.is_ok() { return self.fail("lost_write", format!("{what} zone {z} succeeded, though {k} disks of {n} refused to write")); }
        }
    }
    async fn put(self: &Rc<Self>, z: ZoneT, len: LbaT) -> Result<(), bfffs_core::Error> {
        let lba = self.st.borrow().zones[&z].1;
        let mut buf = vec![];
        for i in 0..len { let p = page(&mut self.rng.borrow_mut()); buf.extend_from_slice(&p); let mut s = self.st.borrow_mut(); s.data.insert(lba + i, p); s.acked.remove(&(lba + i)); }
        let dbs = DivBufShared::from(buf);
        let fut = self.v.borrow().write_at(dbs.try_const().unwrap(), z, lba);
        fut.await?;
        let mut s = self.st.borrow_mut();
        for i in 0..len { s.acked.insert(lba + i); }
        s.zones.get_mut(&z).unwrap().1 += len;
        Ok(())
    }

    /// The layout of the zones must never change
    fn layout(&self) {
        let v = self.v.borrow();
        let limits: Vec<_> = (0..v.zones()).map(|z| v.zone_limits(z)).collect();
        let mut prev = 0;
        for (z, (a, b)) in limits.iter().enumerate() {
            if a > b || *a < prev { return self.fail("layout", format!("zone {z} is {a}..{b}, but the previous one ends at {prev}")); }
            prev = *b;
        }
        let mut s = self.st.borrow_mut();
        if s.limits.is_empty() { s.limits = limits.clone(); }
        if s.limits != limits { let m = format!("the zones were {:?}, and now are {limits:?}", s.limits); drop(s); return self.fail("layout", m); }
        drop(s);
        let size = v.size();
        for (z, (a, b)) in limits.iter().enumerate() {
            if a == b { continue; }
            let mut r = self.rng.borrow_mut();
            for l in [*a, b - 1, a + r.below(b - a), a + r.below(b - a)] {
                if v.lba2zone(l) != Some(z as ZoneT) { return self.fail("layout", format!("LBA {l} is in zone {z} ({a}..{b}), not in {:?}", v.lba2zone(l))); }
            }
        }
        for w in limits.windows(2) {
            for l in [w[0].1, w[1].0.saturating_sub(1)] {
                if l >= w[0].1 && l < w[1].0 && l < size && v.lba2zone(l).is_some() { return self.fail("layout", format!("LBA {l} is between zones, but is said to be in {:?}", v.lba2zone(l))); }
            }
        }
    }
}

thread_local! { static CHUNK: RefCell<LbaT> = const { RefCell::new(1) }; }

async fn lifetime(p: RPlan, i: usize, paths: Vec<PathBuf>, here: Vec<usize>, disks: Vec<Vec<simrt::DiskRef>>, st: Rc<RefCell<St>>) {
    let e = p.epochs[i].clone();
    let fail = |k: &str, m: String| { let mut s = st.borrow_mut(); if s.fail.is_none() { s.fail = Some((k.into(), m)); } };
    let known = st.borrow().uuid;
    let vdev = match known {
        None => {
            let zs = NonZeroU64::new(p.geo.zone);
            let mirrors: Vec<Mirror> = (0..p.geo.n).map(|i| Mirror::create(&paths[i * p.geo.m..(i + 1) * p.geo.m], zs).unwrap()).collect();
            let n = p.geo.n;
            let mk = || raid::create(p.geo.chunksize.and_then(NonZeroU64::new), p.geo.k, p.geo.f, mirrors);
            // Any number of disks may be refused, if it isn't a prime one.
            let v = if n == 1 || (2..n).all(|i| n % i != 0) { mk() } else {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(mk)) {
                    Ok(v) => v,
                    Err(_) => { let _ = simrt::take_panic(); st.borrow_mut().refused = true; return; }
                }
            };
            // Some geometries don't fit in small zones
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for z in 0..v.zones() { v.zone_limits(z); })).is_err() {
                let _ = simrt::take_panic();
                st.borrow_mut().refused = true;
                return;
            }
            v
        }
        Some(uuid) => {
            let mut m = raid::Manager::default();
            let mut order = here.clone();
            { let mut r = Rng::stream(p.seed, &format!("order{i}")); for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize); } }
            for d in order { if let Err(x) = m.taste(&paths[d]).await { fail("label", format!("epoch {i}: disk {d} isn't recognised: {x:?}")); return; } }
            match m.import(uuid).await {
                Ok((v, _)) => v,
                Err(x) => { fail("label", format!("epoch {i}: cannot import: {x:?}")); return; }
            }
        }
    };
    CHUNK.with(|c| *c.borrow_mut() = if p.geo.n == 1 { 1 } else { p.geo.chunksize.unwrap_or(16) });
    let s = Rc::new(Sys {
        v: RefCell::new(vdev), st: st.clone(), rng: RefCell::new(Rng::stream(p.seed, &format!("data{i}"))), f: p.geo.f as usize, m: (p.geo.k - p.geo.f) as usize, k: p.geo.k as usize,
        busy: Default::default(), syncing: Default::default(), inzone: Default::default(), mine: Default::default(), finishing: Default::default() });
    let _ = s.k;
    s.layout();
    if s.failed() { return; }
    if known.is_none() {
        // Nothing is promised until it's formatted
        let uuid = s.v.borrow().uuid();
        s.sync_locked().await;
        s.sync_locked().await;
        if s.failed() { return; }
        st.borrow_mut().uuid = Some(uuid);
    } else {
        // As the cluster does, from its spacemap
        let zones = st.borrow().zones.clone();
        let mut id = 0;
        for (z, (state, next)) in zones {
            if state == Z::Open {
                let lo = st.borrow().limits[z as usize].0;
                let fut = s.v.borrow().reopen_zone(z, next - lo);
                if let Err(x) = fut.await { if !s.impaired() { fail("errno", format!("reopening zone {z}: {x:?}")); return; } }
                s.mine.borrow_mut().insert(id, z);
                s.probe("reopen_zone");
                id += 1;
            }
        }
        s.space(0).await;
        s.verify().await;
        if i + 1 == p.epochs.len() {
            if !s.failed() && p.writefail { s.writefail(&disks, p.seed, p.geo.n).await; }
            return;
        }
    }
    // Too many clients may have been writing before
    let nc = e.clients.len();
    let extra: Vec<usize> = s.mine.borrow().keys().copied().filter(|id| *id >= nc).collect();
    for id in extra { s.finish(id, true).await; }
    for (ms, mi, what) in e.events.iter().cloned() {
        let (s, dd, seed) = (s.clone(), disks[mi].clone(), p.seed);
        simrt::spawn(async move {
            simrt::sleep_ns(ms as u64 * 1_000_000).await;
            if s.f == 0 { return; }
            let bad: BTreeSet<usize> = { let st = s.st.borrow(); st.gone.union(&st.rotten).copied().collect() };
            if !bad.contains(&mi) && bad.len() >= s.f { return; }
            let mut r = Rng::stream(seed, &format!("event{ms}.{mi}"));
            match what {
                RFault::Die => { s.st.borrow_mut().gone.insert(mi); for d in &dd { d.borrow_mut().health = Health::Dead; } simrt::with(|w| w.fault_fired("die")); }
                RFault::Flaky(pc) => { s.st.borrow_mut().gone.insert(mi); for d in &dd { d.borrow_mut().flaky = pc; } }
                RFault::Bad(n) => {
                    s.st.borrow_mut().gone.insert(mi);
                    for d in &dd { let mut d = d.borrow_mut(); let used: Vec<u64> = d.current.keys().copied().filter(|l| *l > 32).collect();
                        if !used.is_empty() { for _ in 0..n { let l = used[r.below(used.len() as u64) as usize]; d.bad_read.insert(l, ()); } } }
                }
                RFault::Rot(n) => {
                    s.st.borrow_mut().rotten.insert(mi);
                    let mut hit = 0;
                    for d in &dd { let mut d = d.borrow_mut(); let used: Vec<u64> = d.current.keys().copied().filter(|l| *l > 32).collect();
                        if !used.is_empty() { for _ in 0..n { let l = used[r.below(used.len() as u64) as usize]; if d.rot(l, &mut r) { hit += 1; } } } }
                    if hit > 0 { simrt::with(|w| w.fault_fired("rot")); }
                }
                RFault::Fault => {
                    // From now on, it misses writes
                    s.st.borrow_mut().gone.insert(mi);
                    for _ in 0..200 {
                        let uuid = s.v.borrow().status().mirrors[mi].uuid;
                        let r = s.v.borrow_mut().fault(uuid);
                        match r {
                            Ok(()) => { s.probe("faulted"); return; }
                            Err(bfffs_core::Error::EAGAIN) => simrt::sleep_ns(3_000_000).await,
                            Err(x) => { s.fail("errno", format!("cannot fault: {x:?}")); return; }
                        }
                    }
                }
            }
        });
    }
    let left = cell(nc);
    for (id, ops) in e.clients.iter().cloned().enumerate() {
        let (s, left) = (s.clone(), left.clone());
        simrt::spawn(async move {
            for op in ops { s.op(id, op).await; if s.failed() { break; } }
            *left.borrow_mut() -= 1;
        });
    }
    while *left.borrow() > 0 || *s.busy.borrow() > 0 { simrt::sleep_ns(1_000_000).await; }
    if s.failed() { return; }
    s.verify().await;
    if s.failed() { return; }
    if e.crash.is_none() {
        s.sync_locked().await;
        if s.failed() { return; }
        s.verify().await;
        s.space(0).await;
    }
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: RPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    let rig = Rig::new(ctx, &p.geo);
    let st: Rc<RefCell<St>> = Default::default();
    let m = p.geo.m;
    let mut lost: BTreeSet<usize> = BTreeSet::new();
    for (i, e) in p.epochs.iter().enumerate() {
        let mut cfg = p.sched.config(p.seed, &format!("raid{i}"));
        cfg.trace = ctx.trace;
        let here: Vec<usize> = (0..p.geo.ndisks()).filter(|d| !lost.contains(&(d / m))).collect();
        let disks: Vec<Vec<simrt::DiskRef>> = (0..p.geo.n).map(|mi| (mi * m..(mi + 1) * m).map(|d| rig.disk(d)).collect()).collect();
        let (p2, paths, s2) = (p.clone(), rig.paths.clone(), st.clone());
        let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, i, paths, here, disks, s2).await });
        ctx.rep.absorb(&r);
        if st.borrow().refused { ctx.rep.probe("refused"); break; }
        let crashed = matches!(r.outcome, Outcome::Crashed);
        if let Some((k, m)) = st.borrow_mut().fail.take() { ctx.rep.fail(&k, m); }
        ctx.rep.judge(&r, &format!("epoch {i}"));
        if ctx.rep.failed() || st.borrow().uuid.is_none() { break; }
        let mut s = st.borrow_mut();
        // Whatever couldn't be reached has missed writes
        let away: Vec<usize> = s.gone.iter().copied().collect();
        lost.extend(away);
        for mi in &e.lose {
            let mut all: BTreeSet<usize> = lost.union(&s.rotten).copied().collect();
            all.insert(*mi);
            if all.len() <= p.geo.f as usize { lost.insert(*mi); }
        }
        s.gone = lost.clone();
        let mut rng = Rng::stream(p.seed, &format!("crash{i}"));
        if crashed || e.crash.is_some() {
            rig.crash(crash_mode(e.crash.as_deref().unwrap_or("Random")), &mut rng);
            s.probes.entry("power_failure").and_modify(|n| *n += 1).or_insert(1);
        } else { rig.quiesce(); }
        // What's left is what was synced
        let d = s.durable.clone();
        s.zones = d;
        let mut keep = BTreeSet::new();
        for (z, (_, next)) in &s.zones { keep.extend(s.limits[*z as usize].0..*next); }
        s.data.retain(|l, _| keep.contains(l));
        // Some writes may have failed
        let da = std::mem::take(&mut s.durable_acked);
        s.acked = s.data.keys().copied().filter(|l| da.contains(l)).collect();
        s.durable_acked = s.acked.clone();
    }
    let s = st.borrow();
    for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
    ctx.rep.probe_n("ops", s.nops);
    {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (p.geo.n, p.geo.k, p.geo.f, p.geo.chunksize, p.geo.zone, &s.zones, &s.gone).hash(&mut h);
        ctx.rep.sigs.push(h.finish());
    }
    if s.nops > 0 && !s.refused { ctx.rep.nontrivial = true; }
}

// -------------------------------------------------------------- generation

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let n = *r.pick(&[1usize, 2, 3, 3, 5, 5, 5, 7, 7, 7, 11, 11, 13, 17, 19, 23]);
    // Many disks, and large ones
    let n = if r.chance(0.03) { *r.pick(&[29usize, 31, 37, 53, 101, 179, 181, 191, 199, 211]) } else { n };
    let n = if r.chance(0.01) { *r.pick(&[4usize, 6, 9, 15, 21, 25, 25, 35, 49]) } else { n };
    let tall = r.chance(0.15);
    let (k, f) = if n == 1 { (1i16, 0i16) } else {
        let most = if n > 23 && r.chance(0.85) { 12 } else { n as u64 };
        let k = r.range(2, most) as i16;
        // Avoid an excess of combinations
        let most = if k > 23 { 1 } else if k > 8 && !(k <= 12 && r.chance(0.1)) { 2 } else { 4 };
        (k, r.range(1, (k as u64 - 1).min(most)) as i16)
    };
    let m = *r.pick(&[1usize, 1, 1, 1, 2]);
    let chunksize = if n == 1 { None } else { *r.pick(&[Some(1u64), Some(1), Some(2), Some(2), Some(3), Some(4), Some(5), Some(8), None]) };
    let c = chunksize.unwrap_or(16);
    let nz = if tall { r.range(5, 30) } else { r.range(2, 5) };
    let zone = ((k as u64 * r.range(2, 6) + r.below(20)) * c + if r.chance(0.3) { r.below(c) } else { 0 }).max(40);
    // Bounded by the size of what an erase must record
    let zone = zone * if tall { r.range(2, (150_000 / (n as u64 * m as u64 * zone)).clamp(2, 200)) } else { 1 };
    let blocks = zone * nz + if r.chance(0.2) { r.below(zone) } else { 0 };
    let geo = Geometry { nclusters: 1, n, m, k, f, chunksize, zone, blocks };
    let stripe = (c * (k - f) as u64).max(1) * BS as u64;
    let mut p = RPlan { seed, geo, sched: SchedCfg::gen(&mut r), epochs: vec![], writefail: false };
    let ne = r.range(2, if tier == Tier::Quick { 3 } else { 5 });
    for i in 0..ne {
        let nc = r.range(1, 3) as usize;
        let nops = r.range(3, if k > 23 { 3 } else if tier == Tier::Quick { 25 } else { 60 });
        let w: [u32; 10] = *r.pick(&[
            [20, 3, 1, 1, 12, 2, 2, 1, 2, 0], [10, 2, 1, 1, 20, 5, 2, 1, 2, 0],
            [20, 5, 5, 4, 10, 2, 4, 1, 1, 0], [20, 3, 1, 1, 12, 2, 2, 1, 2, 1]]);
        let async_ = *r.pick(&[0.0, 0.3, 0.7]);
        let clients = (0..nc).map(|_| (0..nops).map(|_| match r.weighted(&w) {
            0 => {
                let b = match r.below(10) {
                    0..=2 => r.range(1, 3 * BS as u64),
                    3..=5 => r.range(1, stripe),
                    6 => stripe * r.range(1, 3),
                    7 => BS as u64 * r.range(1, c + 1),
                    8 => r.range(1, 4 * stripe),
                    _ => (stripe * r.range(1, 3)).saturating_sub(r.below(2 * BS as u64)).max(1),
                };
                ROp::Write(b.min(4 << 20) as u32, !r.chance(async_))
            }
            1 => ROp::Flush(!r.chance(async_)), 2 => ROp::Finish, 3 => ROp::Erase(r.below(100) as u32),
            4 => ROp::Read(r.u64() as u32, match r.below(4) { 0 => 1, 1 => r.range(1, c) as u32, 2 => r.range(1, c * k as u64) as u32, _ => r.range(1, 4 * c * k as u64) as u32 }),
            5 => ROp::Long(r.u64() as u32, r.range(1, 2 * c * k as u64) as u32),
            6 => ROp::Sync, 7 => ROp::Space(0), 8 => ROp::Sleep(r.below(20) as u32), _ => ROp::Crash,
        }).collect()).collect();
        let mut events = vec![];
        if f > 0 && r.chance(0.6) {
            for _ in 0..r.range(1, f as u64) {
                let mi = r.below(n as u64) as usize;
                let what = match r.below(6) { 0 => RFault::Die, 1 => RFault::Flaky(*r.pick(&[10u64, 50, 100])), 2 => RFault::Bad(r.range(1, 30) as u32), 3 => RFault::Fault, _ => RFault::Rot(r.range(1, 30) as u32) };
                events.push((*r.pick(&[0u32, 0, 1, 5, 20, 100]) + r.below(20) as u32, mi, what));
            }
        }
        let lose = if f > 0 && r.chance(0.4) { (0..r.range(1, f as u64)).map(|_| r.below(n as u64) as usize).collect() } else { vec![] };
        let crash = if r.chance(0.3) { Some(pick_crash_mode(&mut r)) } else { None };
        let _ = i;
        p.epochs.push(REpoch { clients, events, lose, crash });
    }
    p.epochs.push(REpoch::default());
    p.writefail = r.chance(0.5);
    serde_json::to_value(&p).unwrap()
}
