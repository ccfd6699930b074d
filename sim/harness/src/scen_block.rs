//! One disk's scheduler alone: what was asked of it, and what it did.
use crate::core::{Ctx, Tier};
use crate::env::*;
use bfffs_core::label::LabelWriter;
use bfffs_core::types::{LbaT, TxgT, ZoneT};
use bfffs_core::vdev::Vdev;
use bfffs_core::vdev_block::{Manager, VdevBlock};
use bfffs_core::Error;
use divbuf::DivBufShared;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::disk::{Disk, Health, LogEnt, LogKind};
use simrt::rng::Rng;
use simrt::{DiskRef, Fault, FaultAt, Outcome};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::num::NonZeroU64;
use std::path::PathBuf;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

const BS: usize = 4096;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum BOp {
    /// Append so many blocks to a zone, in so many buffers
    Write(u32, u32, u32),
    /// Many single-block writes at once
    Burst(u32, u32),
    /// Append, but lose interest
    Abandon(u32, u32),
    /// Where, how much, and in how many buffers
    Read(u32, u32, u32),
    Sync, Erase(u32), Finish(u32), Label, Space(u32), ReadSpace, Sleep(u32),
    /// Wait for what the client began
    Wait,
    Remove, Crash,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BPlan {
    pub seed: u64,
    pub blocks: u64,
    pub zone: u64,
    pub sched: SchedCfg,
    pub clients: Vec<Vec<BOp>>,
    #[serde(default)]
    pub kills: Vec<BKill>,
    pub crash: String,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum BKill { Eio(u64), Eagain(u64, u32), Stall(u64, u64), Die(u64) }

type Fut = Pin<Box<dyn Future<Output = Result<(), Error>>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K { Read, Write, Sync, Label, Space, Zone }

/// One request and what came of it
#[derive(Clone, Debug)]
struct Req {
    kind: K,
    lba: LbaT,
    n: LbaT,
    /// Stream that the write belongs to
    stream: Option<(ZoneT, u32)>,
    /// The I/O counter when it was made, and when its result was seen
    at: u64,
    done: Option<(u64, Result<(), Error>)>,
    abandoned: bool,
    /// It may be cut short by the removal of the disk
    end: bool,
}

#[derive(Default)]
struct St {
    data: BTreeMap<LbaT, Rc<[u8]>>,
    reqs: Vec<Req>,
    /// LBAs of finished writes, by request
    acked: BTreeMap<LbaT, usize>,
    /// Each zone's write pointer and incarnation
    zones: BTreeMap<ZoneT, (LbaT, u32)>,
    users: BTreeMap<ZoneT, usize>,
    limits: Vec<(LbaT, LbaT)>,
    spacemap: [Option<Vec<u8>>; 2],
    space_busy: bool,
    label_busy: bool,
    txg: u32,
    uuid: Option<bfffs_core::types::Uuid>,
    removed: Option<u64>,
    removing: bool,
    pending: usize,
    fail: Option<(String, String)>,
    probes: BTreeMap<&'static str, u64>,
    nops: u64,
    /// LBAs whose contents must survive
    stable: BTreeMap<LbaT, Rc<[u8]>>,
    stable_txg: u32,
    faulty: bool,
}

struct Sys { v: RefCell<Option<Rc<VdevBlock>>>, st: Rc<RefCell<St>>, rng: RefCell<Rng>, disk: DiskRef }

fn ioseq() -> u64 { simrt::with(|w| w.io_seq()) }

async fn poll_once(f: &mut Fut) -> Option<Result<(), Error>> {
    std::future::poll_fn(|cx| Poll::Ready(match f.as_mut().poll(cx) { Poll::Ready(r) => Some(r), Poll::Pending => None })).await
}

impl Sys {
    fn fail(&self, k: &str, m: String) { let mut s = self.st.borrow_mut(); if s.fail.is_none() { s.fail = Some((k.into(), m)); } }
    fn failed(&self) -> bool { self.st.borrow().fail.is_some() }
    fn probe(&self, k: &'static str) { *self.st.borrow_mut().probes.entry(k).or_default() += 1; }
    fn vdev(&self) -> Option<Rc<VdevBlock>> { if self.st.borrow().removing { None } else { self.v.borrow().clone() } }

    /// Make a request, which takes its place in the queue at once
    async fn begin(self: &Rc<Self>, kind: K, lba: LbaT, n: LbaT, stream: Option<(ZoneT, u32)>, mut f: Fut, after: Box<dyn FnOnce(&Sys, usize, Result<(), Error>)>) -> Rc<RefCell<bool>> {
        let id = { let mut s = self.st.borrow_mut(); let end = s.removing; s.reqs.push(Req { kind, lba, n, stream, at: ioseq(), done: None, abandoned: false, end }); s.pending += 1; s.reqs.len() - 1 };
        let flag = Rc::new(RefCell::new(false));
        let r = poll_once(&mut f).await;
        let (s, fl) = (self.clone(), flag.clone());
        let finish = move |r: Result<(), Error>| {
            { let mut st = s.st.borrow_mut(); st.reqs[id].done = Some((ioseq(), r)); st.pending -= 1; }
            after(&s, id, r);
            *fl.borrow_mut() = true;
        };
        match r {
            Some(r) => finish(r),
            None => { simrt::spawn(async move { let r = f.await; finish(r); }); }
        }
        flag
    }

    /// Choose a zone to append to
    fn zone(&self, pick: u32) -> Option<ZoneT> {
        let s = self.st.borrow();
        let ok: Vec<ZoneT> = s.zones.iter().filter(|(z, (next, _))| *next < s.limits[**z as usize].1).map(|(z, _)| *z).collect();
        if ok.is_empty() { None } else { Some(ok[pick as usize % ok.len()]) }
    }
    fn extent(&self, z: ZoneT, n: LbaT) -> (LbaT, Vec<Rc<[u8]>>, u32) {
        let mut s = self.st.borrow_mut();
        let (next, gen) = s.zones[&z];
        let n = n.min(s.limits[z as usize].1 - next);
        let mut v = vec![];
        for i in 0..n {
            let mut b = vec![0u8; BS];
            self.rng.borrow_mut().fill(&mut b[..32]);
            for j in 32..BS { b[j] = b[j - 32].wrapping_add(7); }
            let b: Rc<[u8]> = b.into();
            s.data.insert(next + i, b.clone());
            s.acked.remove(&(next + i));
            v.push(b);
        }
        s.zones.get_mut(&z).unwrap().0 += n;
        *s.users.entry(z).or_default() += 1;
        (next, v, gen)
    }
    async fn write(self: &Rc<Self>, z: ZoneT, n: LbaT, parts: usize) -> Option<Rc<RefCell<bool>>> {
        let v = self.vdev()?;
        let (lba, pages, gen) = self.extent(z, n);
        if pages.is_empty() { self.st.borrow_mut().users.entry(z).and_modify(|u| *u -= 1); return None; }
        let n = pages.len();
        let mut dbss = vec![];
        let per = n.div_ceil(parts.max(1));
        // A final buffer may need padding
        let short = if parts > 1 && self.rng.borrow_mut().chance(0.2) { self.rng.borrow_mut().below(BS as u64) as usize } else { 0 };
        let chunks: Vec<_> = pages.chunks(per).collect();
        for (i, c) in chunks.iter().enumerate() {
            let mut buf: Vec<u8> = c.concat();
            if i + 1 == chunks.len() && short > 0 {
                buf.truncate(buf.len() - short);
                let mut last = buf[buf.len() / BS * BS..].to_vec();
                last.resize(BS, 0);
                self.st.borrow_mut().data.insert(lba + n as LbaT - 1, last.into());
            }
            // Buffers needn't end with a block
            if parts > 1 && self.rng.borrow_mut().chance(0.3) {
                let mut r = self.rng.borrow_mut();
                let blk = r.below((buf.len() / BS) as u64 + 1) as usize * BS;
                if blk < buf.len() {
                    let rest = buf.split_off(blk);
                    let (mut head, tail) = (buf, rest[BS.min(rest.len())..].to_vec());
                    let mut block = rest[..BS.min(rest.len())].to_vec();
                    let cut = r.range(1, BS as u64 - 1) as usize;
                    if cut < block.len() {
                        let mut end = block.split_off(cut);
                        head.extend(block);
                        dbss.push(DivBufShared::from(head));
                        if end.len() > 1 && r.chance(0.5) { let e2 = end.split_off(end.len() / 2); dbss.push(DivBufShared::from(end)); end = e2; }
                        dbss.push(DivBufShared::from(end));
                    } else { head.extend(block); dbss.push(DivBufShared::from(head)); }
                    if !tail.is_empty() { dbss.push(DivBufShared::from(tail)); }
                    continue;
                }
            }
            dbss.push(DivBufShared::from(buf));
        }
        let f: Fut = if parts <= 1 { Box::pin(v.write_at(dbss[0].try_const().unwrap(), lba)) }
            else { Box::pin(v.writev_at(dbss.iter().map(|d| d.try_const().unwrap()).collect(), lba)) };
        drop(v);
        Some(self.begin(K::Write, lba, n as LbaT, Some((z, gen)), f, Box::new(move |s, id, r| {
            drop(dbss);
            s.written(z, lba, n as LbaT, id, r);
        })).await)
    }
    fn written(&self, z: ZoneT, lba: LbaT, n: LbaT, id: usize, r: Result<(), Error>) {
        let mut st = self.st.borrow_mut();
        *st.users.get_mut(&z).unwrap() -= 1;
        for l in lba..lba + n { if r.is_ok() { st.acked.insert(l, id); } else { st.acked.remove(&l); st.data.remove(&l); } }
    }

    async fn read(self: &Rc<Self>, at: u32, n: LbaT, parts: usize) -> Option<Rc<RefCell<bool>>> {
        let v = self.vdev()?;
        let (z, lba, n, want) = {
            let s = self.st.borrow();
            if s.acked.is_empty() { return None; }
            let a = *s.acked.keys().nth(at as usize % s.acked.len()).unwrap();
            let mut b = a + 1;
            let z = s.limits.iter().position(|l| a >= l.0 && a < l.1).unwrap() as ZoneT;
            while b - a < n && s.acked.contains_key(&b) && b < s.limits[z as usize].1 { b += 1; }
            let want: Vec<u8> = (a..b).flat_map(|l| s.data[&l].to_vec()).collect();
            (z, a, b - a, want)
        };
        *self.st.borrow_mut().users.entry(z).or_default() += 1;
        let per = (n as usize).div_ceil(parts.max(1)) * BS;
        let dbss: Vec<DivBufShared> = want.chunks(per).map(|c| DivBufShared::from(vec![0x5au8; c.len()])).collect();
        let f: Fut = if parts <= 1 || dbss.len() == 1 { Box::pin(v.read_at(dbss[0].try_mut().unwrap(), lba)) }
            else { Box::pin(v.readv_at(dbss.iter().map(|d| d.try_mut().unwrap()).collect(), lba)) };
        drop(v);
        Some(self.begin(K::Read, lba, n, None, f, Box::new(move |s, _, r| {
            s.st.borrow_mut().users.entry(z).and_modify(|u| *u -= 1);
            if r.is_ok() {
                let got: Vec<u8> = dbss.iter().flat_map(|d| d.try_const().unwrap().to_vec()).collect();
                if got != want {
                    let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                    s.fail("wrong_data", format!("reading {n} blocks at LBA {lba}: byte {} of LBA {} is {:#x}, not {:#x}", i % BS, lba + (i / BS) as LbaT, got[i], want[i]));
                }
                s.probe("read");
            }
        })).await)
    }

    async fn sync(self: &Rc<Self>) -> Option<Rc<RefCell<bool>>> {
        let v = self.vdev()?;
        let f: Fut = Box::pin(v.sync_all());
        drop(v);
        // Everything requested before is covered
        let (upto, txg) = { let s = self.st.borrow(); (s.reqs.len(), s.txg) };
        Some(self.begin(K::Sync, 0, 0, None, f, Box::new(move |s, _, r| {
            if r.is_err() { return; }
            s.probe("sync");
            let mut st = s.st.borrow_mut();
            st.stable_txg = st.stable_txg.max(txg);
            let must: Vec<(LbaT, Rc<[u8]>)> = st.acked.iter().filter(|(_, id)| **id < upto).map(|(l, _)| (*l, st.data[l].clone())).collect();
            let d = s.disk.borrow();
            let lost = must.iter().find(|(l, want)| d.durable.get(l).map(|p| p[..] != want[..]).unwrap_or(true));
            let m = lost.map(|(l, _)| format!("LBA {l} was written before the sync, but it isn't stable"));
            drop(d);
            st.stable.extend(must);
            drop(st);
            if let Some(m) = m { s.fail("sync", m); }
        })).await)
    }

    async fn op(self: &Rc<Self>, mine: &mut Vec<Rc<RefCell<bool>>>, op: BOp) {
        self.st.borrow_mut().nops += 1;
        match op {
            BOp::Write(z, n, parts) => if let Some(z) = self.zone(z) { mine.extend(self.write(z, n as LbaT, parts as usize).await); },
            BOp::Burst(z, n) => if let Some(z) = self.zone(z) { for _ in 0..n { match self.write(z, 1, 1).await { Some(f) => mine.push(f), None => break } } if n > 1024 { self.probe("long_burst"); } },
            BOp::Abandon(z, n) => if let (Some(z), Some(v)) = (self.zone(z), self.vdev()) {
                let (lba, pages, gen) = self.extent(z, n as LbaT);
                let n = pages.len() as LbaT;
                let dbs = DivBufShared::from(pages.concat());
                let mut f: Fut = Box::pin(v.write_at(dbs.try_const().unwrap(), lba));
                drop(v);
                let id = { let mut s = self.st.borrow_mut(); let end = s.removing; s.reqs.push(Req { kind: K::Write, lba, n, stream: Some((z, gen)), at: ioseq(), done: None, abandoned: true, end }); s.reqs.len() - 1 };
                // Nobody knows when it will finish, so the zone remains in use
                match poll_once(&mut f).await {
                    Some(r) => { let mut s = self.st.borrow_mut(); s.reqs[id].done = Some((ioseq(), r)); drop(s); self.written(z, lba, n, id, r); }
                    None => { drop(f); self.probe("abandoned"); }
                }
            },
            BOp::Read(at, n, parts) => { let f = self.read(at, n as LbaT, parts as usize).await; mine.extend(f); }
            BOp::Sync => { let f = self.sync().await; mine.extend(f); }
            BOp::Erase(pick) => {
                let Some(v) = self.vdev() else { return };
                let idle: Vec<ZoneT> = { let s = self.st.borrow(); s.zones.keys().copied().filter(|z| s.users.get(z).copied().unwrap_or(0) == 0).collect() };
                if idle.is_empty() { return; }
                let z = idle[pick as usize % idle.len()];
                let (a, b) = self.st.borrow().limits[z as usize];
                let gen = { let mut s = self.st.borrow_mut();
                    let l: Vec<LbaT> = s.data.range(a..b).map(|x| *x.0).collect();
                    for l in l { s.data.remove(&l); s.acked.remove(&l); s.stable.remove(&l); }
                    s.zones.remove(&z).unwrap().1 + 1 };
                let f: Fut = Box::pin(v.erase_zone(a, b - 1));
                drop(v);
                // It can't be opened until it's erased
                let good = cell(false);
                let g2 = good.clone();
                let f = self.begin(K::Zone, a, b - a, None, f, Box::new(move |s, _, r| if r.is_ok() { *g2.borrow_mut() = true; s.probe("erase"); })).await;
                mine.push(f.clone());
                let s = self.clone();
                simrt::spawn(async move {
                    while !*f.borrow() { simrt::sleep_ns(100_000).await; }
                    let Some(v) = s.vdev() else { return };
                    if !*good.borrow() { return; }
                    let f: Fut = Box::pin(v.open_zone(a));
                    drop(v);
                    s.begin(K::Zone, a, 0, None, f, Box::new(move |s, _, r| if r.is_ok() { s.st.borrow_mut().zones.insert(z, (a, gen)); })).await;
                });
            }
            BOp::Finish(pick) => {
                let Some(v) = self.vdev() else { return };
                // A full one can be finished, and an empty one opened
                let zs: Vec<(LbaT, LbaT, bool)> = { let s = self.st.borrow(); s.zones.iter().filter_map(|(z, (next, _))| { let (a, b) = s.limits[*z as usize]; if *next == b { Some((a, b, true)) } else if *next == a { Some((a, b, false)) } else { None } }).collect() };
                if zs.is_empty() { return; }
                let (a, b, full) = zs[pick as usize % zs.len()];
                let f: Fut = if full { Box::pin(v.finish_zone(a, b - 1)) } else { Box::pin(v.open_zone(a)) };
                drop(v);
                let f = self.begin(K::Zone, a, 0, None, f, Box::new(|_, _, _| ())).await;
                mine.push(f);
            }
            BOp::Label => {
                let Some(v) = self.vdev() else { return };
                if self.st.borrow().label_busy { return; }
                let txg = { let mut s = self.st.borrow_mut(); s.label_busy = true; s.txg + 1 };
                // Never the one that was most recently written
                let idx = txg % 2;
                let f: Fut = Box::pin(v.write_label(LabelWriter::new(idx), TxgT::from(txg)));
                drop(v);
                let f = self.begin(K::Label, idx as LbaT * 4, 4, None, f, Box::new(move |s, _, r| {
                    if r.is_err() { return; }
                    { let mut st = s.st.borrow_mut(); st.label_busy = false; st.txg = txg; }
                    s.probe("label");
                    if let Some(v) = s.vdev() { if v.txg() != TxgT::from(txg) { s.fail("txg", format!("after writing a label of {txg}, it's {:?}", v.txg())); } }
                })).await;
                // One that failed may be torn.  Don't write the other, too
                mine.push(f);
            }
            BOp::Space(idx) => {
                let Some(v) = self.vdev() else { return };
                if self.st.borrow().space_busy { return; }
                let mut b = vec![0u8; BS];
                self.rng.borrow_mut().fill(&mut b);
                { let mut s = self.st.borrow_mut(); s.space_busy = true; s.spacemap[idx as usize % 2] = None; }
                let dbs = DivBufShared::from(b.clone());
                let f: Fut = Box::pin(v.write_spacemap(vec![dbs.try_const().unwrap()], idx % 2, 0));
                drop(v);
                let f = self.begin(K::Space, 8 + (idx % 2) as LbaT, 1, None, f, Box::new(move |s, _, r| {
                    let mut st = s.st.borrow_mut();
                    st.space_busy = false;
                    if r.is_ok() { st.spacemap[idx as usize % 2] = Some(b); }
                })).await;
                mine.push(f);
            }
            BOp::ReadSpace => {
                let Some(v) = self.vdev() else { return };
                if self.st.borrow().space_busy { return; }
                for idx in 0..2u32 {
                    let Some(want) = self.st.borrow().spacemap[idx as usize].clone() else { continue };
                    self.st.borrow_mut().space_busy = true;
                    let dbs = DivBufShared::from(vec![0u8; BS]);
                    let r = v.read_spacemap(dbs.try_mut().unwrap(), idx).await;
                    self.st.borrow_mut().space_busy = false;
                    if r.is_ok() && dbs.try_const().unwrap()[..] != want[..] { self.fail("wrong_data", format!("spacemap {idx} isn't what was written")); }
                    self.probe("spacemap");
                }
            }
            BOp::Sleep(ms) => simrt::sleep_ns(ms as u64 * 1_000_000).await,
            BOp::Wait => { for f in mine.drain(..) { while !*f.borrow() { simrt::sleep_ns(1_000_000).await; } } }
            BOp::Remove => {
                if self.st.borrow().removing { return; }
                let Some(v) = self.v.borrow_mut().take() else { return };
                { let mut s = self.st.borrow_mut(); s.removing = true; for r in s.reqs.iter_mut() { if r.done.is_none() { r.end = true; } } }
                match Rc::try_unwrap(v) {
                    Ok(v) => { v.remove().await; self.st.borrow_mut().removed = Some(ioseq()); self.probe("remove"); }
                    Err(v) => { *self.v.borrow_mut() = Some(v); let mut s = self.st.borrow_mut(); s.removing = false; }
                }
            }
            BOp::Crash => { simrt::with(|w| { w.fault_fired("crash"); w.crash() }); simrt::yield_now().await; }
        }
    }
}

/// Compare what was asked with what the device did
fn audit(s: &St, log: &[LogEnt], aborted: bool) -> Result<(), (String, String)> {
    let bad = |k: &str, m: String| Err((k.to_string(), m));
    // No more than the device wants at once
    let mut ev: Vec<(u64, i32)> = vec![];
    for l in log.iter().filter(|l| l.kind != LogKind::Erase) { ev.push((l.submit_seq, 1)); ev.push((l.done_seq, -1)); }
    ev.sort();
    let mut depth = 0;
    for (_, d) in ev { depth += d; if depth > 10 { return bad("queue_depth", format!("{depth} operations were given to the disk at once")); } }
    // Everything is done exactly once
    let mut want: BTreeMap<(bool, LbaT), (i64, i64)> = BTreeMap::new();
    for r in &s.reqs {
        let w = match r.kind { K::Write | K::Label | K::Space => true, K::Read => false, _ => continue };
        let maybe = aborted || r.end || (r.abandoned && r.done.is_none() && s.removing);
        for l in r.lba..r.lba + r.n { let e = want.entry((w, l)).or_default(); if !maybe { e.0 += 1; } e.1 += 1; }
    }
    let mut did: BTreeMap<(bool, LbaT), i64> = BTreeMap::new();
    for l in log {
        let w = match l.kind { LogKind::Write => true, LogKind::Read => false, _ => continue };
        if !w && l.lba < 10 { continue; }
        for b in l.lba..l.lba + l.n { *did.entry((w, b)).or_default() += 1; }
    }
    for (k, (lo, hi)) in &want {
        let n = did.get(k).copied().unwrap_or(0);
        // The label's size may vary
        let lo = if k.1 < 8 { 0 } else { *lo };
        if n < lo || n > *hi { return bad("exactly_once", format!("LBA {} was {} {n} times, but {hi} were requested", k.1, if k.0 { "written" } else { "read" })); }
    }
    for (k, n) in &did { if !want.contains_key(k) { return bad("exactly_once", format!("LBA {} was {} {n} times, but none were requested", k.1, if k.0 { "written" } else { "read" })); } }
    // Zones are written in order, as zoned devices require
    let writes: Vec<&LogEnt> = log.iter().filter(|l| l.kind == LogKind::Write).collect();
    let find = |r: &Req| writes.iter().filter(|l| l.lba <= r.lba && r.lba + r.n.max(1) <= l.lba + l.n && l.submit_seq > r.at).min_by_key(|l| l.submit_seq).copied();
    let mut last: BTreeMap<(ZoneT, u32), (u64, LbaT)> = BTreeMap::new();
    for r in &s.reqs {
        let Some(st) = r.stream else { continue };
        let Some(l) = find(r) else { if aborted || r.end || r.abandoned { continue } else { return bad("exactly_once", format!("the write of {} blocks at LBA {} was divided or lost", r.n, r.lba)); } };
        if let Some((q, at)) = last.get(&st) { if l.submit_seq < *q { return bad("order", format!("LBA {} was written before LBA {at}, which was requested first", r.lba)); } }
        last.insert(st, (l.submit_seq, r.lba));
    }
    // Each result is that of its operation
    for r in &s.reqs {
        let Some((end, res)) = &r.done else { continue };
        if matches!(res, Err(Error::ENXIO)) && r.end { continue; }
        let (wk, lba, n) = match r.kind { K::Write | K::Space => (LogKind::Write, r.lba, r.n), K::Label => (LogKind::Write, r.lba, 1), K::Read => (LogKind::Read, r.lba, r.n), K::Sync => (LogKind::Sync, 0, 0), K::Zone => continue };
        let mine: Vec<&LogEnt> = log.iter().filter(|l| l.kind == wk && l.lba <= lba && lba + n <= l.lba + l.n && l.submit_seq > r.at && l.done_seq <= *end).collect();
        let ok = match res { Ok(()) => mine.iter().any(|l| l.err == 0), Err(_) => mine.iter().any(|l| l.err != 0) };
        if !ok { return bad("result", format!("{:?} at LBA {lba} returned {res:?}, but the disk's results were {:?}", r.kind, mine.iter().map(|l| l.err).collect::<Vec<_>>())); }
    }
    // A sync follows everything that was requested before it
    let syncs: Vec<&LogEnt> = log.iter().filter(|l| l.kind == LogKind::Sync).collect();
    for (i, r) in s.reqs.iter().enumerate() {
        if r.kind != K::Sync { continue; }
        let Some((end, Ok(()))) = r.done else { continue };
        let Some(sy) = syncs.iter().filter(|l| l.submit_seq > r.at && l.done_seq <= end && l.err == 0).max_by_key(|l| l.submit_seq) else { return bad("sync", "a sync finished without the disk's cache having been flushed".into()); };
        for w in &s.reqs[..i] {
            if w.kind != K::Write || w.end || (w.done.is_none() && aborted) { continue; }
            if let Some(l) = find(w) { if l.submit_seq > sy.submit_seq { return bad("sync", format!("the write at LBA {} was requested before a sync, but issued after it", w.lba)); } }
        }
    }
    Ok(())
}

async fn lifetime(p: BPlan, path: PathBuf, disk: DiskRef, st: Rc<RefCell<St>>) {
    let v = VdevBlock::create(&path, NonZeroU64::new(p.zone)).unwrap();
    {
        let mut s = st.borrow_mut();
        s.uuid = Some(v.uuid());
        let nz = v.zones();
        for z in 0..nz { let (a, b) = v.zone_limits(z); let b = b.min(v.size()); s.limits.push((a, b)); if a < b { s.zones.insert(z, (a, 0)); } }
    }
    let s = Rc::new(Sys { v: RefCell::new(Some(Rc::new(v))), st: st.clone(), rng: RefCell::new(Rng::stream(p.seed, "data")), disk: disk.clone() });
    for k in &p.kills { if let BKill::Die(ms) = k {
        let (d, ms, st) = (disk.clone(), *ms, st.clone());
        simrt::spawn(async move { simrt::sleep_ns(ms * 1_000_000).await; st.borrow_mut().faulty = true; d.borrow_mut().health = Health::Dead; simrt::with(|w| w.fault_fired("die")); });
    } }
    let left = cell(p.clients.len());
    for ops in p.clients.iter().cloned() {
        let (s, left) = (s.clone(), left.clone());
        simrt::spawn(async move {
            let mut mine = vec![];
            for op in ops { s.op(&mut mine, op).await; if s.failed() { break; } }
            s.op(&mut mine, BOp::Wait).await;
            *left.borrow_mut() -= 1;
        });
    }
    while *left.borrow() > 0 { simrt::sleep_ns(1_000_000).await; }
    if s.failed() { return; }
    // Those that were abandoned still finish
    simrt::sleep_ns(3_000_000_000).await;
    if s.vdev().is_some() {
        let mut m = vec![];
        if !disk.borrow().health.eq(&Health::Dead) {
            s.op(&mut m, BOp::Sync).await;
            s.op(&mut m, BOp::Wait).await;
            if s.failed() { return; }
            // Read everything
            let all: Vec<LbaT> = st.borrow().acked.keys().copied().collect();
            let mut i = 0;
            while i < all.len() {
                s.op(&mut m, BOp::Read(i as u32, 64, 1 + i as u32 % 3)).await;
                i += 37;
            }
            s.op(&mut m, BOp::Wait).await;
        }
    } else if s.st.borrow().removed.is_some() && !s.failed() {
        let q = st.borrow().removed.unwrap();
        // It's gone
        let busy = disk.borrow().log.as_ref().unwrap().iter().filter(|l| l.submit_seq > q || l.done_seq > q).count();
        if busy > 0 { let m = format!("{busy} operations were in progress after the disk was removed"); s.fail("removed", m); }
    }
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: BPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    let geo = Geometry { nclusters: 1, n: 1, m: 1, k: 1, f: 0, chunksize: None, zone: p.zone, blocks: p.blocks };
    let rig = Rig::new(ctx, &geo);
    let disk = rig.disk(0);
    disk.borrow_mut().log = Some(vec![]);
    let st: Rc<RefCell<St>> = Default::default();
    let mut cfg = p.sched.config(p.seed, "block");
    cfg.max_steps = 20_000_000;
    cfg.trace = ctx.trace;
    for k in &p.kills {
        let (io, fault) = match *k { BKill::Eio(io) => (io, Fault::Eio), BKill::Eagain(io, n) => (io, Fault::Eagain(n)), BKill::Stall(io, ns) => (io, Fault::Stall(ns)), BKill::Die(_) => continue };
        cfg.faults.push(FaultAt { io, disk: None, fault });
    }
    let (p2, path, d2, s2) = (p.clone(), rig.paths[0].clone(), disk.clone(), st.clone());
    let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, path, d2, s2).await });
    ctx.rep.absorb(&r);
    let crashed = matches!(r.outcome, Outcome::Crashed);
    if let Some((k, m)) = st.borrow_mut().fail.take() { ctx.rep.fail(&k, m); }
    ctx.rep.judge(&r, "the disk");
    if !ctx.rep.failed() {
        let log = disk.borrow_mut().log.take().unwrap();
        let aborted = crashed || disk.borrow().health == Health::Dead;
        if let Err((k, m)) = audit(&st.borrow(), &log, aborted) { ctx.rep.fail(&k, m); }
        if log.iter().any(|l| l.err != 0) { ctx.rep.probe("errors"); }
        if log.iter().any(|l| l.n > 64) { ctx.rep.probe("accumulated"); }
    }
    // What the disk says of itself, and what is stable, survives
    if !ctx.rep.failed() && disk.borrow().health == Health::Ok {
        let mut rng = Rng::stream(p.seed, "crash");
        let dirty = !disk.borrow().unsynced.is_empty();
        if crashed || dirty { rig.crash(crash_mode(&p.crash), &mut rng); ctx.rep.probe("power_failure"); }
        let s = st.borrow();
        {
            let d: std::cell::Ref<Disk> = disk.borrow();
            if let Some((l, _)) = s.stable.iter().find(|(l, want)| d.durable.get(l).map(|p| p[..] != want[..]).unwrap_or(true)) {
                // Unless it was erased meanwhile
                ctx.rep.fail("durability", format!("LBA {l} had been synced, but was lost when power failed"));
            }
        }
        if s.stable_txg > 0 && !ctx.rep.failed() {
            let (path, uuid, txg, blocks, zone, limits) = (rig.paths[0].clone(), s.uuid.unwrap(), s.stable_txg, p.blocks, p.zone, s.limits.clone());
            drop(s);
            let mut cfg = p.sched.config(p.seed, "import");
            cfg.trace = ctx.trace;
            let out: Rc<RefCell<Option<(String, String)>>> = Default::default();
            let o2 = out.clone();
            let r = simrt::run(cfg, &rig.disks, move || async move {
                let fail = |m: String| *o2.borrow_mut() = Some(("label".into(), m));
                let mut m = Manager::default();
                if let Err(e) = m.taste(&path).await { return fail(format!("the disk isn't recognised: {e:?}")); }
                match m.import(uuid).await {
                    Err(e) => fail(format!("cannot import: {e:?}")),
                    Ok((v, _)) => {
                        let l: Vec<_> = (0..v.zones()).map(|z| { let (a, b) = v.zone_limits(z); (a, b.min(v.size())) }).collect();
                        if v.txg() < TxgT::from(txg) || v.size() != blocks || v.lbas_per_zone() != zone || v.uuid() != uuid || l != limits { fail(format!("the disk is remembered wrongly: {:?} of at least {txg}", v.txg())); }
                    }
                }
            });
            ctx.rep.absorb(&r);
            ctx.rep.judge(&r, "import");
            ctx.rep.probe("import");
            let o = out.borrow_mut().take();
            if let Some((k, m)) = o { ctx.rep.fail(&k, m); }
        }
    }
    let s = st.borrow();
    for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
    ctx.rep.probe_n("ops", s.nops);
    {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (p.blocks, p.zone, &s.zones, s.txg, s.reqs.len()).hash(&mut h);
        ctx.rep.sigs.push(h.finish());
    }
    if s.nops > 0 { ctx.rep.nontrivial = true; }
    let _: BTreeSet<u8> = BTreeSet::new();
}

// -------------------------------------------------------------- generation

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let zone = *r.pick(&[40u64, 64, 100, 256, 1500]);
    let blocks = zone * r.range(1, 4) + if r.chance(0.3) { r.below(zone) } else { 0 };
    let mut sched = SchedCfg::gen(&mut r);
    sched.p_eagain = *r.pick(&[0.0, 0.0, 0.05, 0.3, 0.8]);
    sched.p_stall = *r.pick(&[0.0, 0.0, 0.004]);
    let big = if tier == Tier::Quick { 40 } else { 100 };
    let removal = r.chance(0.15);
    let crash = r.chance(0.15);
    let nc = r.range(1, 4);
    let wt: [u32; 12] = *r.pick(&[
        [20, 2, 1, 10, 3, 2, 1, 1, 1, 1, 3, 4], [10, 5, 0, 20, 1, 1, 1, 0, 0, 0, 2, 6],
        [10, 1, 1, 5, 10, 3, 2, 3, 3, 2, 3, 2], [20, 3, 0, 10, 2, 5, 2, 1, 1, 1, 0, 3]]);
    let mut clients: Vec<Vec<BOp>> = (0..nc).map(|_| (0..r.range(3, big)).map(|_| match r.weighted(&wt) {
        0 => BOp::Write(r.below(8) as u32, r.range(1, *r.clone().pick(&[1u64, 4, 20])) as u32, *r.pick(&[1u32, 1, 2, 3])),
        1 => BOp::Burst(r.below(8) as u32, if zone > 1100 && r.chance(0.2) { r.range(1020, 1200) as u32 } else { r.range(2, 30) as u32 }),
        2 => BOp::Abandon(r.below(8) as u32, r.range(1, 4) as u32),
        3 => BOp::Read(r.u64() as u32, r.range(1, 16) as u32, *r.pick(&[1u32, 1, 2, 3])),
        4 => BOp::Sync, 5 => BOp::Erase(r.below(8) as u32), 6 => BOp::Finish(r.below(16) as u32),
        7 => BOp::Label, 8 => BOp::Space(r.below(2) as u32), 9 => BOp::ReadSpace, 10 => BOp::Sleep(r.below(30) as u32), _ => BOp::Wait,
    }).collect()).collect();
    let mut kills = vec![];
    if r.chance(0.4) { for _ in 0..r.range(1, 4) {
        let io = r.below(150);
        kills.push(match r.below(4) { 0 | 1 => BKill::Eio(io), 2 => BKill::Eagain(io, r.range(1, 30) as u32), _ => BKill::Stall(io, r.range(1, 500) * 1_000_000) });
    } }
    if r.chance(0.05) { kills.push(BKill::Die(r.below(200))); }
    let c = r.below(nc) as usize;
    let at = r.below(clients[c].len() as u64 + 1) as usize;
    if removal { clients[c].insert(at, BOp::Remove); } else if crash { clients[c].insert(at, BOp::Crash); }
    serde_json::to_value(BPlan { seed, blocks, zone, sched, clients, kills, crash: pick_crash_mode(&mut r) }).unwrap()
}
