//! The record stores and their cache, and the cache alone.
use crate::core::{Ctx, Tier};
use crate::env::*;
use bfffs_core::cache::{Cache, Cacheable, Key};
use bfffs_core::cleaner::Cleaner;
use bfffs_core::ddml::{DDML, DRP};
use bfffs_core::dml::{Compression, DML};
use bfffs_core::idml::IDML;
use bfffs_core::types::RID;
use divbuf::{DivBuf, DivBufShared};
use futures::FutureExt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::num::NonZeroU8;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum ROp {
    /// Store so many bytes, compressed so, of such data
    Put(u32, u8, u8),
    /// Read one record so many times at once
    Get(u32, u32),
    /// Read past the cache
    Direct(u32),
    /// Begin to read, but lose interest after so many steps
    Abandon(u32, u32),
    Pop(u32), Del(u32), Evict(u32), DropCache, Sync, Clean, Sleep(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct REpoch { pub flaky: u64, pub clients: Vec<Vec<ROp>> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RPlan {
    pub seed: u64,
    pub geo: Geometry,
    pub cache: usize,
    pub sched: SchedCfg,
    pub fanout: usize,
    pub indirect: bool,
    pub epochs: Vec<REpoch>,
    /// The cache alone
    #[serde(default)]
    pub ops: Vec<COp>,
}

type Er = bfffs_core::Error;

#[derive(Clone, Copy, Debug)]
enum A { I(RID), D(DRP) }

struct Rec { a: A, n: u64, data: Rc<Vec<u8>>, readers: u32, dead: bool }

#[derive(Default)]
struct St {
    recs: Vec<Rc<RefCell<Rec>>>,
    n: u64,
    /// Reads that failed while devices fail reads
    errors: u64,
    fail: Option<(String, String)>,
    probes: BTreeMap<&'static str, u64>,
    nops: u64,
}

#[derive(Clone)]
struct D { idml: Arc<IDML>, ddml: Arc<DDML>, cleaner: Rc<RefCell<Option<Cleaner>>>, cache: Arc<Mutex<Cache>>, indirect: bool, flaky: Rc<RefCell<bool>>, st: Rc<RefCell<St>> }

fn content(n: u64, len: usize, kind: u8) -> Vec<u8> {
    let mut r = Rng::stream(n, "record");
    let mut v = vec![0u8; len];
    match kind % 4 {
        0 => r.fill(&mut v),
        1 => for (i, b) in v.iter_mut().enumerate() { *b = (n as usize * 7 + i / 512) as u8; },
        2 => { let h = len / 2; r.fill(&mut v[..h]); }
        _ => for (i, b) in v.iter_mut().enumerate() { *b = if i % 8 == 0 { (i / 8) as u8 } else { n as u8 }; },
    }
    let t = n.to_le_bytes();
    let k = len.min(8);
    v[..k].copy_from_slice(&t[..k]);
    v
}

fn comp(c: u8) -> Compression {
    match c % 6 {
        0 | 1 => Compression::None, 2 => Compression::LZ4(None), 3 => Compression::LZ4(NonZeroU8::new(8)),
        4 => Compression::Zstd(None), _ => Compression::Zstd(NonZeroU8::new(3)),
    }
}

impl D {
    fn fail(&self, k: &str, m: impl Into<String>) { let mut s = self.st.borrow_mut(); if s.fail.is_none() { s.fail = Some((k.into(), m.into())); } }
    fn probe(&self, k: &'static str) { *self.st.borrow_mut().probes.entry(k).or_default() += 1; }
    fn key(a: A) -> Key { match a { A::I(r) => Key::Rid(r), A::D(d) => Key::PBA(d.pba()) } }
    fn get(&self, a: A) -> Pin<Box<dyn Future<Output = Result<Box<DivBuf>, Er>>>> {
        match a {
            A::I(r) => { let i = self.idml.clone(); Box::pin(async move { i.get::<DivBufShared, DivBuf>(&r).await }) }
            A::D(d) => { let i = self.ddml.clone(); Box::pin(async move { i.get::<DivBufShared, DivBuf>(&d).await }) }
        }
    }
    fn pick(&self, i: u32) -> Option<Rc<RefCell<Rec>>> {
        let s = self.st.borrow();
        let v: Vec<_> = s.recs.iter().filter(|r| !r.borrow().dead).collect();
        if v.is_empty() { None } else { Some(v[i as usize % v.len()].clone()) }
    }
    fn judge(&self, what: &str, n: u64, want: &[u8], got: Result<&[u8], &Er>) {
        match got {
            Ok(g) if g == want => (),
            Ok(g) => {
                let at = g.iter().zip(want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                self.fail("data", format!("{what} of record {n}, of {} bytes, returned {} bytes that differ at {at}", want.len(), g.len()));
            }
            Err(e) if *self.flaky.borrow() && *e == Er::EIO => self.st.borrow_mut().errors += 1,
            Err(e) => self.fail("errno", format!("{what} of record {n} failed with {e:?}")),
        }
    }
    fn limits(&self) {
        let c = self.cache.lock().unwrap();
        if c.size() > c.capacity() { let m = format!("the cache holds {} bytes, more than its capacity {}", c.size(), c.capacity()); drop(c); self.fail("limit", m); }
    }
    async fn op(&self, op: ROp) {
        self.st.borrow_mut().nops += 1;
        let flaky = *self.flaky.borrow();
        if flaky && matches!(op, ROp::Put(..) | ROp::Pop(..) | ROp::Del(..) | ROp::Sync | ROp::Clean) { return; }
        match op {
            ROp::Put(len, c, kind) => {
                let n = { let mut s = self.st.borrow_mut(); s.n += 1; s.n };
                let data = content(n, len as usize, kind);
                let dbs = DivBufShared::from(data.clone());
                let g = self.idml.txg().await;
                let txg = *g;
                let r = if self.indirect { self.idml.put(dbs, comp(c), txg).await.map(A::I) } else { self.ddml.put(dbs, comp(c), txg).await.map(A::D) };
                drop(g);
                match r {
                    Ok(a) => {
                        if let A::D(d) = a { if d.asize() < data.len().div_ceil(4096) as u64 { self.probe("compressed"); } }
                        let mut s = self.st.borrow_mut();
                        if let A::I(x) = a {
                            if let Some(o) = s.recs.iter().find(|o| matches!(o.borrow().a, A::I(y) if y == x)) { let m = format!("records {} and {n} were both given {x:?}", o.borrow().n); drop(s); self.fail("rid", m); return; }
                        }
                        s.recs.push(Rc::new(RefCell::new(Rec { a, n, data: Rc::new(data), readers: 0, dead: false })));
                    }
                    Err(Er::ENOSPC) => self.probe("full"),
                    Err(e) => self.fail("errno", format!("storing failed with {e:?}")),
                }
            }
            ROp::Get(i, k) => if let Some(r) = self.pick(i) {
                let (a, n, data) = { let mut r = r.borrow_mut(); r.readers += 1; (r.a, r.n, r.data.clone()) };
                if self.cache.lock().unwrap().get_ref(&Self::key(a)).is_some() {
                    // This must not wait for anything
                    match self.get(a).now_or_never() {
                        Some(g) => { self.probe("hit"); self.judge("reading", n, &data, g.as_ref().map(|g| &g[..])) }
                        None => self.fail("slow", format!("record {n} is cached, but reading it takes time")),
                    }
                }
                let gs = futures::future::join_all((0..k.max(1)).map(|_| self.get(a))).await;
                for g in &gs { self.judge("reading", n, &data, g.as_ref().map(|g| &g[..])); }
                if k > 1 { self.probe("together"); }
                r.borrow_mut().readers -= 1;
            },
            ROp::Direct(i) => if let Some(r) = self.pick(i) {
                let (a, n, data) = { let mut r = r.borrow_mut(); r.readers += 1; (r.a, r.n, r.data.clone()) };
                if let A::D(d) = a {
                    let g = self.ddml.get_direct::<DivBufShared>(&d).await;
                    self.judge("reading directly", n, &data, g.as_ref().map(|g| g.try_const().unwrap()).as_ref().map(|g| &g[..]).map_err(|e| *e));
                    self.probe("direct");
                }
                r.borrow_mut().readers -= 1;
            },
            ROp::Abandon(i, k) => if let Some(r) = self.pick(i) {
                let (a, n, data) = { let mut r = r.borrow_mut(); r.readers += 1; (r.a, r.n, r.data.clone()) };
                let mut f = self.get(a);
                let mut left = k;
                let g = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
                    std::task::Poll::Ready(g) => std::task::Poll::Ready(Some(g)),
                    _ if left == 0 => std::task::Poll::Ready(None),
                    _ => { left -= 1; cx.waker().wake_by_ref(); std::task::Poll::Pending }
                }).await;
                match g { Some(g) => self.judge("reading", n, &data, g.as_ref().map(|g| &g[..])), None => self.probe("abandoned") }
                drop(f);
                r.borrow_mut().readers -= 1;
            },
            ROp::Pop(i) | ROp::Del(i) => if let Some(r) = self.pick(i) {
                if r.borrow().readers > 0 { return; }
                let (a, n, data) = { let mut r = r.borrow_mut(); r.dead = true; (r.a, r.n, r.data.clone()) };
                let g = self.idml.txg().await;
                let txg = *g;
                if matches!(op, ROp::Pop(_)) {
                    let x = match a { A::I(i) => self.idml.pop::<DivBufShared, DivBuf>(&i, txg).await, A::D(d) => self.ddml.pop::<DivBufShared, DivBuf>(&d, txg).await };
                    self.judge("popping", n, &data, x.as_ref().map(|g| g.try_const().unwrap()).as_ref().map(|g| &g[..]).map_err(|e| *e));
                    self.probe("pop");
                } else {
                    let x = match a { A::I(i) => self.idml.delete(&i, txg).await, A::D(d) => self.ddml.delete(&d, txg).await };
                    if let Err(e) = x { self.fail("errno", format!("deleting record {n} failed with {e:?}")); }
                    self.probe("delete");
                }
                drop(g);
                if let A::I(i) = a { if self.cache.lock().unwrap().get_ref(&Key::Rid(i)).is_some() { self.fail("ghost", format!("record {n} was deleted, but is still cached")); } }
                self.st.borrow_mut().recs.retain(|x| x.borrow().n != n);
            },
            ROp::Evict(i) => if let Some(r) = self.pick(i) {
                let a = r.borrow().a;
                match a { A::I(i) => self.idml.evict(&i), A::D(d) => self.ddml.evict(&d) }
                if self.cache.lock().unwrap().get_ref(&Self::key(a)).is_some() { self.fail("ghost", format!("record {} was evicted, but is still cached", r.borrow().n)); }
            },
            ROp::DropCache => { self.idml.drop_cache(); let n = self.cache.lock().unwrap().size(); if n > 0 { self.fail("limit", format!("after dropping the cache, it holds {n} bytes")); } }
            ROp::Sync => if let Err(e) = self.sync().await { self.fail("errno", format!("syncing failed with {e:?}")); },
            ROp::Clean => if self.indirect {
                let rx = self.cleaner.borrow().as_ref().map(|c| c.clean());
                if let Some(rx) = rx { let _ = rx.await; self.probe("clean"); }
            },
            ROp::Sleep(ms) => simrt::sleep_ns(ms as u64 * 1_000_000).await,
        }
        self.limits();
    }
    async fn sync(&self) -> Result<(), Er> {
        let idml = self.idml.clone();
        self.idml.advance_transaction(move |txg| async move {
            idml.clone().flush(Some(0), txg).await?;
            idml.sync_all(txg).await?;
            idml.clone().flush(Some(1), txg).await?;
            idml.sync_all(txg).await
        }).await
    }
    /// Everything is there, and nothing else
    async fn audit(&self) {
        if !self.cache.lock().unwrap().pending_insertions.is_empty() { return self.fail("pending", "nobody reads, but some reads are said to be in progress"); }
        let recs: Vec<_> = self.st.borrow().recs.clone();
        for pass in 0..2 {
            if pass == 1 { self.idml.drop_cache(); }
            for r in &recs {
                let (a, n, data) = { let r = r.borrow(); (r.a, r.n, r.data.clone()) };
                let g = self.get(a).await;
                self.judge("reading", n, &data, g.as_ref().map(|g| &g[..]));
                self.limits();
            }
        }
        if self.indirect {
            match self.idml.check().await { Ok(true) => (), x => return self.fail("selfcheck", format!("the consistency check says {x:?}")) }
        }
        // What is used, and by what
        let mut m = BTreeMap::new();
        let mut text = Vec::new();
        for ridt in [false, true] {
            text.clear();
            let r = if ridt { self.idml.dump_ridt(&mut text).await } else { self.idml.dump_alloct(&mut text).await };
            if let Err(e) = r { return self.fail("errno", format!("dumping failed with {e:?}")); }
            if let Err(e) = crate::fsdrive::drps(&String::from_utf8_lossy(&text), &mut m) { return self.fail("space", e); }
        }
        for r in &recs {
            if let A::D(d) = r.borrow().a { if m.insert((d.pba().cluster as u64, d.pba().lba), d.asize()).is_some() { return self.fail("space", format!("two records share {:?}", d.pba())); } }
        }
        let mut end = (0, 0);
        for ((c, l), n) in &m {
            if *c == end.0 && *l < end.1 { return self.fail("space", format!("the record at LBA {l} of cluster {c} overlaps another")); }
            end = (*c, l + n);
        }
        let (want, used) = (m.values().sum::<u64>(), self.ddml.used().await);
        if want != used { return self.fail("space", format!("{used} blocks are accounted as used, but the {} records present occupy {want}", m.len())); }
        self.probe("audit");
    }
}

async fn lifetime(p: RPlan, paths: Vec<std::path::PathBuf>, disks: Vec<simrt::DiskRef>, out: Cell<Option<Rc<RefCell<St>>>>) {
    bfffs_core::tree::dst::set_max_fanout(p.fanout);
    let pool = create_pool(&p.geo, &paths);
    let cache = Arc::new(Mutex::new(Cache::with_capacity(p.cache)));
    let ddml = Arc::new(DDML::create(pool, cache.clone()));
    let idml = Arc::new(IDML::create(ddml.clone(), cache.clone()));
    let cleaner = if p.indirect { Some(Cleaner::new(idml.clone(), Some(0.1))) } else { None };
    let d = D { idml, ddml, cleaner: Rc::new(RefCell::new(cleaner)), cache, indirect: p.indirect, flaky: Default::default(), st: Default::default() };
    *out.borrow_mut() = Some(d.st.clone());
    for e in &p.epochs {
        if e.flaky > 0 {
            // So that only the records themselves are read
            if p.indirect { if let Err(e) = d.sync().await { d.fail("errno", format!("syncing failed with {e:?}")); } }
            *d.flaky.borrow_mut() = true;
            for x in &disks { let mut x = x.borrow_mut(); x.flaky = e.flaky; x.log = Some(vec![]); }
            d.st.borrow_mut().errors = 0;
            d.probe("flaky");
        }
        let left = cell(e.clients.len());
        for ops in e.clients.iter().cloned() {
            let (d, left) = (d.clone(), left.clone());
            simrt::spawn(async move {
                for op in ops { d.op(op).await; if d.st.borrow().fail.is_some() { break; } }
                *left.borrow_mut() -= 1;
            });
        }
        while *left.borrow() > 0 { simrt::sleep_ns(10_000_000).await; }
        if e.flaky > 0 {
            *d.flaky.borrow_mut() = false;
            // One operation of a device may read several records
            let mut bad = 0;
            for x in &disks { let mut x = x.borrow_mut(); x.flaky = 0; bad += x.log.take().unwrap().iter().filter(|l| l.err != 0).map(|l| l.n).sum::<u64>(); }
            let errors = d.st.borrow().errors;
            if errors > 0 { d.probe("reported_errors"); }
            if errors > bad { d.fail("errno", format!("{errors} reads failed, but devices failed to read only {bad} blocks")); }
        }
        if d.st.borrow().fail.is_some() { return; }
        d.audit().await;
        if d.st.borrow().fail.is_some() { return; }
        if let Err(e) = d.sync().await { d.fail("errno", format!("syncing failed with {e:?}")); return; }
        d.audit().await;
        if d.st.borrow().fail.is_some() { return; }
    }
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: RPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    if !p.ops.is_empty() { return run_cache(&p, ctx); }
    let rig = Rig::new(ctx, &p.geo);
    let mut cfg = p.sched.config(p.seed, "records");
    cfg.trace = ctx.trace;
    let out = cell(None);
    let disks: Vec<_> = rig.disks.iter().map(|d| d.1.clone()).collect();
    let (o2, p2, paths) = (out.clone(), p.clone(), rig.paths.clone());
    let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, paths, disks, o2).await });
    ctx.rep.absorb(&r);
    if let Some(st) = out.borrow_mut().take() {
        {
            let mut s = st.borrow_mut();
            if let Some((k, m)) = s.fail.take() { ctx.rep.fail(&k, m); }
            for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
            ctx.rep.probe_n("ops", s.nops);
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for r in &s.recs { (r.borrow().n, &r.borrow().data).hash(&mut h); }
            ctx.rep.sigs.push(h.finish());
        }
        std::mem::forget(st);
    }
    ctx.rep.judge(&r, "records");
    if p.epochs.iter().any(|e| e.clients.len() > 1) { ctx.rep.nontrivial = true; }
}

// -------------------------------------------------------- the cache alone

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum COp { Insert(u32, u32), Again(u32), Get(u32), Hold(u32), Ref(u32), Remove(u32), Drop }

fn run_cache(p: &RPlan, ctx: &mut Ctx) {
    let cap = p.cache.max(1);
    let mut c = Cache::with_capacity(cap);
    // The least recently used first
    let mut model: Vec<(u32, u64, usize)> = vec![];
    let mut held: Vec<(u64, usize, Box<DivBuf>)> = vec![];
    let mut n = 0u64;
    let key = |k: u32| if k % 2 == 0 { Key::Rid(RID((k / 2) as u64)) } else { Key::PBA(bfffs_core::types::PBA::new((k / 2 % 3) as u16, (k / 2) as u64)) };
    let mut bad: Option<String> = None;
    let mut evicted = 0;
    if c.capacity() != cap { bad = Some("the capacity is wrong".into()); }
    for (at, op) in p.ops.iter().enumerate() {
        let find = |m: &Vec<(u32, u64, usize)>, k: u32| m.iter().position(|x| x.0 == k);
        match *op {
            COp::Insert(k, len) => {
                let len = (len as usize).min(cap);
                if find(&model, k).is_some() { continue; }
                while model.iter().map(|x| x.2).sum::<usize>() + len > cap { model.remove(0); evicted += 1; }
                n += 1;
                c.insert(key(k), Box::new(DivBufShared::from(content(n, len, 0))));
                model.push((k, n, len));
            }
            COp::Again(k) => if let Some(i) = find(&model, k) {
                // Two readers may read the same
                let x = model[i];
                if model.iter().map(|x| x.2).sum::<usize>() + x.2 <= cap {
                    c.insert(key(k), Box::new(DivBufShared::from(content(x.1, x.2, 0))));
                    if c.get::<DivBuf>(&key(k)).is_none() { bad = Some(format!("what was inserted twice under {k} is not there")); }
                    model.remove(i);
                    model.push(x);
                    ctx.rep.probe("inserted_twice");
                }
            },
            COp::Get(k) | COp::Hold(k) => {
                let g = c.get::<DivBuf>(&key(k));
                match (g, find(&model, k)) {
                    (None, None) => (),
                    (Some(g), Some(i)) => {
                        let x = model.remove(i);
                        model.push(x);
                        if g[..] != content(x.1, x.2, 0)[..] { bad = Some(format!("the wrong block was returned for {k}")); }
                        if matches!(op, COp::Hold(_)) { held.push((x.1, x.2, g)); }
                    }
                    (g, _) => bad = Some(format!("the block for {k} should{} be cached", if g.is_some() { " not" } else { "" })),
                }
            }
            COp::Ref(k) => if c.get_ref(&key(k)).is_some() != find(&model, k).is_some() { bad = Some(format!("the block for {k} is{} cached", if find(&model, k).is_some() { " not" } else { "" })); },
            COp::Remove(k) => match (c.remove(&key(k)), find(&model, k)) {
                (None, None) => (),
                (Some(b), Some(i)) => {
                    let x = model.remove(i);
                    let ok = b.cache_space() == x.2 && b.downcast::<DivBufShared>().map(|b| b.try_const().unwrap()[..] == content(x.1, x.2, 0)[..]).unwrap_or(false);
                    if !ok { bad = Some(format!("the wrong block was removed for {k}")); }
                }
                (g, _) => bad = Some(format!("a block for {k} was{} removed", if g.is_some() { "" } else { " not" })),
            },
            COp::Drop => { c.drop_cache(); model.clear(); }
        }
        let want: usize = model.iter().map(|x| x.2).sum();
        if c.size() != want { bad = bad.or(Some(format!("{} bytes are said to be cached, not {want}", c.size()))); }
        for x in &model { if c.get_ref(&key(x.0)).is_none() { bad = bad.or(Some(format!("the block for {}, used more recently than others, is not cached", x.0))); } }
        for k in 0..64 { if !model.iter().any(|x| x.0 == k) && c.get_ref(&key(k)).is_some() { bad = bad.or(Some(format!("the block for {k} should have made way for others"))); } }
        for (n, len, b) in &held { if b[..] != content(*n, *len, 0)[..] { bad = bad.or(Some("a block that is in use changed".into())); } }
        if held.len() > 5 { held.remove(0); }
        if let Some(m) = bad { ctx.rep.fail("cache", format!("operation {at}: {m}")); return; }
        ctx.rep.hash = (ctx.rep.hash ^ want as u64).wrapping_mul(0x100_0000_01b3);
    }
    ctx.rep.probe_n("lru_ops", p.ops.len() as u64);
    ctx.rep.probe_n("lru_evicted", evicted);
    ctx.rep.sigs.push(ctx.rep.hash);
    ctx.rep.nontrivial = true;
}

// -------------------------------------------------------------- generation

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut b = crate::scen_fs::base_plan(&mut r, seed);
    crate::scen_fs::vary(&mut b, &mut r);
    let indirect = r.chance(0.6);
    let mut p = RPlan { seed, geo: b.geo, cache: *r.pick(&[160usize << 10, 256 << 10, 1 << 20, 16 << 20]), sched: b.sched, fanout: *r.pick(&[8usize, 8, 12, 32]), indirect, epochs: vec![], ops: vec![] };
    if r.chance(0.2) {
        p.cache = *r.pick(&[1usize, 10, 100, 1000, 10_000]);
        let keys = *r.pick(&[3u64, 8, 20, 60]);
        let scale = *r.pick(&[1usize, 2, 5, 10]);
        let w: [u32; 7] = *r.pick(&[[10, 2, 10, 1, 2, 3, 0], [10, 1, 5, 2, 5, 8, 1], [10, 0, 3, 0, 0, 0, 0]]);
        p.ops = (0..r.range(2, 60)).map(|_| {
            let k = r.below(keys) as u32;
            match r.weighted(&w) {
                0 => COp::Insert(k, r.below((p.cache / scale + 1) as u64) as u32), 1 => COp::Again(k), 2 => COp::Get(k), 3 => COp::Hold(k),
                4 => COp::Ref(k), 5 => COp::Remove(k), _ => COp::Drop,
            }
        }).collect();
        return serde_json::to_value(&p).unwrap();
    }
    for _ in 0..r.range(1, 3) {
        let nops = r.range(4, if tier == Tier::Quick { 30 } else { 80 });
        let w: [u32; 11] = *r.pick(&[
            [20, 20, 4, 4, 5, 5, 4, 1, 3, 2, 2],
            [30, 10, 2, 2, 10, 15, 2, 1, 5, 5, 2],
            [8, 40, 8, 10, 2, 2, 10, 4, 1, 1, 2]]);
        let big = *r.pick(&[4096u64, 20_000, 131_072]);
        let flaky = if p.epochs.is_empty() { 0 } else if r.chance(0.4) { *r.pick(&[10u64, 40, 90]) } else { 0 };
        let clients = (0..r.range(1, 5)).map(|_| (0..nops).map(|_| {
            let i = r.below(*r.clone().pick(&[3u64, 10, 1000])) as u32;
            match r.weighted(&w) {
                0 => ROp::Put(match r.below(4) { 0 => 4096 * r.range(1, (big / 4096).max(1)) as u32, _ => r.range(1, big) as u32 }, r.below(6) as u8, r.below(4) as u8),
                1 => ROp::Get(i, *r.pick(&[1u32, 1, 2, 4])), 2 => ROp::Direct(i), 3 => ROp::Abandon(i, r.below(20) as u32), 4 => ROp::Pop(i), 5 => ROp::Del(i),
                6 => ROp::Evict(i), 7 => ROp::DropCache, 8 => ROp::Sync, 9 => ROp::Clean, _ => ROp::Sleep(r.below(30) as u32),
            }
        }).collect()).collect();
        p.epochs.push(REpoch { flaky, clients });
    }
    serde_json::to_value(&p).unwrap()
}
