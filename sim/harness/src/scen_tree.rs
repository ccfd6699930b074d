//! The copy-on-write B+Tree as an ordered map, on top of either of its data
//! management layers, with several clients, syncs, cleaning and evictions.
use crate::core::{Ctx, Tier};
use crate::env::*;
use crate::fsdrive::{drps, stamp};
use bfffs_core::cleaner::Cleaner;
use bfffs_core::cache::Cache;
use bfffs_core::ddml::{DDML, DRP};
use bfffs_core::dml::DML;
use bfffs_core::idml::IDML;
use bfffs_core::tree::{Key, MinValue, Tree, Value as TreeValue};
use bfffs_core::types::{LbaT, TxgT, TypicalSize, PBA, RID};
use bfffs_core::writeback::Credit;
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::Outcome;
use speedy::{Readable, Writable};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Key of a tree that needs credit, and of one that doesn't
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Readable, Writable)]
pub struct KI(u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Readable, Writable)]
pub struct KD(u64);
impl MinValue for KI { fn min_value() -> Self { KI(0) } }
impl MinValue for KD { fn min_value() -> Self { KD(0) } }
impl TypicalSize for KI { const TYPICAL_SIZE: usize = 8; }
impl TypicalSize for KD { const TYPICAL_SIZE: usize = 8; }
impl Key for KI {}
impl Key for KD { const USES_CREDIT: bool = false; }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Readable, Writable)]
pub struct V { id: u64, pad: Vec<u8> }
impl TypicalSize for V { const TYPICAL_SIZE: usize = 24; }
impl TreeValue for V {}
impl V {
    fn new(id: u64) -> V { V { id, pad: (0..(id * 7919 % 61)).map(|i| (i * id) as u8).collect() } }
    fn ok(&self) -> bool { *self == V::new(self.id) }
}

/// Inclusive, exclusive or unbounded
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum B { I(u64), E(u64), U }
impl B {
    fn map<K>(self, f: fn(u64) -> K) -> Bound<K> { match self { B::I(k) => Bound::Included(f(k)), B::E(k) => Bound::Excluded(f(k)), B::U => Bound::Unbounded } }
}
fn within(k: u64, lo: B, hi: B) -> bool {
    (match lo { B::I(x) => k >= x, B::E(x) => k > x, B::U => true }) && (match hi { B::I(x) => k <= x, B::E(x) => k < x, B::U => true })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Ins(u64), Rem(u64), Get(u64), Range(B, B, u32), RDel(B, B), Last,
    /// Insert several keys: first, step, count
    Bulk(u64, u64, u64),
    Flush, Sync, Evict, Clean, Sleep(u32),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct TEpoch { pub clients: Vec<Vec<TOp>>, #[serde(default)] pub reopen: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TPlan {
    pub seed: u64,
    pub geo: Geometry,
    pub cache: usize,
    pub sched: SchedCfg,
    pub fanout: usize,
    pub indirect: bool,
    pub seq: bool,
    pub keys: u64,
    pub epochs: Vec<TEpoch>,
}

// --------------------------------------------------------- the real tree

#[derive(Clone)]
enum T { I(Arc<Tree<RID, IDML, KI, V>>), D(Arc<Tree<DRP, DDML, KD, V>>) }

struct Sys { idml: Arc<IDML>, ddml: Arc<DDML>, cleaner: RefCell<Option<Cleaner>>, tree: RefCell<T>, seq: bool }

type Er = bfffs_core::Error;

impl Sys {
    fn t(&self) -> T { self.tree.borrow().clone() }
    async fn insert(&self, k: u64, v: V) -> Result<Option<V>, Er> {
        match self.t() {
            T::I(t) => {
                let c = self.idml.borrow_credit(t.credit_requirements().insert).await;
                let g = self.idml.txg().await; let txg = *g;
                t.insert(KI(k), v, txg, c).await
            }
            T::D(t) => { let g = self.idml.txg().await; let txg = *g; t.insert(KD(k), v, txg, Credit::null()).await }
        }
    }
    async fn remove(&self, k: u64) -> Result<Option<V>, Er> {
        match self.t() {
            T::I(t) => {
                let c = self.idml.borrow_credit(t.credit_requirements().remove).await;
                let g = self.idml.txg().await; let txg = *g;
                t.remove(KI(k), txg, c).await
            }
            T::D(t) => { let g = self.idml.txg().await; let txg = *g; t.remove(KD(k), txg, Credit::null()).await }
        }
    }
    async fn range_delete(&self, lo: B, hi: B) -> Result<(), Er> {
        match self.t() {
            T::I(t) => {
                let c = self.idml.borrow_credit(t.credit_requirements().range_delete).await;
                let g = self.idml.txg().await; let txg = *g;
                t.range_delete((lo.map(KI), hi.map(KI)), txg, c).await
            }
            T::D(t) => { let g = self.idml.txg().await; let txg = *g; t.range_delete((lo.map(KD), hi.map(KD)), txg, Credit::null()).await }
        }
    }
    async fn get(&self, k: u64) -> Result<Option<V>, Er> {
        match self.t() { T::I(t) => t.get(KI(k)).await, T::D(t) => t.get(KD(k)).await }
    }
    async fn last(&self) -> Result<Option<u64>, Er> {
        match self.t() { T::I(t) => t.last_key().await.map(|o| o.map(|k| k.0)), T::D(t) => t.last_key().await.map(|o| o.map(|k| k.0)) }
    }
    /// Up to max items, and whether that's all
    async fn range(&self, lo: B, hi: B, max: usize) -> Result<(Vec<(u64, V)>, bool), Er> {
        let mut v = vec![];
        macro_rules! go { ($t:expr, $k:path) => {{
            let mut s = $t.range((lo.map($k), hi.map($k)));
            while v.len() < max {
                match s.next().await { Some(r) => { let (k, x) = r?; v.push((k.0, x)); } None => return Ok((v, true)) }
            }
        }} }
        match self.t() { T::I(t) => go!(t, KI), T::D(t) => go!(t, KD) }
        Ok((v, false))
    }
    async fn flush_tree(&self, txg: TxgT) -> Result<(), Er> {
        match self.t() { T::I(t) => t.flush(txg).await, T::D(t) => t.flush(txg).await }
    }
    async fn flush(&self) -> Result<(), Er> { let g = self.idml.txg().await; let txg = *g; self.flush_tree(txg).await }
    async fn sync(&self) -> Result<(), Er> {
        let (idml, t) = (self.idml.clone(), self.t());
        self.idml.advance_transaction(move |txg| async move {
            match t { T::I(t) => t.flush(txg).await?, T::D(t) => t.flush(txg).await? }
            idml.clone().flush(Some(0), txg).await?;
            idml.sync_all(txg).await?;
            idml.clone().flush(Some(1), txg).await?;
            idml.sync_all(txg).await
        }).await
    }
    async fn check(&self) -> Result<bool, Er> {
        // The IDML knows nothing of other trees on its DDML
        match self.t() { T::I(t) => Ok(t.check().await? && self.idml.check().await?), T::D(t) => t.check().await }
    }
    fn dirty(&self) -> bool { match self.t() { T::I(t) => t.is_dirty(), T::D(t) => t.is_dirty() } }
    /// Clean every zone with something to gain.  Returns how many
    async fn clean(&self) -> Result<usize, String> {
        match self.t() {
            T::I(_) => {
                let rx = self.cleaner.borrow().as_ref().map(|c| c.clean());
                if let Some(rx) = rx { let _ = rx.await; }
                Ok(1)
            }
            T::D(t) => {
                let zones: Vec<bfffs_core::pool::ClosedZone> = self.ddml.list_closed_zones().await.collect();
                let mut n = 0;
                for z in zones {
                    let g = self.idml.txg().await;
                    let txg = *g;
                    if z.txgs.end > txg || z.freed_blocks == 0 { continue; }
                    let pbas = z.pba..PBA::new(z.pba.cluster, z.pba.lba + z.total_blocks);
                    t.clone().clean_zone(pbas.clone(), z.txgs.clone(), txg).await.map_err(|e| format!("clean_zone: {e:?}"))?;
                    n += 1;
                    let left: Vec<DRP> = t.addresses(..).filter(|d| futures::future::ready(pbas.contains(&d.pba()))).collect().await;
                    if let Some(d) = left.first() { return Err(format!("after cleaning {pbas:?} with {:?}, the tree still has {} nodes there, for example {d:?}", z.txgs, left.len())); }
                    drop(g);
                }
                Ok(n)
            }
        }
    }
    /// Everything the tree occupies must be accounted for, and nothing else.  Only while idle.
    async fn accounting(&self) -> Result<(), String> {
        let used: LbaT = self.ddml.used().await;
        let mut text = Vec::new();
        self.idml.dump_alloct(&mut text).await.map_err(|e| format!("{e:?}"))?;
        let mut m = BTreeMap::new();
        drps(&String::from_utf8_lossy(&text), &mut m)?;
        text.clear();
        self.idml.dump_ridt(&mut text).await.map_err(|e| format!("{e:?}"))?;
        let ridt = String::from_utf8_lossy(&text).into_owned();
        drps(&ridt, &mut m)?;
        match self.t() {
            T::I(t) => {
                let have: Vec<RID> = t.addresses(..).collect().await;
                let set: BTreeSet<u64> = have.iter().map(|r| r.0).collect();
                if set.len() != have.len() { return Err(format!("addresses() returned duplicates: {have:?}")); }
                // "RID(7): RidtEntry {"
                let mut recs = BTreeSet::new();
                let words: Vec<&str> = ridt.split_whitespace().collect();
                for w in words.windows(3) {
                    if w[1] == "RidtEntry" || w[1] == "!RidtEntry" || w[2] == "RidtEntry" {
                        if let Ok(n) = w[0].trim_start_matches("RID(").trim_end_matches(':').trim_end_matches(')').parse::<u64>() { recs.insert(n); }
                    }
                }
                if recs.is_empty() && !set.is_empty() {
                    return Err(format!("harness: cannot read the dump {}", ridt.chars().take(600).collect::<String>()));
                }
                if recs != set { return Err(format!("the tree has the nodes {set:?}, but the records are {recs:?}")); }
            }
            T::D(t) => {
                let have: Vec<DRP> = t.addresses(..).collect().await;
                for d in have {
                    if m.insert((d.pba().cluster as u64, d.pba().lba), d.asize()).is_some() { return Err(format!("two records share {:?}", d.pba())); }
                }
            }
        }
        let mut end = (0, 0);
        for ((c, l), n) in &m {
            if *c == end.0 && *l < end.1 { return Err(format!("the record at LBA {l} of cluster {c} overlaps another")); }
            end = (*c, l + n);
        }
        let want: u64 = m.values().sum();
        if want != used { return Err(format!("{used} blocks are accounted as used, but the {} records present occupy {want}", m.len())); }
        Ok(())
    }
    fn evict(&self) { self.idml.drop_cache(); }
    fn reopen(&self) -> Result<(), String> {
        let t = match self.t() {
            T::I(t) => T::I(Arc::new(Tree::open(self.idml.clone(), self.seq, t.serialize().map_err(|e| format!("{e:?}"))?))),
            T::D(t) => T::D(Arc::new(Tree::open(self.ddml.clone(), self.seq, t.serialize().map_err(|e| format!("{e:?}"))?))),
        };
        *self.tree.borrow_mut() = t;
        Ok(())
    }
}

// ----------------------------------------------------------------- oracle

/// What happened to one key
#[derive(Clone, Debug)]
enum What { Put { new: Option<u64>, old: Option<u64> }, Del, Read(Option<u64>) }
#[derive(Clone, Debug)]
struct Ev { start: u64, end: u64, what: What }

/// Is there an order of the events which explains all of them?
fn linearizable(base: Option<u64>, evs: &[Ev]) -> bool {
    let n = evs.len();
    let mut seen: HashSet<(Vec<u64>, Option<u64>)> = HashSet::new();
    let mut stack = vec![(vec![0u64; n.div_ceil(64)], 0usize, base)];
    while let Some((done, count, st)) = stack.pop() {
        if count == n { return true; }
        if !seen.insert((done.clone(), st)) { continue; }
        let is = |i: usize| done[i / 64] >> (i % 64) & 1 == 1;
        let lim = (0..n).filter(|i| !is(*i)).map(|i| evs[i].end).min().unwrap();
        for i in 0..n {
            if is(i) || evs[i].start > lim { continue; }
            let next = match evs[i].what {
                What::Put { new, old } => if old == st { new } else { continue },
                What::Del => None,
                What::Read(v) => if v == st { st } else { continue },
            };
            let mut d = done.clone();
            d[i / 64] |= 1 << (i % 64);
            stack.push((d, count + 1, next));
        }
    }
    false
}

#[derive(Default)]
struct St {
    log: BTreeMap<u64, Vec<Ev>>,
    base: BTreeMap<u64, u64>,
    fail: Option<(String, String)>,
    probes: BTreeMap<&'static str, u64>,
    nextid: u64,
    nops: u64,
    lasts: Vec<(u64, u64, Option<u64>)>,
}

#[derive(Clone)]
struct Drive { s: Rc<Sys>, st: Rc<RefCell<St>>, keys: u64 }

impl Drive {
    fn fail(&self, k: &str, m: String) { let mut s = self.st.borrow_mut(); if s.fail.is_none() { s.fail = Some((k.into(), m)); } }
    fn probe(&self, k: &'static str) { *self.st.borrow_mut().probes.entry(k).or_default() += 1; }
    fn ev(&self, k: u64, start: u64, what: What) { let end = stamp(); self.st.borrow_mut().log.entry(k).or_default().push(Ev { start, end, what }); }
    fn val(&self, v: &Option<V>, what: &str) -> Option<u64> {
        if let Some(v) = v { if !v.ok() { self.fail("corrupt", format!("{what} returned {v:?}, which was never inserted")); } }
        v.as_ref().map(|v| v.id)
    }
    async fn put(&self, k: u64) {
        let id = { let mut s = self.st.borrow_mut(); s.nextid += 1; s.nextid };
        let start = stamp();
        match self.s.insert(k, V::new(id)).await {
            Ok(old) => { let old = self.val(&old, "insert"); self.ev(k, start, What::Put { new: Some(id), old }) }
            Err(e) => self.fail("errno", format!("insert {k}: {e:?}")),
        }
    }
    async fn op(&self, op: TOp) {
        self.st.borrow_mut().nops += 1;
        let start = stamp();
        match op {
            TOp::Ins(k) => self.put(k).await,
            TOp::Bulk(k, step, n) => for i in 0..n { self.put((k + i * step) % self.keys).await },
            TOp::Rem(k) => match self.s.remove(k).await {
                Ok(old) => { let old = self.val(&old, "remove"); self.ev(k, start, What::Put { new: None, old }) }
                Err(e) => self.fail("errno", format!("remove {k}: {e:?}")),
            },
            TOp::Get(k) => match self.s.get(k).await {
                Ok(v) => { let v = self.val(&v, "get"); self.ev(k, start, What::Read(v)) }
                Err(e) => self.fail("errno", format!("get {k}: {e:?}")),
            },
            TOp::RDel(lo, hi) => match self.s.range_delete(lo, hi).await {
                Ok(()) => { for k in 0..self.keys { if within(k, lo, hi) { self.ev(k, start, What::Del); } } self.probe("range_delete"); }
                Err(e) => self.fail("errno", format!("range_delete {lo:?} {hi:?}: {e:?}")),
            },
            TOp::Range(lo, hi, max) => match self.s.range(lo, hi, max as usize).await {
                Ok((v, all)) => {
                    for w in v.windows(2) { if w[0].0 >= w[1].0 { self.fail("order", format!("a query of {lo:?}..{hi:?} returned {} before {}", w[0].0, w[1].0)); } }
                    if let Some((k, _)) = v.iter().find(|(k, _)| !within(*k, lo, hi)) { self.fail("order", format!("a query of {lo:?}..{hi:?} returned {k}")); }
                    let m: BTreeMap<u64, V> = v.into_iter().collect();
                    let last = if all { u64::MAX } else { match m.keys().next_back() { Some(k) => *k, None => return } };
                    for k in 0..self.keys {
                        if k <= last && within(k, lo, hi) { let x = self.val(&m.get(&k).cloned(), "range"); self.ev(k, start, What::Read(x)); }
                    }
                }
                Err(e) => self.fail("errno", format!("range {lo:?} {hi:?}: {e:?}")),
            },
            TOp::Last => match self.s.last().await {
                Ok(k) => { let e = stamp(); self.st.borrow_mut().lasts.push((start, e, k)); }
                Err(e) => self.fail("errno", format!("last_key: {e:?}")),
            },
            TOp::Flush => match self.s.flush().await { Ok(()) => self.probe("flush"), Err(e) => self.fail("errno", format!("flush: {e:?}")) },
            TOp::Sync => match self.s.sync().await { Ok(()) => self.probe("sync"), Err(e) => self.fail("errno", format!("sync: {e:?}")) },
            TOp::Evict => self.s.evict(),
            TOp::Clean => match self.s.clean().await {
                Ok(n) => for _ in 0..n { self.probe("clean"); },
                Err(e) => self.fail("clean", e),
            },
            TOp::Sleep(ms) => simrt::sleep_ns(ms as u64 * 1_000_000).await,
        }
    }

    /// While idle, compare everything with the history
    async fn verify(&self) -> Result<(), (String, String)> {
        let er = |k: &str, m: String| Err((k.to_string(), m));
        let start = stamp();
        let (all, _) = match self.s.range(B::U, B::U, usize::MAX).await { Ok(x) => x, Err(e) => return er("errno", format!("range: {e:?}")) };
        for w in all.windows(2) { if w[0].0 >= w[1].0 { return er("order", format!("{} is returned before {}", w[0].0, w[1].0)); } }
        if let Some((k, v)) = all.iter().find(|(_, v)| !v.ok()) { return er("corrupt", format!("the value of {k} is {v:?}")); }
        let now: BTreeMap<u64, u64> = all.iter().map(|(k, v)| (*k, v.id)).collect();
        for k in 0..self.keys { self.ev(k, start, What::Read(now.get(&k).copied())); }
        match self.s.last().await {
            Ok(k) => if k != now.keys().next_back().copied() { return er("last_key", format!("the last key is {:?}, not {k:?}", now.keys().next_back())); }
            Err(e) => return er("errno", format!("last_key: {e:?}")),
        }
        let mut s = self.st.borrow_mut();
        let log = std::mem::take(&mut s.log);
        let lasts = std::mem::take(&mut s.lasts);
        for (k, evs) in &log {
            if !linearizable(s.base.get(k).copied(), evs) {
                return er("not_linearizable", format!("no order of the operations on key {k}, which was {:?}, explains their results: {}", s.base.get(k),
                    evs.iter().rev().take(12).rev().map(|e| format!("#{}..{} {:?}", e.start, e.end, e.what)).collect::<Vec<_>>().join(", ")));
            }
        }
        // A key which existed throughout a query for the last one, and wasn't touched
        for (a, b, got) in lasts {
            for (k, evs) in log.range(got.map(|g| g + 1).unwrap_or(0)..) {
                if evs.iter().any(|e| !matches!(e.what, What::Read(_)) && e.end > a && e.start < b) { continue; }
                let before = evs.iter().filter(|e| e.end <= a).max_by_key(|e| e.start);
                // Only if it's certain
                let sure = match before { None => s.base.contains_key(k), Some(w) => evs.iter().filter(|e| e.end <= a).all(|e| e.end <= w.start || e.start == w.start)
                    && matches!(w.what, What::Put { new: Some(_), .. } | What::Read(Some(_))) };
                if sure { return er("last_key", format!("last_key returned {got:?}, though {k} existed")); }
            }
        }
        s.base = now;
        Ok(())
    }
}

// --------------------------------------------------------------------- run

async fn lifetime(p: TPlan, paths: Vec<std::path::PathBuf>, out: Cell<Option<Rc<RefCell<St>>>>) {
    bfffs_core::tree::dst::set_max_fanout(p.fanout);
    let pool = create_pool(&p.geo, &paths);
    let cache = Arc::new(Mutex::new(Cache::with_capacity(p.cache)));
    let ddml = Arc::new(DDML::create(pool, cache.clone()));
    let idml = Arc::new(IDML::create(ddml.clone(), cache));
    let tree = if p.indirect { T::I(Arc::new(Tree::create(idml.clone(), p.seq, 2.0, 2.0))) } else { T::D(Arc::new(Tree::create(ddml.clone(), p.seq, 2.0, 2.0))) };
    let cleaner = if p.indirect { Some(Cleaner::new(idml.clone(), Some(0.1))) } else { None };
    let d = Drive { s: Rc::new(Sys { idml, ddml, cleaner: RefCell::new(cleaner), tree: RefCell::new(tree), seq: p.seq }), st: Default::default(), keys: p.keys };
    *out.borrow_mut() = Some(d.st.clone());
    for (i, e) in p.epochs.iter().enumerate() {
        let left = cell(e.clients.len());
        for ops in e.clients.iter().cloned() {
            let (d, left) = (d.clone(), left.clone());
            simrt::spawn(async move {
                for op in ops { d.op(op).await; if d.st.borrow().fail.is_some() { break; } }
                *left.borrow_mut() -= 1;
            });
        }
        while *left.borrow() > 0 { simrt::sleep_ns(10_000_000).await; }
        if d.st.borrow().fail.is_some() { return; }
        macro_rules! tri { ($e:expr) => { if let Err((k, m)) = $e { d.fail(&k, format!("phase {i}: {m}")); return; } } }
        tri!(d.verify().await);
        match d.s.check().await { Ok(true) => (), x => { d.fail("selfcheck", format!("phase {i}: the consistency check says {x:?}")); return; } }
        tri!(d.s.sync().await.map_err(|e| ("errno".to_string(), format!("sync: {e:?}"))));
        if d.s.dirty() { d.fail("dirty", format!("phase {i}: the tree is dirty after being flushed")); return; }
        d.s.evict();
        if e.reopen { tri!(d.s.reopen().map_err(|e| ("errno".to_string(), e))); d.probe("reopen"); }
        tri!(d.verify().await);
        match d.s.check().await { Ok(true) => (), x => { d.fail("selfcheck", format!("phase {i}: after a sync, the consistency check says {x:?}")); return; } }
        tri!(d.s.accounting().await.map_err(|e| ("space".to_string(), e)));
        d.probe("accounting");
        // Nothing is dirty any more, so all write credit must have come back
        if futures::FutureExt::now_or_never(d.s.idml.borrow_credit(d.s.idml.writeback_size())).map(|c| d.s.idml.repay(c)).is_none() {
            d.fail("credit", format!("phase {i}: though nothing is dirty, some write credit is missing"));
            return;
        }
    }
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: TPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    let rig = Rig::new(ctx, &p.geo);
    let mut cfg = p.sched.config(p.seed, "tree");
    cfg.trace = ctx.trace;
    let out = cell(None);
    let (o2, p2, paths) = (out.clone(), p.clone(), rig.paths.clone());
    let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, paths, o2).await });
    ctx.rep.absorb(&r);
    if let Some(st) = out.borrow_mut().take() {
        {
            let mut s = st.borrow_mut();
            if let Some((k, m)) = s.fail.take() { ctx.rep.fail(&k, m); }
            for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
            ctx.rep.probe_n("ops", s.nops);
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.base.hash(&mut h);
            ctx.rep.sigs.push(h.finish());
        }
        std::mem::forget(st);
    }
    ctx.rep.judge(&r, "tree");
    let _ = Outcome::Crashed;
    if p.epochs.iter().any(|e| e.clients.len() > 1) { ctx.rep.nontrivial = true; }
}

// -------------------------------------------------------------- generation

fn gen_range(r: &mut Rng, keys: u64, short: bool) -> (B, B) {
    let a = r.below(keys);
    let b = if short { (a + r.below(1 + keys / 8)).min(keys) } else { r.below(keys + 1) };
    let (a, b) = (a.min(b), a.max(b));
    let lo = match r.below(8) { 0..=4 => B::I(a), 5 | 6 => B::E(a), _ => B::U };
    let hi = match r.below(8) { 0..=4 => B::E(b), 5 | 6 => B::I(b), _ => B::U };
    // Those that BTreeMap would refuse
    match (lo, hi) { (B::E(x), B::E(y)) | (B::E(x), B::I(y)) if x >= y => (B::I(x), B::I(y)), o => o }
}

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut b = crate::scen_fs::base_plan(&mut r, seed);
    crate::scen_fs::vary(&mut b, &mut r);
    let fanout = *r.pick(&[8usize, 8, 9, 10, 12, 16, 32]);
    let indirect = r.chance(0.6);
    let keys = *r.pick(&[12u64, 40, 100, 300]);
    let mut p = TPlan { seed, geo: b.geo, cache: *r.pick(&[64usize << 10, 128 << 10, 1 << 20, 16 << 20]), sched: b.sched, fanout, indirect, seq: r.chance(0.3), keys, epochs: vec![] };
    let ne = r.range(1, if tier == Tier::Quick { 3 } else { 5 });
    for _ in 0..ne {
        let nc = r.range(1, 5) as usize;
        let nops = r.range(4, if tier == Tier::Quick { 40 } else { 120 });
        let w: [u32; 12] = *r.pick(&[
            [20, 10, 10, 5, 3, 2, 4, 3, 2, 2, 1, 1],
            [10, 20, 5, 5, 5, 2, 6, 3, 2, 2, 1, 1],
            [10, 3, 5, 5, 15, 1, 8, 3, 2, 2, 1, 1],
            [5, 5, 20, 20, 2, 5, 3, 8, 2, 8, 2, 2],
            [15, 15, 5, 3, 2, 1, 6, 3, 8, 4, 8, 1]]);
        let short = r.chance(0.6);
        let clients = (0..nc).map(|_| (0..nops).map(|_| {
            let k = r.below(keys);
            match r.weighted(&w) {
                0 => TOp::Ins(k), 1 => TOp::Rem(k), 2 => TOp::Get(k),
                3 => { let (a, b) = gen_range(&mut r, keys, false); TOp::Range(a, b, *r.pick(&[u32::MAX, u32::MAX, 1, 3, 20])) }
                4 => {
                    let (a, b) = gen_range(&mut r, keys, short);
                    // Nothing lies in a range that's the wrong way around, either
                    match (a, b) {
                        (B::I(x) | B::E(x), B::I(y) | B::E(y)) if r.chance(0.08) => {
                            let (x, y) = if r.chance(0.3) { (x, x) } else { (x.max(y), x.min(y)) };
                            match r.below(4) { 0 => TOp::RDel(B::I(x + 1), B::I(y)), 1 => TOp::RDel(B::I(x), B::E(y)), 2 => TOp::RDel(B::E(x), B::I(y)), _ => TOp::RDel(B::E(x), B::E(y)) }
                        }
                        _ => TOp::RDel(a, b),
                    }
                }
                5 => TOp::Last, 6 => TOp::Bulk(k, *r.pick(&[1, 1, 1, 3, 7]), 1 + r.below(keys.min(40))),
                7 => TOp::Flush, 8 => TOp::Sync, 9 => TOp::Evict, 10 => TOp::Clean, _ => TOp::Sleep(r.below(30) as u32),
            }
        }).collect()).collect();
        p.epochs.push(TEpoch { clients, reopen: r.chance(0.5) });
    }
    serde_json::to_value(&p).unwrap()
}
