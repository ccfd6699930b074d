//! Datasets: creation, destruction, listing, properties and mounting, through
//! the Controller, by several clients at once, and across power failures.
use crate::core::{Ctx, Tier};
use crate::env::*;
use crate::fsdrive::{accounting, stamp};
use bfffs_core::controller::Controller;
use bfffs_core::fs::Fs;
use bfffs_core::property::{Property, PropertyName, PropertySource};
use bfffs_core::Error;
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::rng::Rng;
use simrt::{Fault, FaultAt, Outcome};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ffi::OsStr;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

/// A property that can be set
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum P { Atime(bool), Rec(u8), Mnt(String) }

const KINDS: [PropertyName; 3] = [PropertyName::Atime, PropertyName::RecordSize, PropertyName::Mountpoint];

impl P {
    fn kind(&self) -> u8 { match self { P::Atime(_) => 0, P::Rec(_) => 1, P::Mnt(_) => 2 } }
    fn prop(&self) -> Property {
        match self { P::Atime(b) => Property::Atime(*b), P::Rec(r) => Property::RecordSize(*r), P::Mnt(s) => Property::mountpoint(s.as_str()) }
    }
    /// As it's typed into a terminal.  There are several ways.
    fn text(&self, way: u64) -> String {
        match self {
            P::Atime(true) => ["atime", "atime=on", "atime=true"][way as usize % 3].into(),
            P::Atime(false) => ["atime=off", "atime=false"][way as usize % 2].into(),
            P::Rec(r) => format!("{}={}", ["recordsize", "recsize"][way as usize % 2], 1u64 << r),
            P::Mnt(s) => format!("mountpoint={s}"),
        }
    }
    /// As it's displayed
    fn show(&self) -> String {
        match self { P::Atime(b) => if *b { "on".into() } else { "off".into() }, P::Rec(r) => (1u64 << r).to_string(), P::Mnt(s) => s.clone() }
    }
    fn of(p: &Property) -> Option<P> {
        match p { Property::Atime(b) => Some(P::Atime(*b)), Property::RecordSize(r) => Some(P::Rec(*r)), Property::Mountpoint(s) => Some(P::Mnt(s.clone())), _ => None }
    }
}

/// Dataset names are relative to the client's own dataset, or for the shared
/// ones, relative to the shared one.  The first client owns the root, too.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Create(String), Destroy(String), Set(String, P), Get(String, u8), Name(String), List(String, u32),
    Mount(String), Unmount(String), Put(String, u8, u32, u64), GetX(String, u8), Write(String, u8, u32, u64), Read(String, u8), Unlink(String, u8),
    RootSet(P), RootGet(u8), RootList(u32), RootCreate, Bad(u8, String),
    SCreate(String), SDestroy(String), SLook(String),
    Sync, Clean, DropCache, Sleep(u32), Crash,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct DEpoch {
    pub clients: Vec<Vec<DOp>>,
    #[serde(default)] pub crash: Option<u64>,
    #[serde(default)] pub crash_early: Option<u64>,
    pub mode: String,
    /// "sync" or "none"
    pub fin: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DPlan {
    pub seed: u64,
    pub geo: Geometry,
    pub sizing: Sizing,
    pub sched: SchedCfg,
    pub fanout: usize,
    pub epochs: Vec<DEpoch>,
}

// ------------------------------------------------------------------- model

#[derive(Clone, Debug, Default, PartialEq)]
struct Ds { id: Option<u64>, props: BTreeMap<u8, P>, x: BTreeMap<u8, Vec<u8>>, f: BTreeMap<u8, Vec<u8>> }

type Model = BTreeMap<String, Ds>;

#[derive(Clone, Debug)]
enum Eff { Create(String), Destroy(String), Set(String, P), Put(String, u8, u32, u64), Mk(String, u8), Wr(String, u8, u32, u64), Un(String, u8), Nop }

fn bytes(len: u32, pat: u64) -> Vec<u8> { let mut v = vec![0u8; len as usize]; Rng::stream(pat, "bytes").fill(&mut v); v }

fn apply(m: &mut Model, e: &Eff) {
    match e {
        Eff::Nop => (),
        Eff::Create(k) => { m.insert(k.clone(), Ds::default()); }
        Eff::Destroy(k) => { m.remove(k); }
        Eff::Set(k, p) => { m.get_mut(k).unwrap().props.insert(p.kind(), p.clone()); }
        Eff::Put(k, x, l, p) => { m.get_mut(k).unwrap().x.insert(*x, bytes(*l, *p)); }
        Eff::Mk(k, f) => { m.get_mut(k).unwrap().f.insert(*f, vec![]); }
        Eff::Un(k, f) => { m.get_mut(k).unwrap().f.remove(f); }
        Eff::Wr(k, f, l, p) => {
            let v = m.get_mut(k).unwrap().f.get_mut(f).unwrap();
            if v.len() < *l as usize { v.resize(*l as usize, 0); }
            v[..*l as usize].copy_from_slice(&bytes(*l, *p));
        }
    }
}

struct LogE { client: usize, start: u64, end: Option<u64>, eff: Eff, id: Option<u64>, what: String }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum SKind { Create, Destroy, Look }
#[derive(Clone, Debug)]
struct ShOp { start: u64, end: Option<u64>, kind: SKind, path: String, res: Option<i32> }

const NOENT: i32 = libc::ENOENT;
const EXIST: i32 = libc::EEXIST;
const BUSY: i32 = libc::EBUSY;

fn parent_of(p: &str) -> Option<&str> { p.rsplit_once('/').map(|x| x.0) }

/// The sequential specification of the shared namespace
fn sh_apply(op: &ShOp, s: &BTreeSet<String>) -> (i32, BTreeSet<String>) {
    let have = s.contains(&op.path);
    let mut t = s.clone();
    let r = match op.kind {
        SKind::Look => if have { 0 } else { NOENT },
        SKind::Create => if parent_of(&op.path).map(|p| !s.contains(p)).unwrap_or(false) { NOENT } else if have { EXIST } else { t.insert(op.path.clone()); 0 },
        SKind::Destroy => if !have { NOENT } else if s.iter().any(|x| parent_of(x) == Some(&op.path)) { BUSY } else { t.remove(&op.path); 0 },
    };
    (r, t)
}

/// All of the states that some linearization of the operations until tau might lead to
fn reach(base: &BTreeSet<String>, ops: &[ShOp], tau: u64) -> BTreeSet<BTreeSet<String>> {
    let ops: Vec<&ShOp> = ops.iter().filter(|o| o.start < tau).collect();
    assert!(ops.len() <= 64, "too many shared operations");
    let required: u64 = ops.iter().enumerate().filter(|(_, o)| o.end.map(|e| e <= tau).unwrap_or(false)).map(|(i, _)| 1u64 << i).sum();
    let mut out = BTreeSet::new();
    let mut seen: HashSet<(u64, BTreeSet<String>)> = HashSet::new();
    let mut todo = vec![(0u64, base.clone())];
    while let Some((done, s)) = todo.pop() {
        if !seen.insert((done, s.clone())) { continue; }
        if done & required == required { out.insert(s.clone()); }
        let first_end = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).filter_map(|(_, o)| o.end).min().unwrap_or(u64::MAX);
        for (i, o) in ops.iter().enumerate() {
            if done >> i & 1 == 1 || o.start > first_end { continue; }
            let (r, t) = sh_apply(o, &s);
            if o.res.map(|x| x == r).unwrap_or(true) { todo.push((done | 1 << i, t)); }
        }
    }
    out
}

// ------------------------------------------------------------------ driver

struct Mounted { fs: Arc<Fs>, recs: BTreeSet<u8>, atimes: BTreeSet<bool> }

#[derive(Default)]
struct St {
    model: Model, base: Model, log: Vec<LogE>,
    sh: Vec<ShOp>, shbase: BTreeSet<String>,
    mounted: BTreeMap<String, Mounted>,
    dying: BTreeSet<String>,
    must: u64, nops: u64,
    fail: Option<(String, String)>,
    probes: BTreeMap<String, u64>,
}

#[derive(Clone)]
struct Drive { c: Rc<Controller>, st: Rc<RefCell<St>> }

fn key(c: usize, p: &str) -> String { if p.is_empty() { format!("c{c}") } else { format!("c{c}/{p}") } }
fn full(k: &str) -> String { if k.is_empty() { POOL.to_string() } else { format!("{POOL}/{k}") } }
fn errno(e: Error) -> i32 { e.into() }
fn name_of(i: u8) -> String { format!("f{i}") }

/// The chain of a dataset and its ancestors, closest first
fn chain(k: &str) -> Vec<String> {
    let mut v = vec![k.to_string()];
    let mut k = k;
    while let Some(p) = parent_of(k) { v.push(p.to_string()); k = p; }
    if !k.is_empty() { v.push(String::new()); }
    v
}

impl Drive {
    fn fail(&self, kind: &str, msg: impl Into<String>) {
        let mut s = self.st.borrow_mut();
        if s.fail.is_none() { s.fail = Some((kind.into(), msg.into())); }
        simrt::with(|w| w.crash());
    }
    fn probe(&self, k: &str) { *self.st.borrow_mut().probes.entry(k.into()).or_default() += 1; }
    fn begin(&self, client: usize, eff: Eff, what: String) -> usize {
        let start = stamp();
        simrt::with(|w| w.note(|| format!("begin #{start} client {client} {what}")));
        let mut s = self.st.borrow_mut();
        s.nops += 1;
        s.log.push(LogE { client, start, end: None, eff, id: None, what });
        s.log.len() - 1
    }
    fn done(&self, i: usize, ok: bool, id: Option<u64>) {
        let end = stamp();
        let mut s = self.st.borrow_mut();
        let s = &mut *s;
        s.log[i].end = Some(end);
        s.log[i].id = id;
        let eff = if ok { s.log[i].eff.clone() } else { Eff::Nop };
        s.log[i].eff = eff.clone();
        apply(&mut s.model, &eff);
        if let (Eff::Create(k), Some(id)) = (&eff, id) { s.model.get_mut(k).unwrap().id = Some(id); }
    }
    /// An operation whose outcome is known in advance
    fn settle(&self, i: usize, r: Result<Option<u64>, i32>, want: i32) -> bool {
        let what = self.st.borrow().log[i].what.clone();
        match (r, want) {
            (Ok(id), 0) => { self.done(i, true, id); true }
            (Err(e), w) if e == w => { self.done(i, false, None); self.probe("expected_error"); true }
            (Ok(_), w) => { self.fail("errno", format!("{what} succeeded, expected {}", crate::fsdrive::en(w))); false }
            (Err(e), 0) => { self.fail("errno", format!("{what} returned {}, expected success", crate::fsdrive::en(e))); false }
            (Err(e), w) => { self.fail("errno", format!("{what} returned {}, expected {}", crate::fsdrive::en(e), crate::fsdrive::en(w))); false }
        }
    }

    /// Every value that the local property might have had at some time since `start`
    fn local(&self, k: &str, kind: u8, start: u64) -> BTreeSet<Option<P>> {
        let s = self.st.borrow();
        let mut out = BTreeSet::new();
        out.insert(s.model.get(k).and_then(|d| d.props.get(&kind)).cloned());
        // The last value before `start`, and any since.
        let mut before = s.base.get(k).and_then(|d| d.props.get(&kind)).cloned();
        for l in &s.log {
            if let Eff::Set(kk, p) = &l.eff {
                if kk != k || p.kind() != kind { continue; }
                match l.end { Some(e) if e < start => before = Some(p.clone()), _ => { out.insert(Some(p.clone())); } }
            }
        }
        // Only the root is ever changed by somebody else
        if k.is_empty() { out.insert(before); }
        out
    }
    /// Every possible result of inheritance
    fn inherited(&self, k: &str, kind: u8, start: u64) -> BTreeSet<(Option<P>, u8)> {
        let mut out = BTreeSet::new();
        for (i, a) in chain(k).iter().enumerate() {
            let v = self.local(a, kind, start);
            for x in v.iter().flatten() { out.insert((Some(x.clone()), i as u8)); }
            if !v.contains(&None) { return out; }
        }
        out.insert((None, 0));
        out
    }

    async fn create(&self, c: usize, k: String, path: String) {
        let (want, live) = {
            let s = self.st.borrow();
            let pk = parent_of(&k).unwrap_or("").to_string();
            (if s.model.contains_key(&k) { EXIST } else if !s.model.contains_key(&pk) { NOENT } else { 0 }, s.model.contains_key(&k))
        };
        let i = self.begin(c, if live || want != 0 { Eff::Nop } else { Eff::Create(k.clone()) }, format!("create {k}"));
        let r = self.c.create_fs(&path).await.map(|t| Some(t.0)).map_err(errno);
        if let Ok(Some(id)) = r {
            let dup = { let s = self.st.borrow(); s.model.iter().find(|(kk, d)| d.id == Some(id) && !s.dying.contains(*kk)).map(|x| x.0.clone()) };
            if let Some(o) = dup { self.fail("id", format!("create {k}: got the same id, {id}, as {o}")); return; }
        }
        self.settle(i, r, want);
    }

    async fn list(&self, c: usize, k: String, chunk: u32) {
        let want = if self.st.borrow().model.contains_key(&k) { 0 } else { NOENT };
        let i = self.begin(c, Eff::Nop, format!("list {k:?} by {chunk}"));
        let start = self.st.borrow().log[i].start;
        let mut seen: Vec<(String, u64)> = vec![];
        let mut offs = None;
        let chunk = if chunk == 0 { usize::MAX } else { chunk as usize };
        let mut err = None;
        for round in 0.. {
            if round > 1000 { self.fail("hang", format!("list {k} never reaches the end")); return; }
            let mut got = 0;
            let mut eof = true;
            {
                let s = self.c.list_fs(&full(&k), offs);
                futures::pin_mut!(s);
                while let Some(r) = s.next().await {
                    match r {
                        Ok(e) => { seen.push((e.name, e.id.0)); offs = Some(e.offs); got += 1; if got >= chunk { eof = false; break; } }
                        Err(e) => { err = Some(errno(e)); break; }
                    }
                }
            }
            if eof || err.is_some() { break; }
            simrt::yield_now().await;
        }
        if !self.settle(i, err.map(Err).unwrap_or(Ok(None)), want) || want != 0 { return; }
        let end = stamp();
        let s = self.st.borrow();
        let unstable: BTreeSet<String> = s.log.iter().filter(|l| l.start < end && l.end.map(|e| e > start).unwrap_or(true))
            .filter_map(|l| match &l.eff { Eff::Create(k) | Eff::Destroy(k) => Some(k.clone()), _ => None }).collect();
        let mut counts: BTreeMap<String, u32> = BTreeMap::new();
        for (n, id) in &seen {
            let Some(kk) = n.strip_prefix(&format!("{POOL}/")) else { drop(s); self.fail("list", format!("list {k} returned {n}")); return; };
            *counts.entry(kk.to_string()).or_default() += 1;
            if k.is_empty() && kk == "s" { continue; }
            if unstable.contains(kk) { continue; }
            match s.model.get(kk) {
                None => { let m = format!("list {k:?} returned {kk}, which doesn't exist"); drop(s); self.fail("list", m); return; }
                Some(d) => if d.id.is_some() && d.id != Some(*id) { let m = format!("list {k:?}: {kk} has the id {id}, should be {:?}", d.id); drop(s); self.fail("list", m); return; }
            }
        }
        let mut bad = None;
        for (n, c) in &counts { if *c > 1 { bad = Some(format!("list {k:?} returned {n} {c} times")); } }
        for kk in s.model.keys() {
            if kk.is_empty() || parent_of(kk).unwrap_or("") != k || unstable.contains(kk) { continue; }
            if !counts.contains_key(kk) { bad = Some(format!("list {k:?} didn't return {kk}")); }
        }
        if k.is_empty() && !counts.contains_key("s") { bad = Some("list \"\" didn't return s".to_string()); }
        drop(s);
        if let Some(b) = bad { self.fail("list", b); }
    }

    async fn get(&self, c: usize, k: String, kind: u8) {
        let kind = kind % 3;
        let want = if self.st.borrow().model.contains_key(&k) { 0 } else { NOENT };
        let i = self.begin(c, Eff::Nop, format!("get {:?} of {k:?}", KINDS[kind as usize]));
        let start = self.st.borrow().log[i].start;
        let text = [["atime"; 2], ["recordsize", "recsize"], ["mountpoint"; 2]][kind as usize][i % 2];
        let name = match text.parse::<PropertyName>() {
            Ok(x) if x == KINDS[kind as usize] => x,
            x => { self.fail("property", format!("\"{text}\" is parsed as {x:?}")); return; }
        };
        let r = self.c.get_prop(full(&k), name).await;
        let got = match &r { Ok(x) => Some(x.clone()), Err(_) => None };
        if !self.settle(i, r.map(|_| None).map_err(errno), want) || want != 0 { return; }
        let (p, src) = got.unwrap();
        let allowed: Vec<(P, PropertySource)> = self.inherited(&k, kind, start).into_iter().map(|(v, lvl)| {
            let src = if v.is_none() { PropertySource::Default } else { PropertySource::Set(lvl) };
            let v = match (v, kind) {
                (None, 0) => P::Atime(true),
                (None, 1) => P::Rec(17),
                (None, _) => P::Mnt(format!("/{}", full(&k))),
                (Some(P::Mnt(m)), _) if lvl > 0 => {
                    let f = full(&k);
                    let parts: Vec<&str> = f.split('/').collect();
                    P::Mnt(format!("{m}/{}", parts[parts.len() - lvl as usize..].join("/")))
                }
                (Some(x), _) => x,
            };
            (v, src)
        }).collect();
        if let Some(v) = P::of(&p) {
            let (want, have) = (v.show(), p.to_string());
            if want != have { self.fail("property", format!("{p:?} is displayed as {have:?}")); }
        }
        let (want, have) = (match src { PropertySource::Default => "default", PropertySource::Set(0) => "local", _ => "inherited" }, src.to_string());
        if want != have || (src < PropertySource::Set(2) && have.parse() != Ok(src)) { self.fail("property", format!("{src:?} is displayed as {have:?}")); }
        let known = match src { PropertySource::Set(0) => src == PropertySource::LOCAL, PropertySource::Set(1) => src == PropertySource::FROM_PARENT, PropertySource::Set(2) => src == PropertySource::FROM_GRANDPARENT, _ => true };
        if src.is_inherited() != (want == "inherited") || !known { self.fail("property", format!("{src:?} isn't told from one that is{} inherited", if src.is_inherited() { "n't" } else { "" })); }
        if !P::of(&p).map(|p| allowed.contains(&(p, src))).unwrap_or(false) {
            self.fail("property", format!("{:?} of {k:?} is {p:?} from {src:?}, should be one of {allowed:?}", KINDS[kind as usize]));
        }
    }

    async fn set(&self, c: usize, k: String, p: P) {
        let (have, mounted) = { let s = self.st.borrow(); (s.model.contains_key(&k), s.mounted.contains_key(&k)) };
        let want = match &p { _ if !have => NOENT, P::Mnt(m) if !m.starts_with('/') => libc::EINVAL, _ => 0 };
        // Not implemented
        if mounted && matches!(p, P::Mnt(_)) { return; }
        let i = self.begin(c, if want == 0 { Eff::Set(k.clone(), p.clone()) } else { Eff::Nop }, format!("set {p:?} of {k:?}"));
        let text = p.text(i as u64);
        match text.parse::<Property>() {
            Ok(x) if x == p.prop() => (),
            x => { self.fail("property", format!("\"{text}\" is parsed as {x:?}")); return; }
        }
        let r = self.c.set_prop(&full(&k), p.prop()).await.map(|_| None).map_err(errno);
        if self.settle(i, r, want) && want == 0 {
            if let Some(m) = self.st.borrow_mut().mounted.get_mut(&k) {
                match &p { P::Atime(b) => m.atimes = [*b].into(), P::Rec(r) => m.recs = [*r].into(), _ => () }
            }
        }
    }

    async fn mount(&self, c: usize, k: String) {
        let want = { let s = self.st.borrow(); if !s.model.contains_key(&k) { NOENT } else if s.mounted.contains_key(&k) { BUSY } else { 0 } };
        let i = self.begin(c, Eff::Nop, format!("mount {k:?}"));
        let start = self.st.borrow().log[i].start;
        let r = self.c.new_fs(&full(&k)).await;
        let (fs, r) = match r { Ok(f) => (Some(f), Ok(None)), Err(e) => (None, Err(errno(e))) };
        if self.settle(i, r, want) && want == 0 {
            let recs = self.inherited(&k, 1, start).into_iter().map(|(p, _)| match p { Some(P::Rec(r)) => r, _ => 17 }).collect();
            let atimes = self.inherited(&k, 0, start).into_iter().map(|(p, _)| match p { Some(P::Atime(r)) => r, _ => true }).collect();
            self.st.borrow_mut().mounted.insert(k, Mounted { fs: fs.unwrap(), recs, atimes });
            self.probe("mounts");
        }
    }

    fn fs(&self, k: &str) -> Option<Arc<Fs>> { self.st.borrow().mounted.get(k).map(|m| m.fs.clone()) }

    async fn write(&self, c: usize, k: String, f: u8, len: u32, pat: u64) {
        let Some(fs) = self.fs(&k) else { return };
        let (recs, have) = { let s = self.st.borrow(); (s.mounted[&k].recs.clone(), s.model[&k].f.contains_key(&f)) };
        let root = fs.root();
        let nm = name_of(f);
        let fdm = if have { match fs.lookup(None, &root.handle(), OsStr::new(&nm)).await { Ok(x) => x, Err(e) => { self.fail("errno", format!("lookup of {nm} in {k}: {}", crate::fsdrive::en(e))); return; } } }
        else {
            let i = self.begin(c, Eff::Mk(k.clone(), f), format!("create file {nm} in {k}"));
            match fs.create(&root.handle(), OsStr::new(&nm), 0o644, 0, 0).await {
                Ok(x) => { self.done(i, true, None); x }
                Err(e) => { self.settle(i, Err(e), 0); return; }
            }
        };
        if !have {
            match fs.getattr(&fdm.handle()).await {
                Ok(ga) if recs.iter().any(|r| ga.blksize == 1 << r) => (),
                Ok(ga) => { self.fail("property", format!("a new file of {k} has a record size of {}, should be 2^ one of {recs:?}", ga.blksize)); return; }
                Err(e) => { self.fail("errno", format!("getattr: {}", crate::fsdrive::en(e))); return; }
            }
        }
        let i = self.begin(c, Eff::Wr(k.clone(), f, len, pat), format!("write {len} to {nm} in {k}"));
        let r = fs.write(&fdm.handle(), 0, &bytes(len, pat)[..], 0).await;
        fs.inactive(fdm).await;
        self.settle(i, r.map(|_| None), 0);
    }

    async fn read(&self, c: usize, k: String, f: u8) {
        let Some(fs) = self.fs(&k) else { return };
        let Some(want) = self.st.borrow().model[&k].f.get(&f).cloned() else { return };
        let atimes = self.st.borrow().mounted[&k].atimes.clone();
        let root = fs.root();
        let nm = name_of(f);
        let i = self.begin(c, Eff::Nop, format!("read {nm} in {k}"));
        let fdm = match fs.lookup(None, &root.handle(), OsStr::new(&nm)).await { Ok(x) => x, Err(e) => { self.settle(i, Err(e), 0); return; } };
        let h = fdm.handle();
        let before = match fs.getattr(&h).await { Ok(g) => g.atime, Err(e) => { self.settle(i, Err(e), 0); return; } };
        simrt::sleep_ns(1_000_000).await;
        let got = match fs.read(&h, 0, want.len() + 10).await { Ok(sg) => crate::fsdrive::flat(&sg), Err(e) => { self.settle(i, Err(e), 0); return; } };
        let after = match fs.getattr(&h).await { Ok(g) => g.atime, Err(e) => { self.settle(i, Err(e), 0); return; } };
        fs.inactive(fdm).await;
        if got != want { self.fail("wrong_data", format!("{nm} in {k} has the wrong contents")); return; }
        if !atimes.contains(&(before != after)) { self.fail("property", format!("reading {nm} in {k} {} its atime, but the property is {atimes:?}", if before == after { "didn't change" } else { "changed" })); return; }
        self.settle(i, Ok(None), 0);
    }

    async fn unlink(&self, c: usize, k: String, f: u8) {
        let Some(fs) = self.fs(&k) else { return };
        if !self.st.borrow().model[&k].f.contains_key(&f) { return; }
        let root = fs.root();
        let nm = name_of(f);
        let i = self.begin(c, Eff::Un(k.clone(), f), format!("unlink {nm} in {k}"));
        let r = fs.unlink(&root.handle(), None, OsStr::new(&nm)).await;
        self.settle(i, r.map(|_| None), 0);
    }

    async fn getx(&self, c: usize, k: String, x: u8) {
        let Some(fs) = self.fs(&k) else { return };
        let want = self.st.borrow().model[&k].x.get(&x).cloned();
        let i = self.begin(c, Eff::Nop, format!("getextattr {x} of {k}"));
        let r = fs.getextattr(&fs.root().handle(), bfffs_core::fs::ExtAttrNamespace::User, OsStr::new(&name_of(x))).await;
        match (r, want) {
            (Ok(d), Some(w)) => if d[..] != w[..] { self.fail("wrong_data", format!("attribute {x} of {k} has the wrong value")) } else { drop(d); self.done(i, true, None) },
            (r, w) => { self.settle(i, r.map(|_| None), if w.is_some() { 0 } else { Error::ENOATTR.into() }); }
        }
    }

    async fn shared(&self, c: usize, kind: SKind, path: String) {
        let start = stamp();
        simrt::with(|w| w.note(|| format!("begin #{start} client {c} shared {kind:?} {path}")));
        let f = format!("{POOL}/s/{path}");
        let i = { let mut s = self.st.borrow_mut(); if s.sh.len() >= 60 { return; } s.nops += 1; s.sh.push(ShOp { start, end: None, kind: kind.clone(), path: path.clone(), res: None }); s.sh.len() - 1 };
        let r = match kind {
            SKind::Create => self.c.create_fs(&f).await.map(drop),
            SKind::Destroy => self.c.destroy_fs(&f).await,
            SKind::Look => self.c.get_prop(f.clone(), PropertyName::Name).await.map(drop),
        };
        let e = r.err().map(errno).unwrap_or(0);
        let end = stamp();
        { let mut s = self.st.borrow_mut(); s.sh[i].end = Some(end); s.sh[i].res = Some(e); }
        if ![0, NOENT, EXIST, BUSY].contains(&e) { self.fail("errno", format!("shared {kind:?} {path} returned {}", crate::fsdrive::en(e))); }
    }

    async fn bad(&self, c: usize, n: u8, name: String) {
        let i = self.begin(c, Eff::Nop, format!("{} of the nonexistent {name}", ["create", "destroy", "get", "set", "mount", "list"][n as usize % 6]));
        let empty = name.ends_with('/') || name.contains("//");
        let r = match n % 6 {
            0 => self.c.create_fs(&name).await.map(drop),
            1 => self.c.destroy_fs(&name).await,
            2 => self.c.get_prop(name, PropertyName::Atime).await.map(drop),
            3 => self.c.set_prop(&name, Property::Atime(false)).await,
            4 => self.c.new_fs(&name).await.map(drop),
            _ => { let s = self.c.list_fs(&name, None); futures::pin_mut!(s); match s.next().await { Some(Err(e)) => Err(e), _ => Ok(()) } }
        };
        // Names with empty components may be invalid rather than nonexistent
        let r = r.map(|_| None).map_err(errno);
        let want = match r { Err(libc::EINVAL) if empty => libc::EINVAL, _ => NOENT };
        self.settle(i, r, want);
    }

    async fn op(&self, c: usize, op: DOp) {
        match op {
            DOp::Create(p) => { let k = key(c, &p); let f = full(&k); self.create(c, k, f).await }
            DOp::RootCreate => if c == 0 { self.create(c, String::new(), POOL.to_string()).await },
            DOp::Destroy(p) => {
                let k = key(c, &p);
                let want = { let s = self.st.borrow(); if !s.model.contains_key(&k) { NOENT } else if s.mounted.contains_key(&k) || s.model.keys().any(|x| parent_of(x) == Some(&k)) { BUSY } else { 0 } };
                let i = self.begin(c, if want == 0 { Eff::Destroy(k.clone()) } else { Eff::Nop }, format!("destroy {k}"));
                if want == 0 { self.st.borrow_mut().dying.insert(k.clone()); self.probe("destroys"); }
                let r = self.c.destroy_fs(&full(&k)).await;
                self.settle(i, r.map(|_| None).map_err(errno), want);
                self.st.borrow_mut().dying.remove(&k);
            }
            DOp::Set(p, v) => self.set(c, key(c, &p), v).await,
            DOp::RootSet(v) => if c == 0 { self.set(c, String::new(), v).await },
            DOp::Get(p, kind) => self.get(c, key(c, &p), kind).await,
            DOp::RootGet(kind) => self.get(c, String::new(), kind).await,
            DOp::Name(p) => {
                let k = key(c, &p);
                let want = if self.st.borrow().model.contains_key(&k) { 0 } else { NOENT };
                let i = self.begin(c, Eff::Nop, format!("get name of {k}"));
                let r = self.c.get_prop(full(&k), PropertyName::Name).await;
                if let Ok((p, s)) = &r { if *p != Property::Name(full(&k)) || *s != PropertySource::None { let m = format!("the name of {k} is {p:?} from {s:?}"); self.fail("property", m); return; } }
                self.settle(i, r.map(|_| None).map_err(errno), want);
            }
            DOp::List(p, chunk) => self.list(c, key(c, &p), chunk).await,
            DOp::RootList(chunk) => self.list(c, String::new(), chunk).await,
            DOp::Mount(p) => self.mount(c, key(c, &p)).await,
            DOp::Unmount(p) => { let m = self.st.borrow_mut().mounted.remove(&key(c, &p)); drop(m); }
            DOp::Put(p, x, l, pat) => {
                let k = key(c, &p);
                let Some(fs) = self.fs(&k) else { return };
                let i = self.begin(c, Eff::Put(k.clone(), x, l, pat), format!("setextattr {x} of {k}"));
                let r = fs.setextattr(&fs.root().handle(), bfffs_core::fs::ExtAttrNamespace::User, OsStr::new(&name_of(x)), &bytes(l, pat)).await;
                self.settle(i, r.map(|_| None), 0);
            }
            DOp::GetX(p, x) => self.getx(c, key(c, &p), x).await,
            DOp::Write(p, f, l, pat) => self.write(c, key(c, &p), f, l, pat).await,
            DOp::Read(p, f) => self.read(c, key(c, &p), f).await,
            DOp::Unlink(p, f) => self.unlink(c, key(c, &p), f).await,
            DOp::Bad(n, name) => self.bad(c, n, name).await,
            DOp::SCreate(p) => self.shared(c, SKind::Create, p).await,
            DOp::SDestroy(p) => self.shared(c, SKind::Destroy, p).await,
            DOp::SLook(p) => self.shared(c, SKind::Look, p).await,
            DOp::Sync => { self.sync().await; }
            DOp::Clean => { if let Ok(rx) = self.c.clean(POOL) { let _ = rx.await; self.probe("clean"); } }
            DOp::DropCache => self.c.drop_cache(),
            DOp::Sleep(ms) => simrt::sleep_ns(ms as u64 * 1_000_000).await,
            DOp::Crash => { simrt::with(|w| { w.fault_fired("crash"); w.crash() }); simrt::yield_now().await; }
        }
    }

    async fn sync(&self) -> bool {
        let t = stamp();
        simrt::with(|w| w.note(|| format!("begin #{t} sync")));
        match self.c.sync_transaction().await {
            Ok(()) => { let mut s = self.st.borrow_mut(); s.must = s.must.max(t); true }
            Err(e) => { self.fail("errno", format!("sync: {e:?}")); false }
        }
    }
}

// ------------------------------------------------------------- observation

/// The whole state of the pool, as far as its users can tell
async fn observe(c: &Controller) -> Result<Model, String> {
    let mut out = Model::new();
    let mut todo = vec![(String::new(), None)];
    let mut ids = BTreeSet::new();
    while let Some((k, id)) = todo.pop() {
        let mut d = Ds { id, ..Default::default() };
        if let Some(i) = id { if !ids.insert(i) { return Err(format!("two datasets have the id {i}")); } }
        for (i, n) in KINDS.iter().enumerate() {
            match c.get_prop(full(&k), *n).await {
                Ok((p, PropertySource::Set(0))) => { d.props.insert(i as u8, P::of(&p).ok_or_else(|| format!("{n:?} of {k:?} is {p:?}"))?); }
                Ok(_) => (),
                Err(e) => return Err(format!("{n:?} of {k:?}: {e:?}")),
            }
        }
        {
            let s = c.list_fs(&full(&k), None);
            futures::pin_mut!(s);
            while let Some(r) = s.next().await {
                let e = r.map_err(|e| format!("list {k:?}: {e:?}"))?;
                let kk = e.name.strip_prefix(&format!("{POOL}/")).ok_or_else(|| format!("list {k:?} returned {}", e.name))?;
                todo.push((kk.to_string(), Some(e.id.0)));
            }
        }
        let fs = c.new_fs(&full(&k)).await.map_err(|e| format!("mounting {k:?}: {e:?}"))?;
        let root = fs.root();
        let en = crate::fsdrive::en;
        for i in 0..4u8 {
            match fs.getextattr(&root.handle(), bfffs_core::fs::ExtAttrNamespace::User, OsStr::new(&name_of(i))).await {
                Ok(v) => { d.x.insert(i, v[..].to_vec()); }
                Err(e) if e == Error::ENOATTR as i32 => (),
                Err(e) => return Err(format!("getextattr of {k:?}: {}", en(e))),
            }
            match fs.lookup(None, &root.handle(), OsStr::new(&name_of(i))).await {
                Ok(fdm) => {
                    let sz = fs.getattr(&fdm.handle()).await.map_err(|e| format!("getattr in {k:?}: {}", en(e)))?.size;
                    let v = fs.read(&fdm.handle(), 0, sz as usize).await.map_err(|e| format!("read in {k:?}: {}", en(e)))?;
                    d.f.insert(i, crate::fsdrive::flat(&v));
                    fs.inactive(fdm).await;
                }
                Err(e) if e == NOENT => (),
                Err(e) => return Err(format!("lookup in {k:?}: {}", en(e))),
            }
        }
        // Nothing else should be there
        let s = fs.readdir(&root.handle(), 0);
        futures::pin_mut!(s);
        let mut n = 0;
        while let Some(r) = s.next().await { r.map_err(|e| format!("readdir of {k:?}: {}", en(e)))?; n += 1; }
        if n != d.f.len() + 2 { return Err(format!("{k:?} has {n} directory entries, should be {}", d.f.len() + 2)); }
        out.insert(k, d);
    }
    Ok(out)
}

fn owner(k: &str) -> Option<usize> {
    if k.is_empty() { return Some(0); }
    let top = k.split('/').next().unwrap();
    top.strip_prefix('c').and_then(|n| n.parse().ok())
}

fn part(m: &Model, c: usize) -> Model { m.iter().filter(|(k, _)| owner(k) == Some(c)).map(|(k, d)| (k.clone(), d.clone())).collect() }

/// How does the state observed differ from the one wanted?
fn diff(have: &Model, want: &Model) -> Option<String> {
    for (k, w) in want {
        let Some(h) = have.get(k) else { return Some(format!("{k:?} is missing")) };
        if w.id.is_some() && h.id.is_some() && w.id != h.id { return Some(format!("{k:?} has the id {:?}, should be {:?}", h.id, w.id)); }
        if h.props != w.props { return Some(format!("{k:?} has the properties {:?}, should be {:?}", h.props, w.props)); }
        for i in 0..4u8 {
            if h.x.get(&i) != w.x.get(&i) { return Some(format!("attribute {i} of {k:?} is wrong: {:?} bytes, should be {:?}", h.x.get(&i).map(|v| v.len()), w.x.get(&i).map(|v| v.len()))); }
            if h.f.get(&i) != w.f.get(&i) { return Some(format!("file {i} of {k:?} is wrong: {:?} bytes, should be {:?}", h.f.get(&i).map(|v| v.len()), w.f.get(&i).map(|v| v.len()))); }
        }
    }
    have.keys().find(|k| !want.contains_key(*k)).map(|k| format!("{k:?} shouldn't exist"))
}

fn shared_of(m: &Model) -> BTreeSet<String> { m.keys().filter_map(|k| k.strip_prefix("s/")).map(|s| s.to_string()).collect() }

struct Past { base: Model, log: Vec<LogE>, sh: Vec<ShOp>, shbase: BTreeSet<String>, must: u64 }

/// Is the recovered state that of some moment since the last sync?
fn recovered(p: &Past, obs: &Model) -> Result<(), String> {
    let mut taus: BTreeSet<u64> = [p.must, u64::MAX].into();
    for l in &p.log { taus.insert(l.start); if let Some(e) = l.end { taus.insert(e); } }
    for l in &p.sh { taus.insert(l.start); if let Some(e) = l.end { taus.insert(e); } }
    let sh = shared_of(obs);
    if !obs.contains_key("s") { return Err("the dataset \"s\" is missing".into()); }
    let clients: BTreeSet<usize> = p.base.keys().chain(obs.keys()).filter_map(|k| owner(k)).chain(p.log.iter().map(|l| l.client)).collect();
    let mut why = String::new();
    'tau: for tau in taus.into_iter().rev() {
        if tau < p.must { break; }
        for c in &clients {
            let mut m = part(&p.base, *c);
            let have = part(obs, *c);
            let mut doubt = None;
            for l in p.log.iter().filter(|l| l.client == *c && l.start < tau) {
                if l.end.map(|e| e <= tau).unwrap_or(false) {
                    apply(&mut m, &l.eff);
                    if let (Eff::Create(k), Some(id)) = (&l.eff, l.id) { m.get_mut(k).unwrap().id = Some(id); }
                } else { doubt = Some(&l.eff); }
            }
            if let Some(d) = diff(&have, &m) {
                if let Some(e) = doubt { apply(&mut m, e); if diff(&have, &m).is_none() { continue; } }
                if why.is_empty() { why = d; }
                continue 'tau;
            }
        }
        if !reach(&p.shbase, &p.sh, tau).contains(&sh) { if why.is_empty() { why = format!("the shared datasets are {sh:?}"); } continue; }
        return Ok(());
    }
    let changes: Vec<_> = p.log.iter().filter(|l| !matches!(l.eff, Eff::Nop)).collect();
    let tail: Vec<String> = changes.iter().rev().take(6).rev().map(|l| format!("#{}..{} client {} {}", l.start, l.end.map(|x| x.to_string()).unwrap_or("?".into()), l.client, l.what)).collect();
    Err(format!("no moment of the history since the last sync matches: {why} [must>={}; last changes: {}]", p.must, tail.join("; ")))
}

// --------------------------------------------------------------------- run

struct Out { st: Option<Rc<RefCell<St>>>, err: Option<(String, String)>, finished: bool, recovered: bool }

async fn lifetime(p: DPlan, ep: DEpoch, paths: Vec<std::path::PathBuf>, past: Cell<Option<Past>>, out: Cell<Out>, verify_only: bool) {
    bfffs_core::tree::dst::set_max_fanout(p.fanout);
    macro_rules! bail { ($k:expr, $($a:tt)*) => {{ out.borrow_mut().err = Some(($k.to_string(), format!($($a)*))); return; }} }
    let arm = |k: u64| simrt::with(|w| { let io = w.io_count + k; w.cfg.faults.push(FaultAt { io, disk: None, fault: Fault::Crash }) });
    if let Some(k) = ep.crash_early { arm(k); }
    let fresh = past.borrow().is_none();
    let c = if fresh {
        let c = Controller::new(create_db(&p.geo, &paths, p.sizing.cache));
        for n in [POOL.to_string(), format!("{POOL}/s")] {
            if let Err(e) = c.create_fs(&n).await { bail!("errno", "creating {n}: {e:?}") }
        }
        if let Err(e) = c.sync_transaction().await { bail!("errno", "sync: {e:?}") }
        c
    } else {
        let db = match import_db(&paths, &p.sizing).await { Ok(d) => d, Err(e) => bail!("import", "the pool can no longer be imported: {e}") };
        if let Err(e) = accounting(&db).await { bail!("space", "after recovery: {e}") }
        match db.check().await { Ok(true) => (), x => bail!("selfcheck", "after recovery, the consistency check says {x:?}") }
        Controller::new(db)
    };
    let obs = match observe(&c).await { Ok(o) => o, Err(e) => bail!("wrong_state", "{}: {e}", if fresh { "new pool" } else { "after recovery" }) };
    if let Some(p0) = past.borrow().as_ref() {
        if let Err(e) = recovered(p0, &obs) { bail!("bad_recovery", "{e}") }
        out.borrow_mut().recovered = true;
    }
    let d = Drive { c: Rc::new(c), st: Rc::new(RefCell::new(St { base: obs.clone(), shbase: shared_of(&obs), model: obs.into_iter().filter(|(k, _)| owner(k).is_some()).collect(), ..Default::default() })) };
    out.borrow_mut().st = Some(d.st.clone());
    if verify_only { return; }
    if let Some(k) = ep.crash { arm(k); }
    let left = cell(ep.clients.len());
    for (i, ops) in ep.clients.iter().cloned().enumerate() {
        let (d, left) = (d.clone(), left.clone());
        simrt::spawn(async move {
            for op in ops { d.op(i, op).await; }
            *left.borrow_mut() -= 1;
        });
    }
    while *left.borrow() > 0 { simrt::sleep_ns(10_000_000).await; }
    if ep.fin == "none" { out.borrow_mut().finished = true; return; }
    let m = std::mem::take(&mut d.st.borrow_mut().mounted);
    drop(m);
    for when in ["after the workload", "after the final sync"] {
        let obs = match observe(&d.c).await { Ok(o) => o, Err(e) => { d.fail("wrong_state", format!("{when}: {e}")); return; } };
        let r = {
            let s = d.st.borrow();
            diff(&obs.iter().filter(|(k, _)| owner(k).is_some()).map(|(k, d)| (k.clone(), d.clone())).collect(), &s.model)
                .or_else(|| { let r = reach(&s.shbase, &s.sh, u64::MAX); if r.contains(&shared_of(&obs)) { None } else { Some(format!("no order of the operations on shared datasets explains their results and the outcome {:?}: {:?}", shared_of(&obs), s.sh)) } })
        };
        if let Some(e) = r { d.fail("wrong_state", format!("{when}: {e}")); return; }
        if !d.sync().await { return; }
        d.c.drop_cache();
    }
    match d.c.check().await { Ok(true) => (), x => d.fail("selfcheck", format!("at the end, the consistency check says {x:?}")) }
    d.sync().await;
    d.st.borrow_mut().must = u64::MAX;
    out.borrow_mut().finished = true;
}

pub fn run(plan: &Value, ctx: &mut Ctx) {
    let p: DPlan = serde_json::from_value(plan.clone()).expect("bad plan");
    let rig = Rig::new(ctx, &p.geo);
    let mut past: Option<Past> = None;
    let mut crng = Rng::stream(p.seed, "crashes");
    let n = p.epochs.len();
    for e in 0..=n {
        let ep = p.epochs.get(e).cloned().unwrap_or(DEpoch { mode: "Random".into(), fin: "verify".into(), ..Default::default() });
        if e == n && past.is_none() { break; }
        let mut cfg = p.sched.config(p.seed, &format!("e{e}"));
        cfg.trace = ctx.trace;
        cfg.clock_base_s += e as i64 * 4000;
        let out = cell(Out { st: None, err: None, finished: false, recovered: false });
        let pastbox = cell(past.take());
        let (o2, p2, ep2, paths, past2) = (out.clone(), p.clone(), ep.clone(), rig.paths.clone(), pastbox.clone());
        let r = simrt::run(cfg, &rig.disks, move || async move { lifetime(p2, ep2, paths, past2, o2, e == n).await });
        ctx.rep.absorb(&r);
        past = pastbox.borrow_mut().take();
        let mut o = out.borrow_mut();
        if let Some((k, m)) = o.err.take() { ctx.rep.fail(&k, format!("epoch {e}: {m}")); }
        if let Some(s) = &o.st {
            let mut s = s.borrow_mut();
            if let Some((k, m)) = s.fail.take() { ctx.rep.fail(&k, format!("epoch {e}: {m}")); }
            for (k, v) in &s.probes { ctx.rep.probe_n(k, *v); }
            ctx.rep.probe_n("ops", s.nops);
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for (k, d) in &s.model { k.hash(&mut h); d.props.hash(&mut h); d.x.hash(&mut h); d.f.hash(&mut h); }
            ctx.rep.sigs.push(h.finish());
            if s.sh.len() > 1 && !matches!(r.outcome, Outcome::Crashed) { ctx.rep.probe("shared"); }
        }
        ctx.rep.judge(&r, &format!("epoch {e}"));
        if ctx.rep.failed() { std::mem::forget(o.st.take()); return; }
        if o.recovered { ctx.rep.probe("recoveries"); }
        if let Some(st) = o.st.take() {
            {
                let mut s = st.borrow_mut();
                past = Some(Past { base: s.base.clone(), log: std::mem::take(&mut s.log), sh: s.sh.clone(), shbase: s.shbase.clone(), must: s.must });
            }
            std::mem::forget(st);
        } else if past.is_none() && e < n { return; }
        let crashed = matches!(r.outcome, Outcome::Crashed);
        if crashed || ep.fin == "none" {
            let (_, l, t) = rig.crash(crash_mode(&ep.mode), &mut crng);
            ctx.rep.probe("crashes");
            if l > 0 { ctx.rep.probe("crash_lost_writes"); *ctx.rep.faults.entry("lost_blocks".into()).or_default() += l; }
            if t > 0 { *ctx.rep.faults.entry("torn_blocks".into()).or_default() += t; }
            ctx.rep.nontrivial = true;
        } else { rig.crash(crash_mode(&ep.mode), &mut crng); }
        if ep.clients.len() > 1 { ctx.rep.nontrivial = true; }
    }
}

// -------------------------------------------------------------- generation

fn gen_path(r: &mut Rng) -> String {
    const N: [&str; 4] = ["a", "b", "home", "a-much-longer-name-with.dots_and:colons"];
    match r.below(10) {
        0 | 1 => String::new(),
        2..=6 => r.pick(&N).to_string(),
        7 | 8 => format!("{}/{}", r.pick(&N[..2]), r.pick(&N)),
        _ => format!("{}/{}/{}", r.pick(&N[..2]), r.pick(&N[..2]), r.pick(&N[..2])),
    }
}

fn gen_p(r: &mut Rng) -> P {
    match r.below(3) {
        0 => P::Atime(r.chance(0.5)),
        1 => P::Rec(r.range(12, 20) as u8),
        _ => P::Mnt(r.pick(&["/mnt", "/", "/a/b", "relative", "", "/mnt/x y"]).to_string()),
    }
}

fn gen_dop(r: &mut Rng, sync: f64, shared: f64) -> DOp {
    if r.chance(sync) { return DOp::Sync; }
    if r.chance(shared) {
        let p = r.pick(&["x", "y", "x/p", "x/q"]).to_string();
        return match r.below(8) { 0..=3 => DOp::SCreate(p), 4..=6 => DOp::SDestroy(p), _ => DOp::SLook(p) };
    }
    let p = gen_path(r);
    let f = r.below(4) as u8;
    let len = |r: &mut Rng| match r.below(4) { 0 => 1 + r.below(100) as u32, 1 => 4096, 2 => 1 + r.below(20000) as u32, _ => 1 + r.below(60000) as u32 };
    match r.weighted(&[14, 8, 8, 8, 2, 5, 10, 5, 5, 4, 10, 6, 2, 2, 2, 2, 1, 2, 1, 1, 2]) {
        0 => DOp::Create(p), 1 => DOp::Destroy(p), 2 => DOp::Set(p, gen_p(r)), 3 => DOp::Get(p, r.below(3) as u8), 4 => DOp::Name(p),
        5 => DOp::List(p, r.below(3) as u32), 6 => DOp::Mount(p), 7 => DOp::Unmount(p),
        8 => { let l = if r.chance(0.2) { len(r).min(30000) } else { 1 + r.below(200) as u32 }; DOp::Put(p, f, l, r.u64() >> 11) }
        9 => DOp::GetX(p, f), 10 => { let l = len(r); DOp::Write(p, f, l, r.u64() >> 11) }, 11 => DOp::Read(p, f), 12 => DOp::Unlink(p, f),
        13 => DOp::RootSet(gen_p(r)), 14 => DOp::RootGet(r.below(3) as u8), 15 => DOp::RootList(r.below(3) as u32), 16 => DOp::RootCreate,
        17 => DOp::Bad(r.below(6) as u8, r.pick(&["nopool", "nopool/a", "testpool//a", "testpool/c0/", "testpool/c0//a", "testpoolx", "testpoolx/a", "testpoo", "testpool/nonesuch/a"]).to_string()),
        18 => DOp::Clean, 19 => DOp::DropCache, _ => DOp::Sleep(r.below(3000) as u32),
    }
}

pub fn gen(seed: u64, tier: Tier) -> Value {
    let mut r = Rng::stream(seed, "plan");
    let mut b = crate::scen_fs::base_plan(&mut r, seed);
    crate::scen_fs::vary(&mut b, &mut r);
    let mut p = DPlan { seed, geo: b.geo, sizing: b.sizing, sched: b.sched, fanout: b.fanout, epochs: vec![] };
    let ne = r.range(1, if tier == Tier::Quick { 3 } else { 5 });
    for _ in 0..ne {
        let nc = r.range(1, 4) as usize;
        let sync = *r.pick(&[0.0, 0.03, 0.1]);
        let shared = *r.pick(&[0.0, 0.1, 0.4]);
        let nops = r.range(5, if tier == Tier::Quick { 40 } else { 100 });
        // Nothing can be done until the top dataset exists
        let clients: Vec<Vec<DOp>> = (0..nc).map(|_| {
            let mut v = if r.chance(0.8) { vec![DOp::Create(String::new()), DOp::Mount(String::new())] } else { vec![] };
            v.extend((0..nops).map(|_| gen_dop(&mut r, sync, shared)));
            v
        }).collect();
        let mut e = DEpoch { clients, crash: None, crash_early: None, mode: pick_crash_mode(&mut r), fin: r.pick(&["sync", "sync", "none"]).to_string() };
        match r.below(5) {
            0 | 1 => e.crash = Some(r.below(*r.clone().pick(&[10, 50, 200, 500]))),
            2 if !p.epochs.is_empty() => e.crash_early = Some(r.below(60)),
            3 => { let c = r.below(nc as u64) as usize; let l = e.clients[c].len() as u64; let at = r.below(l + 1) as usize; e.clients[c].insert(at, DOp::Crash) }
            _ => ()
        }
        p.epochs.push(e);
    }
    serde_json::to_value(&p).unwrap()
}
