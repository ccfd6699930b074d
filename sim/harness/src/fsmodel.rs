//! A small executable reference model of a POSIX file system.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub type Ino = u64;
/// nanoseconds since 1970
pub type Ns = i64;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Reg(Arc<Vec<u8>>),
    Dir { ents: BTreeMap<String, Ino>, parent: Ino },
    Link(String),
    Fifo, Sock, Chr(u32), Blk(u32),
}

impl Kind {
    pub fn dtype(&self) -> u8 {
        match self { Kind::Reg(_) => 8, Kind::Dir { .. } => 4, Kind::Link(_) => 10, Kind::Fifo => 1, Kind::Sock => 12, Kind::Chr(_) => 2, Kind::Blk(_) => 6 }
    }
    pub fn name(&self) -> &'static str {
        match self { Kind::Reg(_) => "file", Kind::Dir { .. } => "dir", Kind::Link(_) => "symlink", Kind::Fifo => "fifo", Kind::Sock => "socket", Kind::Chr(_) => "chardev", Kind::Blk(_) => "blockdev" }
    }
}

/// A time known only to lie within a range
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct When { pub lo: Ns, pub hi: Ns }
impl When {
    pub fn at(t: Ns) -> Self { When { lo: t, hi: t } }
    pub fn has(&self, t: Ns) -> bool { self.lo <= t && t <= self.hi }
    pub fn or(&self, o: When) -> When { When { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi) } }
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub perm: u16, pub uid: u32, pub gid: u32, pub nlink: u64,
    pub xattrs: BTreeMap<(u8, String), Arc<Vec<u8>>>,
    pub atime: When, pub mtime: When, pub ctime: When, pub birth: When,
    pub recsize: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub inodes: BTreeMap<Ino, Inode>,
    /// open handles
    pub open: BTreeMap<Ino, u32>,
}

pub const ROOT: Ino = 1;

/// What an operation does to the file system
#[derive(Clone, Debug)]
pub enum Eff {
    Nop,
    Create { parent: Ino, name: String, ino: Ino, kind: Kind, perm: u16, uid: u32, gid: u32, recsize: u32 },
    Unlink { parent: Ino, name: String, keep: bool },
    Inactive { ino: Ino },
    Rmdir { parent: Ino, name: String },
    Rename { p1: Ino, n1: String, p2: Ino, n2: String },
    Link { parent: Ino, name: String, ino: Ino },
    Write { ino: Ino, off: u64, data: Arc<Vec<u8>> },
    Trunc { ino: Ino, size: u64, mtime: bool },
    Dealloc { ino: Ino, off: u64, len: u64 },
    SetAttr { ino: Ino, perm: Option<u16>, uid: Option<u32>, gid: Option<u32>, atime: Option<Ns>, mtime: Option<Ns>, birth: Option<Ns>, size: Option<u64> },
    SetX { ino: Ino, ns: u8, name: String, val: Arc<Vec<u8>> },
    DelX { ino: Ino, ns: u8, name: String },
    Atime { ino: Ino },
    /// A full scan may have updated anything
    AtimeAll,
}

#[derive(Clone, Debug)]
pub struct LogOp { pub start: u64, pub end: Option<u64>, pub w: When, pub eff: Eff, pub what: String, pub sync: bool, pub t_end: u64 }

impl Model {
    pub fn dirs(&self) -> Vec<Ino> {
        self.inodes.iter().filter(|(_, i)| matches!(i.kind, Kind::Dir { .. })).map(|(k, _)| *k).collect()
    }
    pub fn files(&self) -> Vec<Ino> {
        self.inodes.iter().filter(|(_, i)| matches!(i.kind, Kind::Reg(_))).map(|(k, _)| *k).collect()
    }
    pub fn all(&self) -> Vec<Ino> { self.inodes.keys().copied().collect() }
    pub fn ents(&self, d: Ino) -> Option<&BTreeMap<String, Ino>> {
        match &self.inodes.get(&d)?.kind { Kind::Dir { ents, .. } => Some(ents), _ => None }
    }
    fn ents_mut(&mut self, d: Ino) -> &mut BTreeMap<String, Ino> {
        match &mut self.inodes.get_mut(&d).expect("model: no such dir").kind { Kind::Dir { ents, .. } => ents, _ => panic!("model: not a dir") }
    }
    pub fn lookup(&self, d: Ino, n: &str) -> Option<Ino> { self.ents(d)?.get(n).copied() }
    pub fn parent_of(&self, d: Ino) -> Option<Ino> {
        match &self.inodes.get(&d)?.kind { Kind::Dir { parent, .. } if d != ROOT => Some(*parent), _ => None }
    }
    pub fn data(&self, f: Ino) -> Option<&Arc<Vec<u8>>> {
        match &self.inodes.get(&f)?.kind { Kind::Reg(d) => Some(d), _ => None }
    }
    /// is `a` equal to or an ancestor of `b`?
    pub fn is_ancestor(&self, a: Ino, b: Ino) -> bool {
        let mut x = b;
        loop {
            if x == a { return true; }
            match self.parent_of(x) { Some(p) => x = p, None => return false }
        }
    }
    pub fn is_open(&self, i: Ino) -> bool { self.open.get(&i).copied().unwrap_or(0) > 0 }
    fn touch(&mut self, i: Ino, m: bool, c: bool, w: When) {
        let x = self.inodes.get_mut(&i).expect("model: touch");
        if m { x.mtime = w; }
        if c { x.ctime = w; }
    }
    fn drop_link(&mut self, ino: Ino, keep: bool, w: When) {
        let x = self.inodes.get_mut(&ino).expect("model: drop_link");
        x.nlink -= 1;
        x.ctime = w;
        if x.nlink == 0 && !keep { self.inodes.remove(&ino); }
    }

    pub fn apply(&mut self, e: &Eff, w: When) {
        match e {
            Eff::Nop => (),
            Eff::Create { parent, name, ino, kind, perm, uid, gid, recsize } => {
                let isdir = matches!(kind, Kind::Dir { .. });
                let prev = self.inodes.insert(*ino, Inode { kind: kind.clone(), perm: *perm, uid: *uid, gid: *gid,
                    nlink: if isdir { 2 } else { 1 }, xattrs: BTreeMap::new(), atime: w, mtime: w, ctime: w, birth: w, recsize: *recsize });
                assert!(prev.is_none(), "inode number {ino} reused");
                self.ents_mut(*parent).insert(name.clone(), *ino);
                if isdir { self.inodes.get_mut(parent).unwrap().nlink += 1; }
                self.touch(*parent, true, true, w);
            }
            Eff::Unlink { parent, name, keep } => {
                let ino = self.ents_mut(*parent).remove(name).expect("model: unlink");
                self.touch(*parent, true, true, w);
                self.drop_link(ino, *keep, w);
            }
            Eff::Inactive { ino } => {
                if self.inodes.get(ino).map(|i| i.nlink == 0).unwrap_or(false) { self.inodes.remove(ino); }
            }
            Eff::Rmdir { parent, name } => {
                let ino = self.ents_mut(*parent).remove(name).expect("model: rmdir");
                self.inodes.remove(&ino);
                self.inodes.get_mut(parent).unwrap().nlink -= 1;
                self.touch(*parent, true, true, w);
            }
            Eff::Rename { p1, n1, p2, n2 } => {
                let ino = self.ents_mut(*p1).remove(n1).expect("model: rename");
                let old = self.ents_mut(*p2).insert(n2.clone(), ino);
                let isdir = matches!(self.inodes[&ino].kind, Kind::Dir { .. });
                if isdir {
                    self.inodes.get_mut(p1).unwrap().nlink -= 1;
                    if old.is_none() { self.inodes.get_mut(p2).unwrap().nlink += 1; }
                    if let Kind::Dir { parent, .. } = &mut self.inodes.get_mut(&ino).unwrap().kind { *parent = *p2; }
                }
                self.touch(*p1, true, true, w);
                self.touch(*p2, true, true, w);
                // POSIX permits updating the moved inode's ctime
                let x = self.inodes.get_mut(&ino).unwrap();
                x.ctime = x.ctime.or(w);
                if let Some(o) = old {
                    if isdir { self.inodes.remove(&o); } else { self.drop_link(o, false, w); }
                }
            }
            Eff::Link { parent, name, ino } => {
                self.ents_mut(*parent).insert(name.clone(), *ino);
                let x = self.inodes.get_mut(ino).unwrap();
                x.nlink += 1;
                x.ctime = w;
                self.touch(*parent, true, true, w);
            }
            Eff::Write { ino, off, data } => {
                if let Kind::Reg(d) = &mut self.inodes.get_mut(ino).expect("model: write").kind {
                    let d = Arc::make_mut(d);
                    let end = *off as usize + data.len();
                    if d.len() < end { d.resize(end, 0); }
                    d[*off as usize..end].copy_from_slice(data);
                }
                self.touch(*ino, true, true, w);
            }
            Eff::Trunc { ino, size, mtime } => {
                if let Kind::Reg(d) = &mut self.inodes.get_mut(ino).expect("model: trunc").kind {
                    Arc::make_mut(d).resize(*size as usize, 0);
                }
                self.touch(*ino, *mtime, true, w);
            }
            Eff::Dealloc { ino, off, len } => {
                let mut changed = false;
                if let Kind::Reg(d) = &mut self.inodes.get_mut(ino).expect("model: dealloc").kind {
                    let s = (*off as usize).min(d.len());
                    let e = (off.saturating_add(*len)).min(d.len() as u64) as usize;
                    if e > s { changed = true; Arc::make_mut(d)[s..e].fill(0); }
                }
                if changed { self.touch(*ino, true, true, w); }
            }
            Eff::SetAttr { ino, perm, uid, gid, atime, mtime, birth, size } => {
                if let Some(s) = size { self.apply(&Eff::Trunc { ino: *ino, size: *s, mtime: mtime.is_none() }, w); }
                let x = self.inodes.get_mut(ino).expect("model: setattr");
                if let Some(p) = perm { x.perm = *p; }
                if let Some(p) = uid { x.uid = *p; }
                if let Some(p) = gid { x.gid = *p; }
                if let Some(p) = atime { x.atime = When::at(*p); }
                if let Some(p) = mtime { x.mtime = When::at(*p); }
                if let Some(p) = birth { x.birth = When::at(*p); }
                x.ctime = w;
            }
            Eff::SetX { ino, ns, name, val } => {
                let x = self.inodes.get_mut(ino).expect("model: setx");
                x.xattrs.insert((*ns, name.clone()), val.clone());
                x.ctime = x.ctime.or(w);
            }
            Eff::DelX { ino, ns, name } => {
                let x = self.inodes.get_mut(ino).expect("model: delx");
                x.xattrs.remove(&(*ns, name.clone()));
                x.ctime = x.ctime.or(w);
            }
            Eff::AtimeAll => for x in self.inodes.values_mut() { x.atime = x.atime.or(w); },
            Eff::Atime { ino } => {
                if let Some(x) = self.inodes.get_mut(ino) { x.atime = x.atime.or(w); }
            }
        }
    }

    /// Inodes with no links vanish when the machine stops
    pub fn reap(&mut self) {
        self.open.clear();
        self.inodes.retain(|_, i| i.nlink > 0);
    }

    /// Compare with what was really observed, beginning at the roots.
    pub fn diff(&self, o: &Model, times: bool) -> Option<String> {
        let mut map: HashMap<Ino, Ino> = HashMap::new();
        let mut rev: HashMap<Ino, Ino> = HashMap::new();
        let mut stack = vec![(ROOT, ROOT, String::from("/"))];
        while let Some((a, b, path)) = stack.pop() {
            match (map.get(&a), rev.get(&b)) {
                (Some(x), Some(y)) if *x == b && *y == a => continue,
                (None, None) => (),
                _ => return Some(format!("{path}: hard-link structure differs")),
            }
            map.insert(a, b); rev.insert(b, a);
            let (x, y) = (&self.inodes[&a], &o.inodes[&b]);
            if let Some(d) = diff_inode(x, y, times) { return Some(format!("{path}: {d}")); }
            if let (Kind::Dir { ents: ea, .. }, Kind::Dir { ents: eb, .. }) = (&x.kind, &y.kind) {
                for (n, i) in ea {
                    match eb.get(n) {
                        None => return Some(format!("{path}{n} is missing")),
                        Some(j) => stack.push((*i, *j, format!("{path}{n}{}", if matches!(self.inodes[i].kind, Kind::Dir { .. }) { "/" } else { "" }))),
                    }
                }
                if let Some(n) = eb.keys().find(|n| !ea.contains_key(*n)) {
                    return Some(format!("{path}{n} exists, but should not"));
                }
            }
        }
        None
    }

    pub fn sig(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = metrohash::MetroHash64::with_seed(1);
        for (i, n) in &self.inodes {
            h.write_u64(*i); h.write_u64(n.nlink);
            match &n.kind {
                Kind::Reg(d) => h.write(d),
                Kind::Dir { ents, .. } => for (n, i) in ents { h.write(n.as_bytes()); h.write_u64(*i); },
                k => h.write(k.name().as_bytes()),
            }
        }
        h.finish()
    }
}

pub fn first_diff(a: &[u8], b: &[u8]) -> usize { a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())) }

pub fn diff_inode(x: &Inode, y: &Inode, times: bool) -> Option<String> {
    match (&x.kind, &y.kind) {
        (Kind::Reg(a), Kind::Reg(b)) => {
            if a.len() != b.len() { return Some(format!("size is {}, should be {}", b.len(), a.len())); }
            if !Arc::ptr_eq(a, b) && a != b {
                let p = first_diff(a, b);
                return Some(format!("contents differ at offset {p}: {:02x?}, should be {:02x?}", &b[p..(p + 8).min(b.len())], &a[p..(p + 8).min(a.len())]));
            }
        }
        (Kind::Dir { .. }, Kind::Dir { .. }) => (),
        (a, b) => if a != b { return Some(format!("is a {}, should be a {}", b.name(), a.name())); }
    }
    if x.nlink != y.nlink { return Some(format!("link count is {}, should be {}", y.nlink, x.nlink)); }
    if (x.perm, x.uid, x.gid) != (y.perm, y.uid, y.gid) {
        return Some(format!("perm/uid/gid is {:o}/{}/{}, should be {:o}/{}/{}", y.perm, y.uid, y.gid, x.perm, x.uid, x.gid));
    }
    if x.xattrs != y.xattrs {
        let a: BTreeSet<_> = x.xattrs.keys().collect();
        let b: BTreeSet<_> = y.xattrs.keys().collect();
        return Some(if a == b { "an extended attribute's value differs".to_string() }
            else { format!("extended attributes are {b:?}, should be {a:?}") });
    }
    if times {
        for (n, a, b) in [("mtime", x.mtime, y.mtime), ("ctime", x.ctime, y.ctime), ("birthtime", x.birth, y.birth), ("atime", x.atime, y.atime)] {
            if !(b.lo <= a.hi && a.lo <= b.hi) {
                return Some(format!("{n} is {}, should be in {}..={}", b.lo, a.lo, a.hi));
            }
        }
    }
    None
}

/// Every state that a crash may leave, given the history: everything that had
/// finished before the last synced point, anything since, as a consistent cut.
/// Returns None if `obs` is one of them.
pub struct CutSearch<'a> {
    pub base: &'a Model,
    pub log: &'a [LogOp],
    /// Every operation that finished before this stamp must be present
    pub must: u64,
    /// Check timestamps too
    pub times: bool,
}

pub struct CutFound { pub complete: usize, pub in_doubt_kept: usize, pub tried: u64 }

impl CutSearch<'_> {
    pub fn search(&self, obs: &Model) -> Result<CutFound, String> {
        let mut done: Vec<&LogOp> = self.log.iter().filter(|o| o.end.is_some()).collect();
        done.sort_by_key(|o| o.end.unwrap());
        let mut m = self.base.clone();
        let mut tried = 0;
        let mut best: Option<String> = None;
        let mut newest: Option<String> = None;
        for k in 0..=done.len() {
            if k > 0 { m.apply(&done[k - 1].eff, done[k - 1].w); }
            // Is this cut late enough?
            let next_end = done.get(k).map(|o| o.end.unwrap()).unwrap_or(u64::MAX);
            if next_end < self.must { continue; }
            let prev_end = if k > 0 { done[k - 1].end.unwrap() } else { 0 };
            let doubt: Vec<&LogOp> = self.log.iter().filter(|o| {
                o.start < next_end && o.end.map(|e| e > prev_end).unwrap_or(true) && !matches!(o.eff, Eff::Nop)
            }).collect();
            let nd = doubt.len().min(12);
            for mask in 0..(1u32 << nd) {
                tried += 1;
                let mut c;
                let cand = if mask == 0 { &m } else {
                    c = m.clone();
                    for (i, o) in doubt.iter().enumerate().take(nd) {
                        if mask & (1 << i) != 0 { c.apply(&o.eff, o.w); }
                    }
                    &c
                };
                let mut c2 = cand.clone();
                c2.reap();
                match c2.diff(obs, self.times) {
                    None => return Ok(CutFound { complete: k, in_doubt_kept: mask.count_ones() as usize, tried }),
                    Some(d) => { if best.is_none() { best = Some(d.clone()); } newest = Some(d); }
                }
            }
        }
        Err(format!("no consistent cut of the history matches ({tried} tried). Against the oldest allowed: {}; against the newest: {}",
            best.unwrap_or_default(), newest.unwrap_or_default()))
    }
}

/// The names available to a workload.  Includes pairs that collide in the
/// directory hash.
pub const NAMES: &[&str] = &["HsxUh682JQ", "4FatHJ8I6H", "F0jS2Tptj7", "PLe01T116a", "Gg1AG3wll2", "FDCIlvDxYn",
    "a", "b", "c", "d", "e", "f", "g", "h",
    "a-rather-long-name-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and"];
pub const XNAMES: &[(u8, &str)] = &[(1, "BWCdLQkApB"), (2, "D6tLLI4mys"), (1, "D6tLLI4mys"), (1, "foo"), (2, "foo"), (1, "bar"), (1, "longer.attribute.name")];

pub fn name_of(n: u32) -> String {
    let n = n as usize;
    if n < NAMES.len() { NAMES[n].to_string() } else { format!("n{n}") }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { d: u32, n: u32, perm: u16 },
    Mkdir { d: u32, n: u32, perm: u16 },
    Symlink { d: u32, n: u32, t: u32 },
    Mknod { d: u32, n: u32, k: u8 },
    Unlink { d: u32, n: u32, looked_up: bool },
    Rmdir { d: u32, n: u32 },
    Rename { d: u32, n: u32, d2: u32, n2: u32 },
    Link { f: u32, d: u32, n: u32 },
    Write { f: u32, off: u32, len: u32, pat: u32 },
    Append { f: u32, len: u32, pat: u32 },
    Read { f: u32, off: u32, len: u32 },
    Trunc { f: u32, size: u32 },
    Dealloc { f: u32, off: u32, len: u32 },
    Lseek { f: u32, off: u32, hole: bool },
    SetAttr { f: u32, what: u8, v: u32 },
    GetAttr { f: u32 },
    SetX { f: u32, x: u32, len: u32, pat: u32 },
    GetX { f: u32, x: u32 },
    ListX { f: u32 },
    DelX { f: u32, x: u32 },
    Readdir { d: u32, chunk: u32 },
    Lookup { d: u32, n: u32 },
    Open { f: u32 },
    Close { h: u32 },
    Fsync { f: u32 },
    Sync,
    Sleep { ms: u32 },
    Statvfs,
    DropCache,
    Clean,
    Crash,
    /// Make many files at once
    Bulk { d: u32, n: u32, count: u32, len: u32 },
    /// Remove many files at once
    BulkRm { d: u32, n: u32, count: u32 },
    /// Rename onto a name whose file is open
    RenameOverOpen { d: u32, n: u32 },
}

pub fn pattern(pat: u32, off: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    match pat % 4 {
        // Compressible
        0 => { let b = (pat >> 2) as u8 | 1; v.resize(len, b); }
        _ => {
            let mut i = off;
            while v.len() < len {
                let mut z = (i / 8).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((pat as u64) << 20);
                z = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z ^= z >> 32;
                let b = z.to_le_bytes();
                let s = (i % 8) as usize;
                let n = (8 - s).min(len - v.len());
                v.extend_from_slice(&b[s..s + n]);
                i += n as u64;
            }
        }
    }
    v
}
