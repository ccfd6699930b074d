//! Clients of a simulated, mounted file system.  Every operation is checked
//! against the reference model; the history is kept for the crash oracle.
use crate::fsmodel::*;
use crate::kfs::*;
use bfffs_core::database::Database;
use bfffs_core::fs::{ExtAttrNamespace, FileData, FileDataMut, Fs, GetAttr, SeekWhence, SetAttr, Timespec};
use futures::StreamExt;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Poll, Waker};

pub fn now() -> Ns { let (s, n) = simrt::realtime(); s * 1_000_000_000 + n }
fn ns_of(t: Timespec) -> Ns { t.sec * 1_000_000_000 + t.nsec as i64 }
fn ts_of(n: Ns) -> Timespec { Timespec { sec: n.div_euclid(1_000_000_000), nsec: n.rem_euclid(1_000_000_000) as u32 } }
pub fn stamp() -> u64 { simrt::with(|w| w.stamp()) }

// ---------------------------------------------------------------- locks

/// What the kernel's vnode locks provide
#[derive(Default)]
struct Locks {
    held: BTreeMap<u64, Vec<(Ino, bool)>>,
    queue: Vec<(u64, Vec<(Ino, bool)>, Option<Waker>)>,
    next: u64,
}

fn conflict(a: &[(Ino, bool)], b: &[(Ino, bool)]) -> bool {
    a.iter().any(|(i, x)| b.iter().any(|(j, y)| i == j && (*x || *y)))
}

pub struct Guard(u64, Rc<RefCell<St>>);
impl Drop for Guard {
    fn drop(&mut self) {
        let mut st = self.1.borrow_mut();
        st.locks.held.remove(&self.0);
        st.locks.grant();
    }
}

impl Locks {
    fn grant(&mut self) {
        let mut i = 0;
        while i < self.queue.len() {
            let ok = {
                let want = &self.queue[i].1;
                !self.held.values().any(|h| conflict(h, want)) && !self.queue[..i].iter().any(|q| conflict(&q.1, want))
            };
            if ok {
                let (id, l, w) = self.queue.remove(i);
                self.held.insert(id, l);
                if let Some(w) = w { w.wake(); }
            } else { i += 1; }
        }
    }
}

pub async fn lock(st: &Rc<RefCell<St>>, mut set: Vec<(Ino, bool)>) -> Guard {
    set.sort(); set.dedup();
    let id = {
        let mut s = st.borrow_mut();
        let id = s.locks.next;
        s.locks.next += 1;
        s.locks.queue.push((id, set, None));
        s.locks.grant();
        id
    };
    let st2 = st.clone();
    std::future::poll_fn(move |cx| {
        let mut s = st2.borrow_mut();
        if s.locks.held.contains_key(&id) { return Poll::Ready(()); }
        if let Some(q) = s.locks.queue.iter_mut().find(|q| q.0 == id) { q.2 = Some(cx.waker().clone()); }
        Poll::Pending
    }).await;
    Guard(id, st.clone())
}

/// A lock that isn't any inode's
const RENAMES: Ino = u64::MAX;

// ---------------------------------------------------------------- state

#[derive(Default)]
pub struct St {
    pub base: Model,
    pub model: Model,
    pub log: Vec<LogOp>,
    /// every operation that finished before this stamp is durable
    pub must: u64,
    locks: Locks,
    handles: Vec<Ino>,
    pub fail: Option<(String, String)>,
    pub probes: BTreeMap<String, u64>,
    next_tmp: u64,
    /// inode allocations known, for lifetime uniqueness
    pub recexp: u8,
    pub atime: bool,
    /// (stamp, dir, name, added) - history of directory entries
    dirhist: Vec<(u64, Ino, String, bool)>,
    /// operations whose failure with these errors is acceptable
    pub allow: Vec<i32>,
    pub nops: u64,
    /// Once an operation has failed half way its effects are unknown
    pub tainted: BTreeSet<Ino>,
    pub readback: bool,
    pub buckets: bool,
    /// The first error stops the machine, rather than being a violation
    pub fail_stop: bool,
}

impl St {
    /// Could this be locked at once?
    pub fn free(&self, i: Ino) -> bool {
        let w = [(i, true)];
        !self.locks.held.values().any(|h| conflict(h, &w)) && !self.locks.queue.iter().any(|q| conflict(&q.1, &w))
    }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_default() += 1; }
}

#[derive(Clone)]
pub struct Drive { pub fs: Arc<Fs>, pub be: Be, pub db: Arc<Database>, pub st: Rc<RefCell<St>> }

pub fn fdm(m: &Model, ino: Ino) -> FileDataMut { FileDataMut::new_for_tests(m.parent_of(ino), ino) }
pub fn fd_ino(parent: Option<Ino>, ino: Ino) -> FileData { FileDataMut::new_for_tests(parent, ino).handle() }

/// Stop the world: a violation has been found
pub fn fail(st: &Rc<RefCell<St>>, kind: &str, msg: String) {
    let mut s = st.borrow_mut();
    if s.fail_stop && fault_error(&msg) {
        s.probe("stopped_by_error");
        simrt::with(|w| w.note(|| format!("stopped by {msg}")));
    } else if s.fail.is_none() { s.fail = Some((kind.to_string(), msg)); }
    simrt::with(|w| w.crash());
}

/// Could this error have been caused by a disk's?
pub fn fault_error(msg: &str) -> bool { ["EINTEGRITY", "EIO", "ENXIO", "ENOSPC", "Can't drop credit!"].iter().any(|x| msg.contains(x)) }

fn extns(n: u8) -> ExtAttrNamespace { if n == 1 { ExtAttrNamespace::User } else { ExtAttrNamespace::System } }

pub fn flat(sg: &[divbuf::DivBuf]) -> Vec<u8> {
    let mut v = Vec::new();
    for b in sg { v.extend_from_slice(&b[..]); }
    v
}

pub fn en(e: i32) -> String {
    match e {
        2 => "ENOENT".into(), 5 => "EIO".into(), 6 => "ENXIO".into(), 28 => "ENOSPC".into(), 66 | 39 => "ENOTEMPTY".into(), 17 => "EEXIST".into(),
        87 => "ENOATTR".into(), 97 | 205 => "EINTEGRITY".into(), 22 => "EINVAL".into(), _ => format!("errno {e}")
    }
}

const ENOTEMPTY: i32 = libc::ENOTEMPTY;

/// Stat an inode into the model's form (without contents)
fn inode_of(ga: &GetAttr, kind: Kind) -> Inode {
    Inode { kind, perm: ga.mode.perm(), uid: ga.uid, gid: ga.gid, nlink: ga.nlink, xattrs: BTreeMap::new(),
        atime: When::at(ns_of(ga.atime)), mtime: When::at(ns_of(ga.mtime)), ctime: When::at(ns_of(ga.ctime)),
        birth: When::at(ns_of(ga.birthtime)), recsize: ga.blksize }
}

const FMT: u16 = 0o170000;
fn fmt_of(k: &Kind) -> u16 {
    match k { Kind::Reg(_) => 0o100000, Kind::Dir { .. } => 0o040000, Kind::Link(_) => 0o120000, Kind::Fifo => 0o010000, Kind::Sock => 0o140000, Kind::Chr(_) => 0o020000, Kind::Blk(_) => 0o060000 }
}

fn name_dirent(d: &libcf::dirent) -> String {
    let n = d.d_namlen as usize;
    let b: Vec<u8> = d.d_name[..n].iter().map(|c| *c as u8).collect();
    String::from_utf8_lossy(&b).into_owned()
}
use crate::libcf;

/// Dump one of the database's own trees.  The dumps are only a debugging aid.  They don't
/// tolerate locked nodes.
#[derive(Clone, Copy)]
enum Which { Alloct, Ridt, Forest, Fs(bfffs_core::database::TreeID) }

async fn dump(db: &Database, which: Which) -> Result<String, String> {
    let mut buf: Vec<u8> = Vec::new();
    for i in 0.. {
        buf.clear();
        let f = async {
            match which {
                Which::Alloct => db.dump_alloct(&mut buf).await,
                Which::Ridt => db.dump_ridt(&mut buf).await,
                Which::Forest => db.dump_forest(&mut buf).await,
                Which::Fs(t) => db.dump_fs(&mut buf, t).await,
            }
        };
        match futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(f)).await {
            Ok(Ok(())) => break,
            Ok(Err(e)) => return Err(format!("dump: {e:?}")),
            Err(_) if i < 50 => simrt::sleep_ns(20_000_000).await,
            // A flush may be waiting for a stalled disk
            Err(_) if i < 130 => simrt::sleep_ns(1_000_000_000).await,
            Err(_) => return Err("harness: the tree is always busy".into()),
        }
    }
    let _ = simrt::take_panic();
    Ok(String::from_utf8_lossy(&buf).into_owned())
}

/// Every indirect record must be referred to exactly once, and every reference must be valid.
async fn refcounts(db: &Database) -> Result<(), String> {
    let bad = || "harness: cannot read the dump".to_string();
    let words = |t: &str| -> Vec<String> { t.split_whitespace().map(|w| w.trim_end_matches(',').to_string()).collect() };
    let forest = dump(db, Which::Forest).await?;
    let mut trees = vec![];
    let w = words(&forest);
    for i in 0..w.len() {
        // ForestKey { tree_id: 3 offset: 0 }: Tree Tree {
        if w[i] == "tree_id:" && w.get(i + 4).map(|x| x == "}:").unwrap_or(false) && w.get(i + 5).map(|x| x == "Tree").unwrap_or(false) {
            trees.push(w[i + 1].parse::<u64>().map_err(|_| bad())?);
        }
    }
    if trees.is_empty() { return Err(bad()); }
    let mut texts = vec![forest];
    for t in trees { texts.push(dump(db, Which::Fs(bfffs_core::database::TreeID(t))).await?); }
    let mut refs: BTreeMap<u64, u32> = BTreeMap::new();
    for t in &texts {
        let w = words(t);
        for i in 1..w.len() {
            if w[i - 1] == "Addr" || w[i - 1] == "rid:" { *refs.entry(w[i].parse::<u64>().map_err(|_| bad())?).or_default() += 1; }
        }
    }
    let ridt = words(&dump(db, Which::Ridt).await?);
    let mut have = BTreeSet::new();
    for i in 1..ridt.len() {
        if ridt[i] == "RidtEntry" { have.insert(ridt[i - 1].trim_end_matches(':').parse::<u64>().map_err(|_| bad())?); }
    }
    for (r, n) in &refs {
        if *n > 1 { return Err(format!("{n} references to the record {r}")); }
        if !have.contains(r) { return Err(format!("a reference to the record {r}, which doesn't exist")); }
    }
    let lost: Vec<u64> = have.iter().filter(|r| !refs.contains_key(r)).copied().collect();
    if !lost.is_empty() { return Err(format!("{} records leaked, for example {}: nothing refers to them", lost.len(), lost[0])); }
    Ok(())
}

/// The addresses (cluster, LBA) and sizes of all of the records mentioned in a dump
pub fn drps(text: &str, out: &mut BTreeMap<(u64, u64), u64>) -> Result<(), String> {
    // Each node is mentioned by its parent, and again with its contents
    let mut seen = BTreeSet::new();
    let mut t = text.split_whitespace().map(|w| w.trim_end_matches(','));
    let num = |w: Option<&str>| w.and_then(|w| w.parse::<u64>().ok()).ok_or_else(|| "harness: cannot read the dump".to_string());
    while let Some(w) = t.next() {
        if w != "DRP" { continue; }
        let (mut cluster, mut lba, mut csize, mut checksum) = (None, None, None, None);
        while checksum.is_none() {
            match t.next() {
                Some("cluster:") => cluster = Some(num(t.next())?),
                Some("lba:") => lba = Some(num(t.next())?),
                Some("csize:") => csize = Some(num(t.next())?),
                Some("checksum:") => checksum = Some(num(t.next())?),
                None => return Err("harness: cannot read the dump".into()),
                _ => ()
            }
        }
        if !seen.insert((cluster, lba, csize, checksum)) { continue; }
        let (a, n) = ((cluster.unwrap(), lba.unwrap()), csize.unwrap().div_ceil(4096));
        if out.insert(a, n).is_some() { return Err(format!("two records share LBA {} of cluster {}", a.1, a.0)); }
    }
    Ok(())
}

/// The pool's idea of how much space is used must be exactly what's in use.
pub async fn accounting(db: &Database) -> Result<(), String> {
    let mut i = 0;
    loop {
        let r = accounting_once(db).await;
        // The dumps aren't atomic: a background flush could have moved nodes meanwhile
        if r.is_ok() || i >= 6 { return r; }
        i += 1;
        simrt::sleep_ns(130_000_000 * i).await;
    }
}

async fn accounting_once(db: &Database) -> Result<(), String> {
    let before = db.stat().await.used;
    let mut m = BTreeMap::new();
    drps(&dump(db, Which::Alloct).await?, &mut m)?;
    drps(&dump(db, Which::Ridt).await?, &mut m)?;
    let mut end = (0, 0);
    for ((c, l), n) in &m {
        if *c == end.0 && *l < end.1 { return Err(format!("the record at LBA {l} of cluster {c} overlaps another")); }
        end = (*c, l + n);
    }
    let (want, n) = (m.values().sum::<u64>(), m.len());
    if want == before { refcounts(db).await } else { Err(format!("{before} blocks are accounted as used, but the {n} records present occupy {want}")) }
}

/// Look for objects that nothing refers to, in a dump of the file system's tree.
pub async fn leaks(db: &Database, tree: bfffs_core::database::TreeID, m: &Model) -> Result<(), String> {
    let text = dump(db, Which::Fs(tree)).await?;
    let mut keys: BTreeSet<(u64, u8, u64)> = BTreeSet::new();
    for l in text.lines() {
        // "   1a-2-00000000001000:", a key of a leaf
        let t = l.trim();
        let Some(t) = t.strip_suffix(':') else { continue };
        let p: Vec<&str> = t.split('-').collect();
        if p.len() != 3 || p[2].len() != 14 { continue }
        if let (Ok(o), Ok(ty), Ok(off)) = (u64::from_str_radix(p[0], 16), p[1].parse::<u8>(), u64::from_str_radix(p[2], 16)) { keys.insert((o, ty, off)); }
    }
    // The space that each file is said to use, and uses
    let mut used: BTreeMap<u64, u64> = BTreeMap::new();
    let mut said: BTreeMap<u64, u64> = BTreeMap::new();
    let w: Vec<&str> = text.split_whitespace().collect();
    let mut key = (0, 0);
    for i in 1..w.len() {
        if let Some(t) = w[i].strip_suffix(':') {
            let p: Vec<&str> = t.split('-').collect();
            if p.len() == 3 && p[2].len() == 14 { if let (Ok(o), Ok(ty)) = (u64::from_str_radix(p[0], 16), p[1].parse::<u8>()) { key = (o, ty); continue; } }
        }
        match (key.1, w[i - 1]) {
            (1, "bytes:") => { if let Ok(n) = w[i].parse() { said.insert(key.0, n); } }
            (2, "lsize:") => { if let Ok(n) = w[i].parse::<u64>() { *used.entry(key.0).or_default() += n; } }
            (2, "buf:") => *used.entry(key.0).or_default() += w[i + 1..].iter().take_while(|x| **x != "]").count() as u64,
            _ => ()
        }
    }
    for (o, i) in &m.inodes {
        if !matches!(i.kind, Kind::Reg(_)) { continue; }
        let (s, u) = (said.get(o), used.get(o).copied().unwrap_or(0));
        if s != Some(&u) { return Err(format!("inode {o}'s extents have {u} bytes, but it is said to use {s:?}")); }
    }
    if std::env::var_os("DST_DUMP").is_some() { std::fs::write("/tmp/dumpfs.txt", &text).unwrap(); }
    if keys.len() < m.inodes.len() { return Err(format!("harness: cannot read the dump ({} keys)", keys.len())); }
    let mut dying = 0;
    for (o, ty, off) in &keys {
        if *o == 0 { if *ty == 5 { dying += 1; } continue; }
        let Some(i) = m.inodes.get(o) else { return Err(format!("object {o} still occupies space (key type {ty}, offset {off:#x}), though no file has that inode number")) };
        match (*ty, &i.kind) {
            (1, _) | (3, _) | (0, Kind::Dir { .. }) => (),
            (2, Kind::Reg(d)) => if *off >= d.len() as u64 { return Err(format!("inode {o} still has data at offset {off}, though its size is {}", d.len())); },
            _ => return Err(format!("inode {o} has an item of type {ty}")),
        }
        if *ty == 3 && i.xattrs.is_empty() { return Err(format!("inode {o} still has a deleted extended attribute")); }
    }
    let want = m.inodes.values().filter(|i| i.nlink == 0).count();
    // Inodes whose numbers' hashes collide would be indistinguishable.  They don't.
    if dying != want { return Err(format!("{dying} inodes are recorded as open but deleted, should be {want}")); }
    Ok(())
}

/// Read the entire file system, through its public interface.
pub async fn observe(fs: &Fs) -> Result<Model, String> {
    let mut m = Model::default();
    let mut stack: Vec<(Ino, Ino, String)> = vec![(ROOT, ROOT, "/".into())];
    let mut nondirs: BTreeMap<Ino, String> = BTreeMap::new();
    while let Some((ino, parent, path)) = stack.pop() {
        let fd = fd_ino(if ino == ROOT { None } else { Some(parent) }, ino);
        let ga = fs.getattr(&fd).await.map_err(|e| format!("getattr {path}: {}", en(e)))?;
        if ga.mode.0 & FMT != 0o040000 { return Err(format!("{path}: not a directory")); }
        let mut ents = BTreeMap::new();
        let (mut dot, mut dotdot) = (0, 0);
        let s = fs.readdir(&fd, 0);
        futures::pin_mut!(s);
        let mut list = Vec::new();
        while let Some(r) = s.next().await {
            let d = r.map_err(|e| format!("readdir {path}: {}", en(e)))?;
            list.push((name_dirent(&d), d.d_fileno as u64, d.d_type));
        }
        for (n, i, t) in list {
            if n == "." { dot += 1; if i != ino { return Err(format!("{path}: . refers to inode {i}, not {ino}")); } continue; }
            if n == ".." {
                dotdot += 1;
                if i != parent && ino != ROOT { return Err(format!("{path}: .. refers to inode {i}, not {parent}")); }
                continue;
            }
            let l = fs.lookup(None, &fd, OsStr::new(&n)).await.map_err(|e| format!("lookup {path}{n}: {}", en(e)))?;
            if l.ino() != i { return Err(format!("{path}{n}: lookup says inode {}, readdir says {i}", l.ino())); }
            if ents.insert(n.clone(), i).is_some() { return Err(format!("{path}{n}: listed twice")); }
            if t == 4 {
                if m.inodes.contains_key(&i) || stack.iter().any(|x| x.0 == i) { return Err(format!("{path}{n}: directory linked twice")); }
                stack.push((i, ino, format!("{path}{n}/")));
            } else {
                let ga = fs.getattr(&l.handle()).await.map_err(|e| format!("getattr {path}{n}: {}", en(e)))?;
                let dt = match ga.mode.0 & FMT { 0o100000 => 8, 0o120000 => 10, 0o010000 => 1, 0o140000 => 12, 0o020000 => 2, 0o060000 => 6, _ => 0 };
                if dt != t { return Err(format!("{path}{n}: d_type is {t} but the mode is {:o}", ga.mode.0)); }
                nondirs.insert(i, format!("{path}{n}"));
            }
        }
        if dot != 1 || dotdot != 1 { return Err(format!("{path}: {dot} . entries and {dotdot} .. entries")); }
        let mut x = inode_of(&ga, Kind::Dir { ents, parent });
        x.xattrs = xattrs(fs, &fd, &path).await?;
        m.inodes.insert(ino, x);
    }
    for (i, path) in nondirs {
        let fd = fd_ino(None, i);
        let ga = fs.getattr(&fd).await.map_err(|e| format!("getattr {path}: {}", en(e)))?;
        let kind = match ga.mode.0 & FMT {
            0o100000 => {
                let d = fs.read(&fd, 0, ga.size as usize + 100).await.map_err(|e| format!("read {path}: {}", en(e)))?;
                let v = flat(&d);
                if v.len() as u64 != ga.size { return Err(format!("{path}: size is {} but {} bytes could be read", ga.size, v.len())); }
                Kind::Reg(Arc::new(v))
            }
            0o120000 => Kind::Link(fs.readlink(&fd).await.map_err(|e| format!("readlink {path}: {}", en(e)))?.to_string_lossy().into_owned()),
            0o010000 => Kind::Fifo, 0o140000 => Kind::Sock,
            0o020000 => Kind::Chr(ga.rdev as u32), 0o060000 => Kind::Blk(ga.rdev as u32),
            x => return Err(format!("{path}: bad mode {x:o}")),
        };
        let mut x = inode_of(&ga, kind);
        x.xattrs = xattrs(fs, &fd, &path).await?;
        m.inodes.insert(i, x);
    }
    Ok(m)
}

/// Read the entire file system, which may be damaged.  Errors are fine, but
/// wrong answers aren't.
pub async fn tolerate(fs: &Fs, m: &Model) -> Result<(u64, u64), String> {
    let (mut good, mut bad) = (0, 0);
    macro_rules! get { ($r:expr, $($what:tt)*) => { match $r {
        Ok(x) => { good += 1; Some(x) }
        Err(e) => {
            let e: i32 = e.into();
            if e != libc::EIO && e != libc::ENXIO && e != bfffs_core::Error::EINTEGRITY as i32 { return Err(format!("{}: {}", format!($($what)*), en(e))); }
            bad += 1;
            None
        }
    } } }
    for (ino, x) in &m.inodes {
        if x.nlink == 0 { continue; }
        let ino = *ino;
        let fd = fd_ino(m.parent_of(ino), ino);
        if let Some(ga) = get!(fs.getattr(&fd).await, "getattr {ino}") {
            if let Some(d) = check_attr(ino, x, &ga) { return Err(format!("inode {ino}'s {d}")); }
        }
        match &x.kind {
            Kind::Reg(v) => {
                // Separate reads, so that one bad record doesn't hide the others
                let rs = x.recsize as usize;
                for o in (0..v.len()).step_by(rs) {
                    if let Some(d) = get!(fs.read(&fd, o as u64, rs).await, "read inode {ino} at {o}") {
                        if flat(&d)[..] != v[o..(o + rs).min(v.len())] { return Err(format!("inode {ino}, offset {o}: wrong data")); }
                    }
                }
            }
            Kind::Link(t) => if let Some(l) = get!(fs.readlink(&fd).await, "readlink {ino}") { if l.to_string_lossy() != *t { return Err(format!("inode {ino}: link to {l:?}, should be {t}")); } },
            Kind::Dir { ents, .. } => {
                for (n, i) in ents {
                    if let Some(l) = get!(fs.lookup(None, &fd, OsStr::new(n)).await, "lookup {n} in directory {ino}") {
                        if l.ino() != *i { return Err(format!("directory {ino}: {n} is inode {}, should be {i}", l.ino())); }
                    }
                }
                let s = fs.readdir(&fd, 0);
                futures::pin_mut!(s);
                let mut seen = BTreeSet::new();
                let mut complete = true;
                while let Some(r) = s.next().await {
                    let Some(d) = get!(r, "readdir {ino}") else { complete = false; break };
                    let n = name_dirent(&d);
                    if n == "." || n == ".." { continue; }
                    if ents.get(&n) != Some(&(d.d_fileno as u64)) { return Err(format!("directory {ino} lists {n}, inode {}", d.d_fileno)); }
                    if !seen.insert(n.clone()) { return Err(format!("directory {ino} lists {n} twice")); }
                }
                if complete && seen.len() != ents.len() { return Err(format!("directory {ino} lists only {} of {} entries", seen.len(), ents.len())); }
            }
            _ => ()
        }
        for ((ns, n), v) in &x.xattrs {
            if let Some(d) = get!(fs.getextattr(&fd, extns(*ns), OsStr::new(n)).await, "getextattr {ino} {n}") {
                if d[..] != v[..] { return Err(format!("inode {ino}: extended attribute {n} is wrong")); }
            }
        }
        if let Some(l) = get!(listx(fs, &fd).await, "listextattr {ino}") {
            if l.len() != x.xattrs.len() || l.iter().any(|k| !x.xattrs.contains_key(k)) { return Err(format!("inode {ino}: extended attributes are {l:?}")); }
        }
    }
    Ok((good, bad))
}

async fn listx(fs: &Fs, fd: &FileData) -> Result<Vec<(u8, String)>, i32> {
    let v = fs.listextattr(fd, 1024, |buf, x| {
        let ns = if x.namespace() == ExtAttrNamespace::User { 1u8 } else { 2 };
        buf.push(ns);
        let n = x.name().as_bytes();
        buf.extend_from_slice(&(n.len() as u32).to_le_bytes());
        buf.extend_from_slice(n);
    }).await?;
    let mut r = Vec::new();
    let mut p = 0;
    while p < v.len() {
        let ns = v[p];
        let l = u32::from_le_bytes(v[p + 1..p + 5].try_into().unwrap()) as usize;
        r.push((ns, String::from_utf8_lossy(&v[p + 5..p + 5 + l]).into_owned()));
        p += 5 + l;
    }
    Ok(r)
}

async fn xattrs(fs: &Fs, fd: &FileData, path: &str) -> Result<BTreeMap<(u8, String), Arc<Vec<u8>>>, String> {
    let l = listx(fs, fd).await.map_err(|e| format!("listextattr {path}: {}", en(e)))?;
    let mut m = BTreeMap::new();
    for (ns, n) in l {
        let d = fs.getextattr(fd, extns(ns), OsStr::new(&n)).await.map_err(|e| format!("getextattr {path} {n}: {}", en(e)))?;
        let len = fs.getextattrlen(fd, extns(ns), OsStr::new(&n)).await.map_err(|e| format!("getextattrlen {path} {n}: {}", en(e)))?;
        if len as usize != d.len() { return Err(format!("{path}: extended attribute {n}'s length is {} or {len}", d.len())); }
        if m.insert((ns, n.clone()), Arc::new(d[..].to_vec())).is_some() { return Err(format!("{path}: extended attribute {n} listed twice")); }
    }
    Ok(m)
}

impl Drive {
    pub fn new(fs: Arc<Fs>, db: Arc<Database>, base: Model, recexp: u8) -> Self {
        let st = St { model: base.clone(), base, recexp, ..Default::default() };
        Drive { be: Be::Native(fs.clone()), fs, db, st: Rc::new(RefCell::new(st)) }
    }

    /// Go through the FUSE server
    pub fn mount(&mut self, seed: u64) { self.be = Be::Fuse(Rc::new(Kfs::new(self.fs.clone(), self.st.clone(), seed))); }

    fn fail(&self, kind: &str, msg: String) { fail(&self.st, kind, msg) }
    fn probe(&self, k: &str) { self.st.borrow_mut().probe(k) }

    fn begin(&self, eff: Eff, what: String) -> usize {
        let start = stamp();
        let t = now();
        simrt::with(|w| w.note(|| format!("begin #{start} {what}")));
        let mut s = self.st.borrow_mut();
        s.nops += 1;
        s.log.push(LogOp { start, end: None, w: When { lo: t, hi: i64::MAX }, eff, what, sync: false, t_end: u64::MAX });
        s.log.len() - 1
    }

    /// The operation succeeded, with this effect
    fn commit(&self, i: usize, eff: Option<Eff>) {
        let e = stamp();
        let t = now();
        let tn = simrt::now_ns();
        let mut s = self.st.borrow_mut();
        let s = &mut *s;
        let l = &mut s.log[i];
        l.end = Some(e);
        l.t_end = tn;
        let lo = l.w.lo;
        l.w = When { lo: lo.min(t), hi: t.max(lo) };
        if let Some(f) = eff { l.eff = f; }
        let st0 = l.start;
        let what = l.what.clone();
        simrt::with(|w| w.note(|| format!("end   #{st0} {what}")));
        let (eff, w) = (l.eff.clone(), l.w);
        // history of names, for readdir
        match &eff {
            Eff::Create { parent, name, .. } | Eff::Link { parent, name, .. } => s.dirhist.push((e, *parent, name.clone(), true)),
            Eff::Unlink { parent, name, .. } | Eff::Rmdir { parent, name } => s.dirhist.push((e, *parent, name.clone(), false)),
            Eff::Rename { p1, n1, p2, n2 } => {
                s.dirhist.push((e, *p1, n1.clone(), false));
                s.dirhist.push((e, *p2, n2.clone(), true));
            }
            _ => ()
        }
        s.model.apply(&eff, w);
    }

    /// The operation had no effect
    fn nop(&self, i: usize) { self.commit(i, Some(Eff::Nop)) }

    /// An operation returned an error that it should not have
    fn unexpected(&self, i: usize, e: i32, expected: &str) {
        let (what, allowed) = { let s = self.st.borrow(); (s.log[i].what.clone(), s.allow.contains(&e)) };
        if allowed {
            self.probe("op_failed_by_fault");
            self.nop(i);
        } else {
            self.fail("errno", format!("{what} returned {}, expected {expected}", en(e)));
        }
    }

    fn dir(&self, sel: u32) -> Ino { let s = self.st.borrow(); let d = s.model.dirs(); d[sel as usize % d.len()] }
    fn file(&self, sel: u32) -> Option<Ino> { let s = self.st.borrow(); let d = s.model.files(); if d.is_empty() { None } else { Some(d[sel as usize % d.len()]) } }
    fn any(&self, sel: u32) -> Ino { let s = self.st.borrow(); let d = s.model.all(); d[sel as usize % d.len()] }
    fn pick_name(&self, d: Ino, n: u32) -> String {
        let s = self.st.borrow();
        let Some(e) = s.model.ents(d) else { return name_of(n) };
        if e.is_empty() || n % 8 == 7 { return name_of((n / 8) % 24); }
        e.keys().nth(n as usize % e.len()).unwrap().clone()
    }
    fn alive(&self, i: Ino) -> bool { self.st.borrow().model.inodes.contains_key(&i) }

    fn fd(&self, ino: Ino) -> FileData {
        let s = self.st.borrow();
        fdm(&s.model, ino).handle()
    }

    async fn lock(&self, set: Vec<(Ino, bool)>) -> Guard {
        let Some(k) = self.be.kernel() else { return lock(&self.st, set).await };
        // The kernel must know the inodes that it talks about
        for _ in 0..100 {
            for (i, _) in &set { if *i != RENAMES { k.walk(*i).await; } }
            let g = lock(&self.st, set.clone()).await;
            if set.iter().all(|(i, _)| k.knows(*i) || !self.alive(*i)) { return g; }
            drop(g);
            simrt::sleep_ns(10_000).await;
        }
        self.fail("harness", format!("cannot find {set:?}"));
        lock(&self.st, set).await
    }

    /// Perform one operation
    pub async fn exec(&self, op: &Op) {
        if let Some(k) = self.be.kernel() { k.reclaim().await; }
        match op {
            Op::Create { d, n, perm } => { self.mk(*d, *n, *perm, Kind::Reg(Arc::new(vec![]))).await; }
            Op::Mkdir { d, n, perm } => { self.mk(*d, *n, *perm, Kind::Dir { ents: BTreeMap::new(), parent: 0 }).await; }
            Op::Symlink { d, n, t } => {
                let t = format!("target-{}{}", t, "x".repeat((*t % 60) as usize));
                self.mk(*d, *n, 0o777, Kind::Link(t)).await;
            }
            Op::Mknod { d, n, k } => {
                let kind = match k % 4 { 0 => Kind::Fifo, 1 => Kind::Sock, 2 => Kind::Chr(*k as u32 + 256), _ => Kind::Blk(*k as u32 + 512) };
                self.mk(*d, *n, 0o600, kind).await;
            }
            Op::Unlink { d, n, looked_up } => self.unlink(*d, *n, *looked_up).await,
            Op::Rmdir { d, n } => self.rmdir(*d, *n).await,
            Op::Rename { d, n, d2, n2 } => self.rename(*d, *n, *d2, *n2).await,
            Op::Link { f, d, n } => self.link(*f, *d, *n).await,
            Op::Write { f, off, len, pat } => if let Some(f) = self.file(*f) { self.write(f, Some(*off as u64), *len, *pat).await },
            Op::Append { f, len, pat } => if let Some(f) = self.file(*f) { self.write(f, None, *len, *pat).await },
            Op::Read { f, off, len } => if let Some(f) = self.file(*f) { self.read(f, *off as u64, *len as usize).await },
            Op::Trunc { f, size } => if let Some(f) = self.file(*f) { self.setattr(f, SetAttr { size: Some(*size as u64), ..Default::default() }).await },
            Op::Dealloc { f, off, len } => if let Some(f) = self.file(*f) { self.dealloc(f, *off as u64, *len as u64).await },
            Op::Lseek { f, off, hole } => if let Some(f) = self.file(*f) { self.lseek(f, *off as u64, *hole).await },
            Op::SetAttr { f, what, v } => {
                let f = self.any(*f);
                let mut a = SetAttr::default();
                if what & 1 != 0 { a.perm = Some((*v & 0o7777) as u16); }
                if what & 2 != 0 { a.uid = Some(*v); }
                if what & 4 != 0 { a.gid = Some(v.wrapping_mul(7)); }
                if what & 8 != 0 { a.mtime = Some(ts_of(*v as i64 * 1_000_003)); }
                if what & 16 != 0 { a.atime = Some(ts_of(*v as i64 * 1_000_007)); }
                if what & 32 != 0 && self.be.kernel().is_none() { a.birthtime = Some(ts_of(*v as i64 * 1_000_009)); }
                self.setattr(f, a).await
            }
            Op::GetAttr { f } => self.getattr(*f).await,
            Op::SetX { f, x, len, pat } => self.setx(*f, *x, *len, *pat).await,
            Op::GetX { f, x } => self.getx(*f, *x).await,
            Op::ListX { f } => self.listx(*f).await,
            Op::DelX { f, x } => self.delx(*f, *x).await,
            Op::Readdir { d, chunk } => self.readdir(*d, *chunk).await,
            Op::Lookup { d, n } => self.lookup(*d, *n).await,
            Op::Open { f } => {
                let mut s = self.st.borrow_mut();
                let fs: Vec<Ino> = s.model.files().into_iter().filter(|i| s.model.inodes[i].nlink > 0).collect();
                if let Some(i) = fs.get(*f as usize % fs.len().max(1)).copied() {
                    // The lookup happens under the vnode lock; skip if contended.
                    if s.locks.held.values().any(|h| conflict(h, &[(i, false)])) { return; }
                    *s.model.open.entry(i).or_default() += 1;
                    s.handles.push(i);
                    s.probe("open");
                }
            }
            Op::Close { h } => self.close(*h).await,
            Op::Fsync { f } => self.sync(Some(*f)).await,
            Op::Sync => self.sync(None).await,
            Op::Sleep { ms } => simrt::sleep_ns(*ms as u64 * 1_000_000).await,
            Op::Statvfs => self.statvfs().await,
            Op::DropCache => self.db.drop_cache(),
            Op::Clean => {
                self.probe("clean");
                // An error here means the cleaner task is gone.
                if self.db.clean().await.is_err() { self.fail("cleaner_gone", "the cleaner task went away".into()); }
            }
            Op::Crash => {
                self.probe("crash_op");
                simrt::with(|w| { w.fault_fired("crash"); w.crash() });
                simrt::yield_now().await;
            }
            Op::Bulk { d, n, count, len } => {
                for i in 0..*count {
                    if let Some(ino) = self.mk(*d, 100 + n * 1000 + i, 0o644, Kind::Reg(Arc::new(vec![]))).await {
                        if *len > 0 { self.write(ino, Some(0), *len, i * 4 + n + 1).await; }
                    }
                }
            }
            Op::BulkRm { d, n, count } => {
                for i in 0..*count { self.unlink_name(*d, name_of(100 + n * 1000 + i), true).await; }
            }
            Op::RenameOverOpen { d, n } => self.rename_over_open(*d, *n).await,
        }
    }

    async fn mk(&self, dsel: u32, n: u32, perm: u16, kind: Kind) -> Option<Ino> {
        let d = self.dir(dsel);
        let name = name_of(n);
        let _g = self.lock(vec![(d, true)]).await;
        let ok = { let s = self.st.borrow(); s.model.ents(d).map(|e| !e.contains_key(&name)).unwrap_or(false) };
        if !ok { return None; }
        let (uid, gid) = (n % 5, n % 3);
        // FUSE doesn't transmit symlinks' permissions
        let perm = if self.be.kernel().is_some() && matches!(kind, Kind::Link(_)) { 0o755 } else { perm };
        let rs = 1u32 << self.st.borrow().recexp;
        let kind = match kind { Kind::Dir { .. } => Kind::Dir { ents: BTreeMap::new(), parent: d }, k => k };
        let tmp = { let mut s = self.st.borrow_mut(); s.next_tmp += 1; (1 << 60) + s.next_tmp };
        let eff = |ino| Eff::Create { parent: d, name: name.clone(), ino, kind: kind.clone(), perm, uid, gid, recsize: rs };
        let i = self.begin(eff(tmp), format!("{}({d}, {name})", match &kind { Kind::Dir { .. } => "mkdir", Kind::Reg(_) => "create", Kind::Link(_) => "symlink", _ => "mknod" }));
        let dfd = self.fd(d);
        let on = OsStr::new(&name);
        let r = self.be.mk(&dfd, on, &kind, perm, uid, gid).await;
        match r {
            Ok(fd) => {
                let ino = fd.ino();
                if self.alive(ino) {
                    self.fail("inode_reuse", format!("create({d}, {name}) returned inode {ino}, which is in use"));
                    return None;
                }
                self.commit(i, Some(eff(ino)));
                Some(ino)
            }
            Err(e) => { self.unexpected(i, e, "success"); None }
        }
    }

    async fn unlink(&self, dsel: u32, n: u32, looked_up: bool) {
        let d = self.dir(dsel);
        let name = self.pick_name(d, n);
        self.unlink_at(d, name, looked_up).await
    }
    async fn unlink_name(&self, dsel: u32, name: String, looked_up: bool) {
        let d = self.dir(dsel);
        self.unlink_at(d, name, looked_up).await
    }
    async fn unlink_at(&self, d: Ino, name: String, looked_up: bool) {
        let t = self.st.borrow().model.lookup(d, &name);
        let mut set = vec![(d, true)];
        if let Some(t) = t { set.push((t, true)); }
        let _g = self.lock(set).await;
        if !self.alive(d) || self.st.borrow().model.lookup(d, &name) != t { return; }
        let dfd = self.fd(d);
        match t {
            None => {
                let i = self.begin(Eff::Nop, format!("unlink({d}, {name}) of a nonexistent name"));
                match self.be.unlink(&dfd, None, OsStr::new(&name), false).await {
                    Err(libc::ENOENT) => self.nop(i),
                    Err(e) => self.unexpected(i, e, "ENOENT"),
                    Ok(()) => self.fail("errno", format!("unlink({d}, {name}) succeeded, but there is no such file")),
                }
            }
            Some(t) => {
                let (isdir, open, nlink) = { let s = self.st.borrow(); let x = &s.model.inodes[&t]; (matches!(x.kind, Kind::Dir { .. }), s.model.is_open(t), x.nlink) };
                if isdir { return; }
                let held = looked_up || open || self.be.kernel().is_some();
                let i = self.begin(Eff::Unlink { parent: d, name: name.clone(), keep: held }, format!("unlink({d}, {name}) ino={t} nlink={nlink} held={held}"));
                let fdm = FileDataMut::new_for_tests(None, t);
                let h = fdm.handle();
                match self.be.unlink(&dfd, if held { Some(&h) } else { None }, OsStr::new(&name), true).await {
                    Ok(()) => self.commit(i, None),
                    Err(e) => { self.unexpected(i, e, "success"); return; }
                }
                if held && nlink == 1 { self.probe(if open { "unlink_open" } else { "unlink_held" }); }
                if held && !open {
                    // The kernel forgets the vnode
                    let i = self.begin(Eff::Inactive { ino: t }, format!("inactive({t})"));
                    self.be.inactive(fdm).await;
                    self.commit(i, None);
                }
            }
        }
    }

    async fn close(&self, h: u32) {
        let ino = {
            let mut s = self.st.borrow_mut();
            if s.handles.is_empty() { return; }
            let n = h as usize % s.handles.len();
            s.handles.swap_remove(n)
        };
        let _g = self.lock(vec![(ino, true)]).await;
        let last = {
            let mut s = self.st.borrow_mut();
            let c = s.model.open.get_mut(&ino).unwrap();
            *c -= 1;
            let last = *c == 0;
            if last { s.model.open.remove(&ino); }
            last
        };
        if !last || !self.alive(ino) { return; }
        if self.st.borrow().model.inodes[&ino].nlink == 0 { self.probe("close_unlinked"); }
        let i = self.begin(Eff::Inactive { ino }, format!("inactive({ino})"));
        self.be.inactive(FileDataMut::new_for_tests(None, ino)).await;
        self.commit(i, None);
    }

    async fn rmdir(&self, dsel: u32, n: u32) {
        let d = self.dir(dsel);
        let name = {
            // prefer directories
            let s = self.st.borrow();
            let subs: Vec<String> = s.model.ents(d).map(|e| e.iter().filter(|(_, i)| matches!(s.model.inodes[i].kind, Kind::Dir { .. }))
                .map(|(n, _)| n.clone()).collect()).unwrap_or_default();
            if subs.is_empty() || n % 8 == 7 { name_of((n / 8) % 24) } else { subs[n as usize % subs.len()].clone() }
        };
        let t = self.st.borrow().model.lookup(d, &name);
        let mut set = vec![(d, true)];
        if let Some(t) = t { set.push((t, true)); }
        let _g = self.lock(set).await;
        if !self.alive(d) || self.st.borrow().model.lookup(d, &name) != t { return; }
        let dfd = self.fd(d);
        let (expect, eff) = match t {
            None => (Some(libc::ENOENT), Eff::Nop),
            Some(t) => {
                let s = self.st.borrow();
                match s.model.ents(t) {
                    None => return, // not a directory: the VFS prevents it
                    Some(e) if !e.is_empty() => (Some(ENOTEMPTY), Eff::Nop),
                    Some(_) => (None, Eff::Rmdir { parent: d, name: name.clone() }),
                }
            }
        };
        let i = self.begin(eff, format!("rmdir({d}, {name})"));
        let r = self.be.rmdir(&dfd, OsStr::new(&name), t.is_some()).await;
        self.settle(i, r.err(), expect);
    }

    fn settle(&self, i: usize, got: Option<i32>, expect: Option<i32>) {
        if got == expect {
            if expect.is_some() { self.probe("expected_error"); }
            self.commit(i, None);
        } else {
            match got {
                Some(e) => self.unexpected(i, e, &expect.map(en).unwrap_or("success".into())),
                None => { let w = self.st.borrow().log[i].what.clone(); self.fail("errno", format!("{w} succeeded, but should have returned {}", en(expect.unwrap()))) }
            }
        }
    }

    async fn rename(&self, dsel: u32, n: u32, d2sel: u32, n2: u32) {
        let d = self.dir(dsel);
        let d2 = if n2 % 3 == 0 { d } else { self.dir(d2sel) };
        let n1 = self.pick_name(d, n);
        let n2 = if n2 % 4 == 1 { self.pick_name(d2, n2) } else { name_of(n2 % 24) };
        let (src, dst) = { let s = self.st.borrow(); (s.model.lookup(d, &n1), s.model.lookup(d2, &n2)) };
        let Some(src) = src else { return };
        let mut set = vec![(d, true), (d2, true)];
        let srcdir = matches!(self.st.borrow().model.inodes[&src].kind, Kind::Dir { .. });
        if srcdir { set.push((src, true)); }
        // The kernel moves one directory at a time
        if srcdir && d != d2 { set.push((RENAMES, true)); }
        if let Some(t) = dst { set.push((t, true)); }
        let _g = self.lock(set).await;
        let (expect, srcparent) = {
            let s = self.st.borrow();
            let m = &s.model;
            if !m.inodes.contains_key(&d) || !m.inodes.contains_key(&d2) || m.lookup(d, &n1) != Some(src) || m.lookup(d2, &n2) != dst { return; }
            if Some(src) == dst { return; }
            let mut expect = None;
            if srcdir && m.is_ancestor(src, d2) {
                // FUSE servers have to check for this
                if src == d2 || dst.is_some() || self.be.kernel().is_none() { return; }
                expect = Some(libc::EINVAL);
            }
            if let Some(t) = dst {
                if t == d || t == d2 { return; }
                match (srcdir, m.ents(t)) {
                    (true, Some(e)) => if !e.is_empty() { expect = Some(ENOTEMPTY); },
                    (false, None) => if m.is_open(t) { return },
                    _ => return,
                }
            }
            (expect, if srcdir { Some(d) } else { None })
        };
        let eff = if expect.is_some() { Eff::Nop } else { Eff::Rename { p1: d, n1: n1.clone(), p2: d2, n2: n2.clone() } };
        let i = self.begin(eff, format!("rename({d}, {n1}, {d2}, {n2}) {src}->{dst:?}"));
        if dst.is_some() { self.probe("rename_over"); }
        let (fd1, fd2) = (self.fd(d), self.fd(d2));
        let r = self.be.rename(&fd1, &fd_ino(srcparent, src), OsStr::new(&n1), &fd2, dst, OsStr::new(&n2)).await;
        if let Ok(x) = r { if x != src { self.fail("wrong_result", format!("rename({d}, {n1}) returned inode {x}, not {src}")); return; } }
        self.settle(i, r.err(), expect);
    }

    /// POSIX: the replaced file lives until it's closed.
    async fn rename_over_open(&self, dsel: u32, n: u32) {
        let (t, p) = {
            let s = self.st.borrow();
            let Some(h) = s.handles.get(n as usize % s.handles.len().max(1)).copied() else { return };
            // its name?
            let mut f = None;
            for d in s.model.dirs() { for (nm, i) in s.model.ents(d).unwrap() { if *i == h { f = Some((d, nm.clone())); } } }
            let Some(p) = f else { return };
            (h, p)
        };
        let Some(src) = self.mk(dsel, 90, 0o600, Kind::Reg(Arc::new(vec![]))).await else { return };
        let loc = { let s = self.st.borrow(); let mut f = None; for d in s.model.dirs() { if s.model.lookup(d, "n90") == Some(src) { f = Some(d); } } f };
        let Some(d) = loc else { return };
        let _g = self.lock(vec![(d, true), (p.0, true), (t, true)]).await;
        {
            let s = self.st.borrow();
            if s.model.lookup(d, "n90") != Some(src) || s.model.lookup(p.0, &p.1) != Some(t) || !s.model.is_open(t) || s.model.inodes[&t].nlink != 1 { return; }
        }
        let want = self.st.borrow().model.data(t).cloned();
        let Some(want) = want else { return };
        let i = self.begin(Eff::Rename { p1: d, n1: "n90".into(), p2: p.0, n2: p.1.clone() }, format!("rename({d}, n90, {}, {}) over an open file", p.0, p.1));
        let (fd1, fd2) = (self.fd(d), self.fd(p.0));
        let r = self.be.rename(&fd1, &fd_ino(None, src), OsStr::new("n90"), &fd2, Some(t), OsStr::new(&p.1)).await;
        if let Err(e) = r { self.unexpected(i, e, "success"); return; }
        let ga = self.fs.getattr(&fd_ino(None, t)).await;
        match ga {
            Err(e) => { self.fail("open_lost", format!("rename over an open file: the open file is gone ({})", en(e))); }
            Ok(ga) => if ga.size != want.len() as u64 { self.fail("open_lost", "rename over an open file: the open file has changed size".into()) },
        }
    }

    async fn link(&self, fsel: u32, dsel: u32, n: u32) {
        let Some(f) = ({ let s = self.st.borrow(); let v: Vec<Ino> = s.model.inodes.iter().filter(|(_, x)| !matches!(x.kind, Kind::Dir { .. }) && x.nlink > 0).map(|(i, _)| *i).collect();
            if v.is_empty() { None } else { Some(v[fsel as usize % v.len()]) } }) else { return };
        let d = self.dir(dsel);
        let name = name_of(n);
        let _g = self.lock(vec![(d, true), (f, true)]).await;
        {
            let s = self.st.borrow();
            if s.model.ents(d).map(|e| e.contains_key(&name)).unwrap_or(true) { return; }
            if s.model.inodes.get(&f).map(|x| x.nlink == 0).unwrap_or(true) { return; }
        }
        let i = self.begin(Eff::Link { parent: d, name: name.clone(), ino: f }, format!("link({f}, {d}, {name})"));
        let r = self.be.link(&self.fd(d), &fd_ino(None, f), OsStr::new(&name)).await;
        self.settle(i, r.err(), None);
    }

    async fn write(&self, f: Ino, off: Option<u64>, len: u32, pat: u32) {
        let _g = self.lock(vec![(f, true)]).await;
        if !self.alive(f) { return; }
        let off = off.unwrap_or_else(|| self.st.borrow().model.data(f).unwrap().len() as u64);
        if len == 0 { return; }
        let data = Arc::new(pattern(pat, off, len as usize));
        let i = self.begin(Eff::Write { ino: f, off, data: data.clone() }, format!("write({f}, off={off}, len={len}, pat={pat})"));
        match self.be.write(&fd_ino(None, f), off, &data[..]).await {
            Ok(n) if n == len => self.commit(i, None),
            Ok(n) => self.fail("wrong_result", format!("write of {len} bytes returned {n}")),
            Err(e) => {
                self.unexpected(i, e, "success");
            }
        }
    }

    async fn read(&self, f: Ino, off: u64, len: usize) {
        let _g = self.lock(vec![(f, false)]).await;
        if !self.alive(f) { return; }
        let i = self.begin(if self.st.borrow().atime { Eff::Atime { ino: f } } else { Eff::Nop }, format!("read({f}, off={off}, len={len})"));
        let r = self.be.read(&fd_ino(None, f), off, len).await;
        match r {
            Err(e) => self.unexpected(i, e, "success"),
            Ok(got) => {
                let d = self.st.borrow().model.data(f).unwrap().clone();
                let s = (off as usize).min(d.len());
                let e = (off as usize + len).min(d.len());
                let want = &d[s..e];
                if got.len() != want.len() {
                    self.fail("wrong_data", format!("read({f}, off={off}, len={len}) returned {} bytes, should return {}", got.len(), want.len()));
                } else if got != want {
                    let p = first_diff(&got, want);
                    self.fail("wrong_data", format!("read({f}, off={off}, len={len}): wrong data at offset {}: {:02x?}, should be {:02x?}", off as usize + p,
                        &got[p..(p + 8).min(got.len())], &want[p..(p + 8).min(want.len())]));
                } else { self.commit(i, None); }
            }
        }
    }

    async fn setattr(&self, f: Ino, a: SetAttr) {
        let _g = self.lock(vec![(f, true)]).await;
        if !self.alive(f) { return; }
        let eff = Eff::SetAttr { ino: f, perm: a.perm, uid: a.uid, gid: a.gid, atime: a.atime.map(ns_of), mtime: a.mtime.map(ns_of), birth: a.birthtime.map(ns_of), size: a.size };
        let i = self.begin(eff, format!("setattr({f}, size={:?} perm={:?})", a.size, a.perm));
        let r = self.be.setattr(&self.fd(f), a).await;
        self.settle(i, r.err(), None);
    }

    async fn dealloc(&self, f: Ino, off: u64, len: u64) {
        let _g = self.lock(vec![(f, true)]).await;
        if !self.alive(f) { return; }
        let i = self.begin(Eff::Dealloc { ino: f, off, len }, format!("deallocate({f}, off={off}, len={len})"));
        let r = self.be.deallocate(&fd_ino(None, f), off, len).await;
        self.settle(i, r.err(), None);
    }

    async fn lseek(&self, f: Ino, off: u64, hole: bool) {
        let _g = self.lock(vec![(f, false)]).await;
        if !self.alive(f) { return; }
        let i = self.begin(Eff::Nop, format!("lseek({f}, {off}, {})", if hole { "HOLE" } else { "DATA" }));
        let r = self.be.lseek(&fd_ino(None, f), off, if hole { SeekWhence::Hole } else { SeekWhence::Data }).await;
        let d = self.st.borrow().model.data(f).unwrap().clone();
        let size = d.len() as u64;
        let zero = |a: u64, b: u64| d[(a.min(size)) as usize..(b.min(size)) as usize].iter().all(|x| *x == 0);
        let bad = match r {
            Err(libc::ENXIO) if off > size => None,
            Err(libc::ENXIO) if !hole => if zero(off, size) { None } else { Some("ENXIO, but there is data".to_string()) },
            Err(e) => { self.unexpected(i, e, "an offset"); return; }
            Ok(x) if off > size => Some(format!("{x}, but the offset is beyond the end of the file")),
            Ok(x) if x < off => Some(format!("{x}, which is before {off}")),
            Ok(x) if x > size => Some(format!("{x}, which is beyond the end of the file")),
            Ok(x) if !hole => if zero(off, x) { None } else { Some(format!("{x}, but there is data before that")) },
            Ok(x) => if x == size || d[x as usize] == 0 { None } else { Some(format!("{x}, but there is data there")) },
        };
        if let Some(b) = bad { self.fail("wrong_result", format!("lseek({f}, {off}, {}) returned {b}", if hole { "HOLE" } else { "DATA" })); }
        else { self.commit(i, None); }
    }

    async fn getattr(&self, sel: u32) {
        let f = self.any(sel);
        let _g = self.lock(vec![(f, false)]).await;
        if !self.alive(f) { return; }
        let i = self.begin(Eff::Nop, format!("getattr({f})"));
        let r = self.be.getattr(&self.fd(f)).await;
        match r {
            Err(e) => self.unexpected(i, e, "success"),
            Ok(ga) => {
                let st = self.st.borrow();
                let mut x = st.model.inodes[&f].clone();
                // a concurrent read may or may not have updated it yet
                if st.log.iter().any(|o| o.end.is_none() && match o.eff { Eff::Atime { ino } => ino == f, Eff::AtimeAll => true, _ => false }) {
                    x.atime.hi = now();
                }
                drop(st);
                if let Some(d) = check_attr(f, &x, &ga) { self.fail("wrong_attr", format!("getattr({f}): {d}")); return; }
                self.commit(i, None);
            }
        }
    }

    fn xsel(x: u32) -> (u8, String) { let (a, b) = XNAMES[x as usize % XNAMES.len()]; (a, b.to_string()) }

    async fn setx(&self, sel: u32, x: u32, len: u32, pat: u32) {
        let f = self.any(sel);
        let (ns, name) = Self::xsel(x);
        let _g = self.lock(vec![(f, true)]).await;
        if !self.alive(f) { return; }
        let val = Arc::new(pattern(pat, 0, len as usize));
        let i = self.begin(Eff::SetX { ino: f, ns, name: name.clone(), val: val.clone() }, format!("setextattr({f}, {ns}.{name}, len={len})"));
        let r = self.be.setextattr(&self.fd(f), extns(ns), OsStr::new(&name), &val).await;
        self.settle(i, r.err(), None);
    }

    async fn delx(&self, sel: u32, x: u32) {
        let f = self.any(sel);
        let (ns, name) = Self::xsel(x);
        let _g = self.lock(vec![(f, true)]).await;
        if !self.alive(f) { return; }
        let has = self.st.borrow().model.inodes[&f].xattrs.contains_key(&(ns, name.clone()));
        let (eff, ex) = if has { (Eff::DelX { ino: f, ns, name: name.clone() }, None) } else { (Eff::Nop, Some(bfffs_core::Error::ENOATTR.into())) };
        let i = self.begin(eff, format!("deleteextattr({f}, {ns}.{name})"));
        let r = self.be.deleteextattr(&self.fd(f), extns(ns), OsStr::new(&name)).await;
        self.settle(i, r.err(), ex);
    }

    async fn getx(&self, sel: u32, x: u32) {
        let f = self.any(sel);
        let (ns, name) = Self::xsel(x);
        let _g = self.lock(vec![(f, false)]).await;
        if !self.alive(f) { return; }
        let want = self.st.borrow().model.inodes[&f].xattrs.get(&(ns, name.clone())).cloned();
        let i = self.begin(Eff::Nop, format!("getextattr({f}, {ns}.{name})"));
        let fd = self.fd(f);
        let r = self.be.getextattr(&fd, extns(ns), OsStr::new(&name)).await;
        let enoattr: i32 = bfffs_core::Error::ENOATTR.into();
        match (r, want) {
            (Ok(d), Some(w)) => {
                let same = d[..] == w[..];
                let l = self.be.getextattrlen(&fd, extns(ns), OsStr::new(&name)).await;
                drop(d);
                if !same { self.fail("wrong_data", format!("getextattr({f}, {ns}.{name}) returned the wrong value")); }
                else if let Ok(l) = l { if l as usize != w.len() { self.fail("wrong_result", format!("getextattrlen({f}, {ns}.{name}) returned {l}, should be {}", w.len())); } else { self.commit(i, None); } }
                else { self.unexpected(i, l.err().unwrap(), "success"); }
            }
            (Err(e), None) if e == enoattr => self.commit(i, None),
            (Err(e), w) => self.unexpected(i, e, if w.is_some() { "success" } else { "ENOATTR" }),
            (Ok(_), None) => self.fail("wrong_data", format!("getextattr({f}, {ns}.{name}) returned a value, but it isn't set")),
        }
    }

    async fn listx(&self, sel: u32) {
        let f = self.any(sel);
        let _g = self.lock(vec![(f, false)]).await;
        if !self.alive(f) { return; }
        let i = self.begin(Eff::Nop, format!("listextattr({f})"));
        let fd = self.fd(f);
        let l = match &self.be { Be::Native(fs) => listx(fs, &fd).await, Be::Fuse(k) => k.listx(f).await };
        match l {
            Err(e) => self.unexpected(i, e, "success"),
            Ok(mut l) => {
                l.sort();
                let want: Vec<(u8, String)> = self.st.borrow().model.inodes[&f].xattrs.keys().cloned().collect();
                if l != want { self.fail("wrong_result", format!("listextattr({f}) returned {l:?}, should be {want:?}")); return; }
                if self.be.kernel().is_some() { self.commit(i, None); return; }
                let n = self.fs.listextattrlen(&fd, |x| 5 + x.name().len() as u32).await;
                let wn: u32 = want.iter().map(|x| 5 + x.1.len() as u32).sum();
                match n { Ok(n) if n == wn => self.commit(i, None), Ok(n) => self.fail("wrong_result", format!("listextattrlen({f}) returned {n}, should be {wn}")), Err(e) => self.unexpected(i, e, "success") }
            }
        }
    }

    async fn lookup(&self, dsel: u32, n: u32) {
        let d = self.dir(dsel);
        let name = self.pick_name(d, n);
        let _g = self.lock(vec![(d, false)]).await;
        if !self.alive(d) { return; }
        let want = self.st.borrow().model.lookup(d, &name);
        let i = self.begin(Eff::Nop, format!("lookup({d}, {name})"));
        let r = self.be.lookup(&self.fd(d), OsStr::new(&name)).await;
        match (r, want) {
            (Ok((x, p)), Some(w)) => {
                let wp = { let s = self.st.borrow(); if matches!(s.model.inodes[&w].kind, Kind::Dir { .. }) { Some(d) } else { None } };
                if x != w { self.fail("wrong_result", format!("lookup({d}, {name}) returned inode {x}, should be {w}")) }
                else if p.is_some_and(|p| p != wp) { self.fail("wrong_result", format!("lookup({d}, {name}) returned parent {p:?}, should be {wp:?}")) }
                else { self.commit(i, None) }
            }
            (Err(libc::ENOENT), None) => self.commit(i, None),
            (Err(e), w) => self.unexpected(i, e, if w.is_some() { "success" } else { "ENOENT" }),
            (Ok((x, _)), None) => self.fail("wrong_result", format!("lookup({d}, {name}) returned inode {x}, should be ENOENT")),
        }
    }

    /// Lists a directory, in chunks, while others modify it.
    async fn readdir(&self, dsel: u32, chunk: u32) {
        let d = self.dir(dsel);
        let start = stamp();
        let s0 = { let s = self.st.borrow(); s.model.ents(d).cloned().unwrap_or_default() };
        let mut off = 0i64;
        let mut seen: Vec<(String, u64, u8, u64)> = Vec::new();
        let chunk = if chunk == 0 { usize::MAX } else { chunk as usize };
        let mut rounds = 0;
        loop {
            // Each call holds the vnode lock, but not the whole listing
            let g = self.lock(vec![(d, false)]).await;
            if !self.alive(d) { return; }
            let i = self.begin(Eff::Nop, format!("readdir({d}, {off:#x})"));
            let mut got = 0;
            let mut eof = true;
            if let Be::Fuse(k) = &self.be {
                match k.readdir(d, off, chunk).await {
                    Ok((v, e)) => {
                        for x in v { off = x.3; seen.push((x.0, x.1, x.2, stamp())); }
                        eof = e;
                    }
                    Err(e) => { self.unexpected(i, e, "success"); return; }
                }
            } else {
                let s = self.fs.readdir(&self.fd(d), off);
                futures::pin_mut!(s);
                while let Some(r) = s.next().await {
                    match r {
                        Ok(e) => {
                            off = e.d_off;
                            seen.push((name_dirent(&e), e.d_fileno as u64, e.d_type, stamp()));
                            got += 1;
                            if got >= chunk { eof = false; break; }
                        }
                        Err(e) => { self.unexpected(i, e, "success"); return; }
                    }
                }
            }
            self.nop(i);
            drop(g);
            rounds += 1;
            if rounds > 10_000 { self.fail("hang", format!("readdir({d}) never reaches the end")); return; }
            if eof { break; }
            simrt::yield_now().await;
        }
        let end = stamp();
        if !self.alive(d) { return; }
        // Check
        let s = self.st.borrow();
        let mut changed: BTreeSet<String> = BTreeSet::new();
        let mut ever: BTreeSet<String> = s0.keys().cloned().collect();
        for (t, dd, n, add) in &s.dirhist {
            if *dd == d && *t > start && *t < end { changed.insert(n.clone()); if *add { ever.insert(n.clone()); } }
        }
        // operations in progress, too
        for l in s.log.iter().filter(|l| l.start < end && l.end.map(|e| e > start).unwrap_or(true)) {
            match &l.eff {
                Eff::Create { parent, name, .. } | Eff::Link { parent, name, .. } if *parent == d => { ever.insert(name.clone()); changed.insert(name.clone()); }
                Eff::Unlink { parent, name, .. } | Eff::Rmdir { parent, name } if *parent == d => { changed.insert(name.clone()); }
                Eff::Rename { p1, n1, p2, n2 } => {
                    if *p1 == d { changed.insert(n1.clone()); }
                    if *p2 == d { changed.insert(n2.clone()); ever.insert(n2.clone()); }
                }
                _ => ()
            }
        }
        let mut counts: BTreeMap<&str, u32> = BTreeMap::new();
        for x in &seen { *counts.entry(&x.0).or_default() += 1; }
        // Has another entry with the same directory hash changed meanwhile?
        let shaky = |n: &str| NAMES[..6].iter().position(|x| *x == n).map(|i| changed.contains(NAMES[i ^ 1])).unwrap_or(false);
        let mut kind = "readdir";
        let mut bad = None;
        for n in [".", ".."] {
            if counts.get(n).copied().unwrap_or(0) != 1 { bad = Some(format!("readdir({d}): {n:?} returned {} times", counts.get(n).copied().unwrap_or(0))); }
        }
        let stable: Vec<(&String, &Ino)> = s0.iter().filter(|(n, _)| !changed.contains(*n)).collect();
        for (n, i) in &stable {
            match counts.get(n.as_str()).copied().unwrap_or(0) {
                1 => (),
                c if shaky(n) => if bad.is_none() {
                    kind = "readdir-bucket";
                    bad = Some(format!("readdir({d}): {n:?} was returned {c} times, though it existed throughout. Its hash bucket changed"));
                }
                0 => bad = Some(format!("readdir({d}): {n:?} was never returned, though it existed throughout")),
                c => bad = Some(format!("readdir({d}): {n:?} was returned {c} times, though it was never removed")),
            }
            if let Some(x) = seen.iter().find(|x| x.0 == **n) {
                if x.1 != **i { bad = Some(format!("readdir({d}): {n:?} has inode {}, should be {i}", x.1)); }
                if let Some(z) = s.model.inodes.get(*i) { if z.kind.dtype() != x.2 { bad = Some(format!("readdir({d}): {n:?} has type {}, should be {}", x.2, z.kind.dtype())); } }
            }
        }
        for x in &seen {
            if x.0 != "." && x.0 != ".." && !ever.contains(&x.0) { bad = Some(format!("readdir({d}): returned {:?}, which never existed", x.0)); }
        }
        drop(s);
        if !changed.is_empty() { self.probe("readdir_during_change"); }
        if rounds > 1 { self.probe("readdir_resumed"); }
        if let Some(b) = bad { if kind == "readdir" || self.st.borrow().buckets { self.fail(kind, b); } }
    }

    pub async fn sync(&self, f: Option<u32>) {
        let f = f.and_then(|f| self.file(f));
        let mut _g = None;
        if let (Some(f), Some(_)) = (f, self.be.kernel()) {
            _g = Some(self.lock(vec![(f, true)]).await);
            if !self.alive(f) { return; }
        }
        let at = stamp();
        let i = self.begin(Eff::Nop, if f.is_some() { "fsync".to_string() } else { "sync".into() });
        self.st.borrow_mut().log[i].sync = true;
        match f {
            Some(f) => if let Err(e) = self.be.fsync(&fd_ino(None, f)).await { self.unexpected(i, e, "success"); return; },
            None => {
                // Fs::sync panics on errors, so use what it wraps
                if let Err(e) = self.db.sync_transaction().await { let e: i32 = e.into(); self.unexpected(i, e, "success"); return; }
            }
        }
        self.nop(i);
        let mut s = self.st.borrow_mut();
        s.must = s.must.max(at);
        s.probe("sync");
    }

    async fn statvfs(&self) {
        let i = self.begin(Eff::Nop, "statvfs".into());
        match self.be.statvfs().await {
            Err(e) => self.unexpected(i, e, "success"),
            Ok(v) => {
                if v.1 > v.0 || v.2 > v.1 { self.fail("wrong_result", format!("statvfs: {} free of {}", v.1, v.0)); return; }
                self.nop(i);
            }
        }
    }

    /// Run these clients to completion
    pub async fn clients(&self, clients: &[Vec<Op>]) {
        let hs: Vec<_> = clients.iter().map(|ops| {
            let me = self.clone();
            let ops = ops.clone();
            simrt::spawn(async move {
                for op in &ops {
                    me.exec(op).await;
                    simrt::yield_now().await;
                }
            })
        }).collect();
        for h in hs { let _ = h.await; }
    }

    /// Compare the whole file system with the model
    pub async fn verify(&self, what: &str) -> bool {
        let i = if self.st.borrow().atime { Some(self.begin(Eff::AtimeAll, "scan".into())) } else { None };
        let o = observe(&self.fs).await;
        if let Some(i) = i { self.commit(i, None); }
        match o {
            Err(e) => { self.fail("wrong_state", format!("{what}: {e}")); false }
            Ok(o) => {
                let d = { let s = self.st.borrow(); let mut m = s.model.clone(); m.inodes.retain(|_, i| i.nlink > 0); m.diff(&o, true) };
                if let Some(d) = d { self.fail("wrong_state", format!("{what}: {d}")); return false; }
                true
            }
        }
    }
}

fn check_attr(ino: Ino, x: &Inode, ga: &GetAttr) -> Option<String> {
    if ga.ino != ino { return Some(format!("inode number is {}", ga.ino)); }
    if ga.mode.0 & FMT != fmt_of(&x.kind) { return Some(format!("mode is {:o}", ga.mode.0)); }
    if let Kind::Reg(d) = &x.kind {
        if ga.size != d.len() as u64 { return Some(format!("size is {}, should be {}", ga.size, d.len())); }
        if ga.blksize != x.recsize { return Some(format!("blksize is {}, should be {}", ga.blksize, x.recsize)); }
    }
    if let Kind::Chr(r) | Kind::Blk(r) = &x.kind { if ga.rdev as u64 != *r as u64 { return Some(format!("rdev is {}, should be {r}", ga.rdev)); } }
    let mut y = inode_of(ga, x.kind.clone());
    y.xattrs = x.xattrs.clone();
    diff_inode(x, &y, true)
}
