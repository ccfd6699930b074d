//! A simulated kernel in front of bfffsd's FUSE server.
//!
//! It caches names and inodes, forgets them again at random, and follows
//! FUSE's rules: it sends nothing about an inode that it hasn't looked up,
//! serialises what the VFS would serialise, and counts its references.
use crate::fsdrive::*;
use crate::fsmodel::*;
use bfffs_core::fs::{ExtAttrNamespace, FileData, FileDataMut, Fs, GetAttr, SeekWhence, SetAttr, Timespec};
use fuse::fs::FuseFs;
use fuse::fuse3::{self, raw::reply::*, raw::Filesystem, raw::Request, FileType, Timestamp};
use futures::StreamExt;
use simrt::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::rc::Rc;
use std::sync::Arc;

type R<T> = Result<T, i32>;

struct Kern {
    rng: Rng,
    /// How often the server has told us about each inode
    known: BTreeMap<Ino, u64>,
    names: BTreeMap<(Ino, String), Ino>,
    pins: BTreeMap<Ino, u32>,
    /// lookups in progress, by name and by what they'll find
    looking: Vec<(Ino, String, Option<Ino>)>,
    forgetting: BTreeSet<Ino>,
    unique: u64,
    /// percentages
    reclaim: u64,
    purge: u64,
    /// Does an NFS server export it?
    nfs: bool,
}

pub struct Kfs { f: FuseFs, fs: Arc<Fs>, st: Rc<RefCell<St>>, k: RefCell<Kern> }

fn kind_of(k: &Kind) -> FileType {
    match k {
        Kind::Reg(_) => FileType::RegularFile, Kind::Dir { .. } => FileType::Directory, Kind::Link(_) => FileType::Symlink,
        Kind::Fifo => FileType::NamedPipe, Kind::Sock => FileType::Socket, Kind::Chr(_) => FileType::CharDevice, Kind::Blk(_) => FileType::BlockDevice,
    }
}
fn dt_of(k: FileType) -> u8 {
    match k {
        FileType::RegularFile => 8, FileType::Directory => 4, FileType::Symlink => 10, FileType::NamedPipe => 1,
        FileType::Socket => 12, FileType::CharDevice => 2, FileType::BlockDevice => 6,
    }
}
fn packed(ns: ExtAttrNamespace, name: &OsStr) -> String {
    format!("{}.{}", match ns { ExtAttrNamespace::User => "user", ExtAttrNamespace::System => "system" }, name.to_str().unwrap())
}
fn err(e: fuse3::Errno) -> i32 { e.into() }

impl Kfs {
    pub fn new(fs: Arc<Fs>, st: Rc<RefCell<St>>, seed: u64) -> Self {
        let mut rng = Rng::stream(seed, "kernel");
        let reclaim = *rng.pick(&[0, 5, 30, 70]);
        let purge = *rng.pick(&[0, 10, 50]);
        let nfs = rng.chance(0.3);
        let mut known = BTreeMap::new();
        known.insert(ROOT, 1);
        let k = Kern { rng, known, names: BTreeMap::new(), pins: BTreeMap::new(), looking: vec![], forgetting: BTreeSet::new(), unique: 0, reclaim, purge, nfs };
        Kfs { f: FuseFs::new(fs.clone()), fs, st, k: RefCell::new(k) }
    }

    fn req(&self, uid: u32, gid: u32) -> Request {
        let mut k = self.k.borrow_mut();
        k.unique += 1;
        Request { unique: k.unique, uid, gid, pid: 1 }
    }
    fn r0(&self) -> Request { self.req(0, 0) }
    fn bad(&self, m: String) { fail(&self.st, "fuse_reply", m) }
    fn probe(&self, p: &str) { self.st.borrow_mut().probe(p) }
    pub fn knows(&self, i: Ino) -> bool { self.k.borrow().known.contains_key(&i) }
    fn chance(&self, pct: u64) -> bool { self.k.borrow_mut().rng.below(100) < pct }

    /// Is this what the server should say about this inode?
    fn attr(&self, what: &str, a: &FileAttr, ino: Option<Ino>) {
        if ino.is_some_and(|i| i != a.ino) { self.bad(format!("{what}: the reply is about inode {}, not {}", a.ino, ino.unwrap())); return; }
        let want = self.st.borrow().model.inodes.get(&a.ino).map(|x| kind_of(&x.kind));
        if let Some(w) = want { if w != a.kind { self.bad(format!("{what}: inode {} is said to be a {:?}, but it's a {w:?}", a.ino, a.kind)); } }
    }

    /// The server has mentioned an inode
    fn learn(&self, ino: Ino) { *self.k.borrow_mut().known.entry(ino).or_default() += 1; }

    /// Send a LOOKUP.  The directory is locked.
    async fn send_lookup(&self, d: Ino, name: &str) -> R<Ino> {
        let want = match name {
            "." => Some(d),
            ".." => self.st.borrow().model.parent_of(d),
            n => self.st.borrow().model.lookup(d, n)
        };
        loop {
            {
                let mut k = self.k.borrow_mut();
                let busy = k.looking.iter().any(|l| l.0 == d && l.1 == name) || want.is_some_and(|w| k.forgetting.contains(&w));
                if !busy { k.looking.push((d, name.to_string(), want)); break; }
            }
            simrt::sleep_ns(10_000).await;
        }
        self.probe("fuse_lookup");
        let r = self.f.lookup(self.r0(), d, OsStr::new(name)).await;
        {
            let mut k = self.k.borrow_mut();
            let i = k.looking.iter().position(|l| l.0 == d && l.1 == name).unwrap();
            k.looking.swap_remove(i);
        }
        match (r, want) {
            (Ok(e), Some(w)) => {
                self.attr(&format!("lookup({d}, {name})"), &e.attr, Some(w));
                if e.generation != 0 { self.bad(format!("lookup({d}, {name}) returned generation {}", e.generation)); }
                self.learn(w);
                if name != "." && name != ".." { self.k.borrow_mut().names.insert((d, name.to_string()), w); }
                Ok(w)
            }
            (Ok(e), None) => { self.bad(format!("lookup({d}, {name}) returned inode {}, should be ENOENT", e.attr.ino)); Err(libc::ENOENT) }
            (Err(e), w) => {
                if w.is_some() && err(e) == libc::ENOENT { self.bad(format!("lookup({d}, {name}) returned ENOENT, should be inode {}", w.unwrap())); }
                Err(err(e))
            }
        }
    }

    /// Look up a name, unless that's cached.  The directory is locked.
    async fn name(&self, d: Ino, name: &str) -> R<Ino> {
        let c = self.k.borrow().names.get(&(d, name.to_string())).copied();
        match c { Some(i) if self.knows(i) => Ok(i), _ => self.send_lookup(d, name).await }
    }

    /// Find an inode, as somebody who uses a path would
    pub async fn walk(&self, ino: Ino) {
        for _ in 0..200 {
            if self.knows(ino) { return; }
            if self.k.borrow().nfs && self.chance(50) && self.st.borrow().model.inodes.get(&ino).is_some_and(|i| i.nlink > 0) {
                // VFS_VGET
                let g = lock(&self.st, vec![(ino, false)]).await;
                let ok = !self.knows(ino) && self.st.borrow().model.inodes.get(&ino).is_some_and(|i| i.nlink > 0)
                    && !self.k.borrow().looking.iter().any(|l| l.2 == Some(ino));
                if ok { self.probe("fuse_vget"); let _ = self.send_lookup(ino, ".").await; }
                drop(g);
                continue;
            }
            // The lowest ancestor that isn't known, and its name
            let step = {
                let s = self.st.borrow();
                let mut x = ino;
                loop {
                    let names: Vec<(Ino, String)> = s.model.dirs().into_iter().flat_map(|d| {
                        s.model.ents(d).unwrap().iter().filter(|(_, i)| **i == x).map(|(n, _)| (d, n.clone())).collect::<Vec<_>>()
                    }).collect();
                    if names.is_empty() { break None; }
                    let p = self.k.borrow_mut().rng.pick(&names).clone();
                    if self.knows(p.0) { break Some((p.0, p.1, x)); }
                    x = p.0;
                }
            };
            let Some((d, n, x)) = step else { return };
            let g = lock(&self.st, vec![(d, false)]).await;
            if self.knows(d) && self.st.borrow().model.lookup(d, &n) == Some(x) {
                if let Err(e) = self.name(d, &n).await {
                    if !self.st.borrow().allow.contains(&e) { self.bad(format!("lookup({d}, {n}) returned {}", en(e))); }
                    return;
                }
            }
            drop(g);
        }
    }

    /// The system is short of vnodes
    pub async fn reclaim(&self) {
        let (n, purge) = { let mut k = self.k.borrow_mut(); let (a, b) = (k.reclaim, k.purge); (if k.rng.below(100) < a { 1 + k.rng.below(4) } else { 0 }, k.rng.below(100) < b) };
        if purge {
            let mut k = self.k.borrow_mut();
            let v: Vec<_> = k.names.keys().cloned().collect();
            if !v.is_empty() { let x = k.rng.pick(&v).clone(); k.names.remove(&x); }
        }
        for _ in 0..n {
            let v: Vec<Ino> = self.k.borrow().known.keys().copied().filter(|i| *i != ROOT).collect();
            if v.is_empty() { return; }
            let i = *self.k.borrow_mut().rng.pick(&v);
            self.forget(i, false).await;
        }
    }

    /// Forget about a vnode, if nobody is using it
    async fn forget(&self, i: Ino, locked: bool) {
        let g = {
            let s = self.st.borrow();
            let k = self.k.borrow();
            if k.pins.get(&i).copied().unwrap_or(0) > 0 || k.looking.iter().any(|l| l.2 == Some(i) || l.0 == i) || s.model.is_open(i) { return; }
            if !locked && (!s.free(i) || s.model.inodes.get(&i).is_some_and(|x| x.nlink == 0)) { return; }
            // A directory's vnode stays while its children's are there
            if !k.nfs && s.model.ents(i).is_some_and(|e| e.values().any(|c| k.known.contains_key(c))) { return; }
            drop(s);
            if locked { None } else { Some(lock(&self.st, vec![(i, true)])) }
        };
        let _g = match g { Some(f) => Some(f.await), None => None };
        let n = {
            let mut k = self.k.borrow_mut();
            let Some(n) = k.known.remove(&i) else { return };
            k.names.retain(|a, b| a.0 != i && *b != i);
            k.forgetting.insert(i);
            n
        };
        self.probe("fuse_forget");
        self.f.forget(self.r0(), i, n).await;
        self.k.borrow_mut().forgetting.remove(&i);
    }

    // ---------------------------------------------------------------- what clients do

    fn entry(&self, what: &str, d: Ino, name: &OsStr, a: FileAttr, kind: FileType, perm: u16, uid: u32, gid: u32) -> FileDataMut {
        let nlink = if kind == FileType::Directory { 2 } else { 1 };
        if (a.kind, a.perm, a.uid, a.gid, a.nlink) != (kind, perm, uid, gid, nlink) {
            self.bad(format!("{what}({d}, {name:?}): created a {:?} with permissions {:o}, owner {}:{} and {} links; should be {kind:?} {perm:o} {uid}:{gid} and {nlink}", a.kind, a.perm, a.uid, a.gid, a.nlink));
        }
        self.learn(a.ino);
        self.k.borrow_mut().names.insert((d, name.to_str().unwrap().into()), a.ino);
        FileDataMut::new_for_tests(None, a.ino)
    }

    /// The kernel usually looks for the name first
    async fn absent(&self, d: Ino, name: &OsStr) {
        if self.chance(60) { let _ = self.send_lookup(d, name.to_str().unwrap()).await; }
    }

    pub async fn mk(&self, d: Ino, name: &OsStr, kind: &Kind, perm: u16, uid: u32, gid: u32) -> R<FileDataMut> {
        self.absent(d, name).await;
        let q = self.req(uid, gid);
        let p = perm as u32;
        let (what, a) = match kind {
            Kind::Reg(_) => {
                let r = self.f.create(q, d, name, libc::S_IFREG as u32 | p, (libc::O_CREAT | libc::O_RDWR) as u32).await.map_err(err)?;
                if r.generation != 0 { self.bad(format!("create({d}, {name:?}) returned generation {}", r.generation)); }
                if r.attr.size != 0 { self.bad(format!("create({d}, {name:?}) returned size {}", r.attr.size)); }
                ("create", r.attr)
            }
            Kind::Dir { .. } => ("mkdir", self.f.mkdir(q, d, name, libc::S_IFDIR as u32 | p, 0).await.map_err(err)?.attr),
            Kind::Link(t) => {
                let a = self.f.symlink(q, d, name, OsStr::new(t)).await.map_err(err)?.attr;
                ("symlink", a)
            }
            k => {
                let (m, rdev) = match k { Kind::Fifo => (libc::S_IFIFO, 0), Kind::Sock => (libc::S_IFSOCK, 0), Kind::Chr(r) => (libc::S_IFCHR, *r), Kind::Blk(r) => (libc::S_IFBLK, *r), _ => unreachable!() };
                let a = self.f.mknod(q, d, name, m as u32 | p, rdev).await.map_err(err)?.attr;
                if rdev != 0 && a.rdev != rdev { self.bad(format!("mknod({d}, {name:?}) returned rdev {}, should be {rdev}", a.rdev)); }
                ("mknod", a)
            }
        };
        Ok(self.entry(what, d, name, a, kind_of(kind), if what == "symlink" { 0o755 } else { perm }, uid, gid))
    }

    pub async fn unlink(&self, d: Ino, name: &OsStr, exists: bool) -> R<()> {
        let n = name.to_str().unwrap().to_string();
        let i = if exists { Some(self.name(d, &n).await?) } else { None };
        self.f.unlink(self.r0(), d, name).await.map_err(err)?;
        let _ = i;
        self.k.borrow_mut().names.remove(&(d, n));
        Ok(())
    }

    /// The last user of a file has gone
    pub async fn inactive(&self, i: Ino) {
        let nlink = self.st.borrow().model.inodes.get(&i).map(|x| x.nlink).unwrap_or(0);
        if nlink == 0 || self.chance(30) { self.forget(i, true).await; }
    }

    pub async fn rmdir(&self, d: Ino, name: &OsStr, exists: bool) -> R<()> {
        let n = name.to_str().unwrap().to_string();
        if exists { self.name(d, &n).await?; }
        self.f.rmdir(self.r0(), d, name).await.map_err(err)?;
        self.k.borrow_mut().names.remove(&(d, n));
        Ok(())
    }

    pub async fn rename(&self, d: Ino, n1: &OsStr, d2: Ino, n2: &OsStr, dst: Option<Ino>) -> R<Ino> {
        let (a, b) = (n1.to_str().unwrap().to_string(), n2.to_str().unwrap().to_string());
        // The kernel holds references to both
        let src = self.st.borrow().model.lookup(d, &a).unwrap();
        let pins: Vec<Ino> = std::iter::once(src).chain(dst).collect();
        for p in &pins { *self.k.borrow_mut().pins.entry(*p).or_default() += 1; }
        let r = async {
            // Since then, it can't be forgotten
            while self.k.borrow().forgetting.contains(&src) { simrt::sleep_ns(10_000).await; }
            self.name(d, &a).await?;
            if dst.is_some() { self.name(d2, &b).await?; } else { self.absent(d2, n2).await; }
            self.f.rename(self.r0(), d, n1, d2, n2).await.map_err(err)
        }.await;
        for p in &pins { *self.k.borrow_mut().pins.get_mut(p).unwrap() -= 1; }
        r?;
        let mut k = self.k.borrow_mut();
        k.names.remove(&(d, a));
        k.names.remove(&(d2, b.clone()));
        k.names.insert((d2, b), src);
        Ok(src)
    }

    pub async fn link(&self, ino: Ino, d: Ino, name: &OsStr) -> R<()> {
        self.absent(d, name).await;
        let e = self.f.link(self.r0(), ino, d, name).await.map_err(err)?;
        self.attr(&format!("link({ino}, {d}, {name:?})"), &e.attr, Some(ino));
        let want = self.st.borrow().model.inodes[&ino].nlink + 1;
        if e.attr.nlink as u64 != want { self.bad(format!("link({ino}, {d}, {name:?}) returned {} links, should be {want}", e.attr.nlink)); }
        // FreeBSD neither counts this reply as a reference, nor caches the name
        Ok(())
    }

    pub async fn write(&self, ino: Ino, off: u64, data: &[u8]) -> R<u32> {
        Ok(self.f.write(self.r0(), ino, 0, off, data, 0, 0).await.map_err(err)?.written)
    }
    pub async fn read(&self, ino: Ino, off: u64, len: usize) -> R<Vec<u8>> {
        Ok(self.f.read(self.r0(), ino, 0, off, len as u32).await.map_err(err)?.data.to_vec())
    }
    pub async fn deallocate(&self, ino: Ino, off: u64, len: u64) -> R<()> {
        if self.chance(10) {
            let mode = self.k.borrow_mut().rng.below(3) as u32;
            match self.f.fallocate(self.r0(), ino, 0, off, len, mode).await { Err(e) if err(e) == libc::EOPNOTSUPP => (), x => self.bad(format!("fallocate with mode {mode} returned {x:?}")) }
        }
        self.f.fallocate(self.r0(), ino, 0, off, len, 3).await.map_err(err)
    }
    pub async fn lseek(&self, ino: Ino, off: u64, w: SeekWhence) -> R<u64> {
        let w = match w { SeekWhence::Hole => libc::SEEK_HOLE, SeekWhence::Data => libc::SEEK_DATA };
        Ok(self.f.lseek(self.r0(), ino, 0, off, w as u32).await.map_err(err)?.offset)
    }
    pub async fn fsync(&self, ino: Ino) -> R<()> { self.f.fsync(self.r0(), ino, 0, false).await.map_err(err) }

    fn same(&self, what: &str, a: &FileAttr, g: &GetAttr) {
        let ts = |t: Timespec| Timestamp::new(t.sec, t.nsec);
        let kind = dt_of(a.kind) as u16;
        let ok = a.ino == g.ino && a.size == g.size && a.blocks == g.bytes.div_ceil(512) && a.mtime == ts(g.mtime) && a.ctime == ts(g.ctime)
            && a.perm == (g.mode.0 & 0o7777) && kind << 12 == (g.mode.0 & 0o170000) && a.nlink as u64 == g.nlink && a.uid == g.uid && a.gid == g.gid
            && a.rdev as u64 == g.rdev as u64 && a.blksize == g.blksize;
        if !ok { self.bad(format!("{what}: the reply is {a:?}, but the file's attributes are {g:?}")); }
    }

    pub async fn setattr(&self, ino: Ino, a: SetAttr) -> R<()> {
        let ts = |t: Option<Timespec>| t.map(|t| Timestamp::new(t.sec, t.nsec));
        let s = fuse3::SetAttr { mode: a.perm, uid: a.uid, gid: a.gid, size: a.size, lock_owner: None, atime: ts(a.atime), mtime: ts(a.mtime), ctime: ts(a.ctime) };
        let r = self.f.setattr(self.r0(), ino, None, s).await.map_err(err)?;
        let g = self.fs.getattr(&fd_ino(None, ino)).await?;
        self.same(&format!("setattr({ino})"), &r.attr, &g);
        Ok(())
    }
    pub async fn getattr(&self, ino: Ino) -> R<GetAttr> {
        let r = self.f.getattr(self.r0(), ino, None, 0).await.map_err(err)?;
        let g = self.fs.getattr(&fd_ino(None, ino)).await?;
        self.same(&format!("getattr({ino})"), &r.attr, &g);
        let t = match self.st.borrow().model.inodes.get(&ino).map(|x| x.kind.clone()) { Some(Kind::Link(t)) => t, _ => return Ok(g) };
        let l = self.f.readlink(self.r0(), ino).await.map_err(err)?;
        if &l.data[..] != t.as_bytes() { self.bad(format!("readlink({ino}) returned {:?}, should be {t:?}", String::from_utf8_lossy(&l.data))); }
        Ok(g)
    }

    pub async fn setx(&self, ino: Ino, ns: ExtAttrNamespace, name: &OsStr, val: &[u8]) -> R<()> {
        self.f.setxattr(self.r0(), ino, OsStr::new(&packed(ns, name)), val, 0, 0).await.map_err(err)
    }
    pub async fn delx(&self, ino: Ino, ns: ExtAttrNamespace, name: &OsStr) -> R<()> {
        self.f.removexattr(self.r0(), ino, OsStr::new(&packed(ns, name))).await.map_err(err)
    }
    pub async fn getxlen(&self, ino: Ino, ns: ExtAttrNamespace, name: &OsStr) -> R<u32> {
        match self.f.getxattr(self.r0(), ino, OsStr::new(&packed(ns, name)), 0).await.map_err(err)? {
            ReplyXAttr::Size(n) => Ok(n),
            x => { self.bad(format!("getxattr({ino}) with no buffer returned {x:?}")); Ok(0) }
        }
    }
    pub async fn getx(&self, ino: Ino, ns: ExtAttrNamespace, name: &OsStr) -> R<Vec<u8>> {
        let n = self.getxlen(ino, ns, name).await?;
        let p = packed(ns, name);
        if n > 1 {
            match self.f.getxattr(self.r0(), ino, OsStr::new(&p), n - 1).await { Err(e) if err(e) == libc::ERANGE => (), x => self.bad(format!("getxattr({ino}, {p}) of {n} bytes into a buffer of {} returned {x:?}", n - 1)) }
        }
        let extra = self.k.borrow_mut().rng.below(3) as u32;
        match self.f.getxattr(self.r0(), ino, OsStr::new(&p), (n + extra).max(1)).await.map_err(err)? {
            ReplyXAttr::Data(d) => Ok(d.to_vec()),
            x => { self.bad(format!("getxattr({ino}, {p}) returned {x:?}")); Ok(vec![]) }
        }
    }
    /// Namespaces and names
    pub async fn listx(&self, ino: Ino) -> R<Vec<(u8, String)>> {
        let n = match self.f.listxattr(self.r0(), ino, 0).await.map_err(err)? { ReplyXAttr::Size(n) => n, x => { self.bad(format!("listxattr({ino}) with no buffer returned {x:?}")); 0 } };
        if n > 1 {
            match self.f.listxattr(self.r0(), ino, n - 1).await { Err(e) if err(e) == libc::ERANGE => (), x => self.bad(format!("listxattr({ino}) of {n} bytes into a buffer of {} returned {x:?}", n - 1)) }
        }
        let b = match self.f.listxattr(self.r0(), ino, n.max(1)).await.map_err(err)? { ReplyXAttr::Data(d) => d.to_vec(), x => { self.bad(format!("listxattr({ino}) returned {x:?}")); vec![] } };
        if b.len() != n as usize { self.bad(format!("listxattr({ino}) said that it needs {n} bytes, but it needs {}", b.len())); }
        let mut v = vec![];
        for e in b.split(|c| *c == 0) {
            if e.is_empty() { continue; }
            let e = String::from_utf8_lossy(e);
            match e.split_once('.') { Some(("user", n)) => v.push((1, n.into())), Some(("system", n)) => v.push((2, n.into())), _ => self.bad(format!("listxattr({ino}) returned {e:?}")) }
        }
        Ok(v)
    }

    pub async fn lookup(&self, d: Ino, name: &OsStr) -> R<Ino> {
        if self.k.borrow().nfs && self.chance(30) && self.st.borrow().model.parent_of(d).is_some() {
            self.probe("fuse_dotdot");
            let _ = self.send_lookup(d, "..").await;
        }
        self.send_lookup(d, name.to_str().unwrap()).await
    }

    /// Up to `max` entries: names, inodes, types and offsets, and whether that's all
    pub async fn readdir(&self, d: Ino, off: i64, max: usize) -> R<(Vec<(String, u64, u8, i64)>, bool)> {
        let r = self.f.readdir(self.r0(), d, 0, off).await.map_err(err)?;
        let mut s = r.entries;
        let mut v = vec![];
        while let Some(e) = s.next().await {
            let e = e.map_err(err)?;
            v.push((e.name.to_string_lossy().into_owned(), e.inode, dt_of(e.kind), e.offset));
            if v.len() >= max { return Ok((v, false)); }
        }
        Ok((v, true))
    }

    pub async fn statvfs(&self) -> R<(u64, u64, u64)> {
        let r = self.f.statfs(self.r0(), ROOT).await.map_err(err)?;
        let n = self.fs.statvfs().await?;
        if (r.blocks, r.bsize as u64, r.frsize as u64, r.namelen as u64, r.files, r.ffree) != (n.f_blocks, n.f_bsize as u64, n.f_frsize as u64, n.f_namemax as u64, n.f_files, n.f_ffree) { self.bad(format!("statfs returned {r:?}")); }
        Ok((r.blocks, r.bfree, r.bavail))
    }

    /// Unmount
    pub async fn unmount(&self) {
        let v: Vec<Ino> = self.k.borrow().known.keys().copied().collect();
        self.k.borrow_mut().nfs = true;
        for i in v { if !self.st.borrow().model.is_open(i) { self.forget(i, false).await; } }
        self.f.destroy(self.r0()).await;
        self.probe("fuse_unmount");
    }
}

/// What the clients talk to
#[derive(Clone)]
pub enum Be { Native(Arc<Fs>), Fuse(Rc<Kfs>) }

impl Be {
    pub fn kernel(&self) -> Option<&Rc<Kfs>> { match self { Be::Fuse(k) => Some(k), _ => None } }
    pub async fn mk(&self, d: &FileData, name: &OsStr, kind: &Kind, perm: u16, uid: u32, gid: u32) -> R<FileDataMut> {
        match self {
            Be::Native(fs) => match kind {
                Kind::Reg(_) => fs.create(d, name, perm, uid, gid).await,
                Kind::Dir { .. } => fs.mkdir(d, name, perm, uid, gid).await,
                Kind::Link(t) => fs.symlink(d, name, perm, uid, gid, OsStr::new(t)).await,
                Kind::Fifo => fs.mkfifo(d, name, perm, uid, gid).await,
                Kind::Sock => fs.mksock(d, name, perm, uid, gid).await,
                Kind::Chr(r) => fs.mkchar(d, name, perm, uid, gid, *r as _).await,
                Kind::Blk(r) => fs.mkblock(d, name, perm, uid, gid, *r as _).await,
            },
            Be::Fuse(k) => k.mk(d.ino(), name, kind, perm, uid, gid).await,
        }
    }
    pub async fn unlink(&self, d: &FileData, fd: Option<&FileData>, name: &OsStr, exists: bool) -> R<()> {
        match self { Be::Native(fs) => fs.unlink(d, fd, name).await, Be::Fuse(k) => k.unlink(d.ino(), name, exists).await }
    }
    pub async fn inactive(&self, fd: FileDataMut) { match self { Be::Native(fs) => fs.inactive(fd).await, Be::Fuse(k) => k.inactive(fd.ino()).await } }
    pub async fn rmdir(&self, d: &FileData, name: &OsStr, exists: bool) -> R<()> {
        match self { Be::Native(fs) => fs.rmdir(d, name).await, Be::Fuse(k) => k.rmdir(d.ino(), name, exists).await }
    }
    pub async fn rename(&self, d: &FileData, src: &FileData, n1: &OsStr, d2: &FileData, dst: Option<u64>, n2: &OsStr) -> R<u64> {
        match self { Be::Native(fs) => fs.rename(d, src, n1, d2, dst, n2).await, Be::Fuse(k) => k.rename(d.ino(), n1, d2.ino(), n2, dst).await }
    }
    pub async fn link(&self, d: &FileData, fd: &FileData, name: &OsStr) -> R<()> {
        match self { Be::Native(fs) => fs.link(d, fd, name).await, Be::Fuse(k) => k.link(fd.ino(), d.ino(), name).await }
    }
    pub async fn write(&self, fd: &FileData, off: u64, data: &[u8]) -> R<u32> {
        match self { Be::Native(fs) => fs.write(fd, off, data, 0).await, Be::Fuse(k) => k.write(fd.ino(), off, data).await }
    }
    pub async fn read(&self, fd: &FileData, off: u64, len: usize) -> R<Vec<u8>> {
        match self { Be::Native(fs) => fs.read(fd, off, len).await.map(|sg| flat(&sg)), Be::Fuse(k) => k.read(fd.ino(), off, len).await }
    }
    pub async fn setattr(&self, fd: &FileData, a: SetAttr) -> R<()> {
        match self { Be::Native(fs) => fs.setattr(fd, a).await, Be::Fuse(k) => k.setattr(fd.ino(), a).await }
    }
    pub async fn deallocate(&self, fd: &FileData, off: u64, len: u64) -> R<()> {
        match self { Be::Native(fs) => fs.deallocate(fd, off, len).await, Be::Fuse(k) => k.deallocate(fd.ino(), off, len).await }
    }
    pub async fn lseek(&self, fd: &FileData, off: u64, w: SeekWhence) -> R<u64> {
        match self { Be::Native(fs) => fs.lseek(fd, off, w).await, Be::Fuse(k) => k.lseek(fd.ino(), off, w).await }
    }
    pub async fn getattr(&self, fd: &FileData) -> R<GetAttr> {
        match self { Be::Native(fs) => fs.getattr(fd).await, Be::Fuse(k) => k.getattr(fd.ino()).await }
    }
    pub async fn setextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr, val: &[u8]) -> R<()> {
        match self { Be::Native(fs) => fs.setextattr(fd, ns, name, val).await, Be::Fuse(k) => k.setx(fd.ino(), ns, name, val).await }
    }
    pub async fn deleteextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> R<()> {
        match self { Be::Native(fs) => fs.deleteextattr(fd, ns, name).await, Be::Fuse(k) => k.delx(fd.ino(), ns, name).await }
    }
    pub async fn getextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> R<Vec<u8>> {
        match self { Be::Native(fs) => fs.getextattr(fd, ns, name).await.map(|d| d[..].to_vec()), Be::Fuse(k) => k.getx(fd.ino(), ns, name).await }
    }
    pub async fn getextattrlen(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> R<u32> {
        match self { Be::Native(fs) => fs.getextattrlen(fd, ns, name).await, Be::Fuse(k) => k.getxlen(fd.ino(), ns, name).await }
    }
    /// The inode, and its parent if that's known
    pub async fn lookup(&self, d: &FileData, name: &OsStr) -> R<(u64, Option<Option<u64>>)> {
        match self { Be::Native(fs) => fs.lookup(None, d, name).await.map(|x| (x.ino(), Some(x.parent()))), Be::Fuse(k) => k.lookup(d.ino(), name).await.map(|i| (i, None)) }
    }
    pub async fn fsync(&self, fd: &FileData) -> R<()> {
        match self { Be::Native(fs) => fs.fsync(fd).await, Be::Fuse(k) => k.fsync(fd.ino()).await }
    }
    pub async fn statvfs(&self) -> R<(u64, u64, u64)> {
        match self { Be::Native(fs) => fs.statvfs().await.map(|v| (v.f_blocks, v.f_bfree, v.f_bavail)), Be::Fuse(k) => k.statvfs().await }
    }
}
