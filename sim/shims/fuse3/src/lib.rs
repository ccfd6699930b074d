//! The part of fuse3 that a server implements.  The simulator takes the place
//! of the kernel, so there are no sessions.
#![allow(async_fn_in_trait)]

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Errno(i32);
impl From<i32> for Errno { fn from(e: i32) -> Self { Errno(e) } }
impl From<Errno> for i32 { fn from(e: Errno) -> i32 { e.0 } }

pub type Result<T> = std::result::Result<T, Errno>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FileType { NamedPipe, CharDevice, BlockDevice, Directory, RegularFile, Symlink, Socket }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Timestamp { pub sec: i64, pub nsec: u32 }
impl Timestamp { pub fn new(sec: i64, nsec: u32) -> Self { Timestamp { sec, nsec } } }

#[derive(Clone, Debug, Default)]
pub struct SetAttr {
    pub mode: Option<ModeT>,
    pub uid: Option<u32>,
    pub gid: Option<u32>,
    pub size: Option<u64>,
    pub lock_owner: Option<u64>,
    pub atime: Option<Timestamp>,
    pub mtime: Option<Timestamp>,
    pub ctime: Option<Timestamp>,
}
/// FreeBSD's mode_t
pub type ModeT = u16;

pub mod raw {
    use crate::Result;
    use futures::Stream;
    use reply::*;
    use std::ffi::OsStr;

    #[derive(Clone, Copy, Debug, Default)]
    pub struct Request { pub unique: u64, pub uid: u32, pub gid: u32, pub pid: u32 }

    fn absent<T>() -> T { panic!("the FUSE server is absent") }
    // The server implements all of these
    #[allow(unused_variables)]
    pub trait Filesystem {
        async fn init(&self, req: Request) -> Result<ReplyInit> { absent() }
        async fn destroy(&self, req: Request) { absent() }
        async fn create(&self, req: Request, parent: u64, name: &OsStr, mode: u32, flags: u32) -> Result<ReplyCreated> { absent() }
        async fn fallocate(&self, req: Request, ino: u64, fh: u64, offset: u64, len: u64, mode: u32) -> Result<()> { absent() }
        async fn forget(&self, req: Request, ino: u64, nlookup: u64) { absent() }
        async fn fsync(&self, req: Request, ino: u64, fh: u64, datasync: bool) -> Result<()> { absent() }
        async fn getattr(&self, req: Request, ino: u64, fh: Option<u64>, flags: u32) -> Result<ReplyAttr> { absent() }
        async fn getxattr(&self, req: Request, ino: u64, name: &OsStr, size: u32) -> Result<ReplyXAttr> { absent() }
        async fn link(&self, req: Request, ino: u64, parent: u64, name: &OsStr) -> Result<ReplyEntry> { absent() }
        async fn lookup(&self, req: Request, parent: u64, name: &OsStr) -> Result<ReplyEntry> { absent() }
        async fn listxattr(&self, req: Request, ino: u64, size: u32) -> Result<ReplyXAttr> { absent() }
        async fn lseek(&self, req: Request, ino: u64, fh: u64, offset: u64, whence: u32) -> Result<ReplyLSeek> { absent() }
        async fn mkdir(&self, req: Request, parent: u64, name: &OsStr, mode: u32, umask: u32) -> Result<ReplyEntry> { absent() }
        async fn mknod(&self, req: Request, parent: u64, name: &OsStr, mode: u32, rdev: u32) -> Result<ReplyEntry> { absent() }
        async fn read(&self, req: Request, ino: u64, fh: u64, offset: u64, size: u32) -> Result<ReplyData> { absent() }
        async fn readdir(&self, req: Request, ino: u64, fh: u64, offset: i64)
            -> Result<ReplyDirectory<impl Stream<Item = Result<DirectoryEntry>> + Send + '_>> {
            absent::<()>(); Ok(ReplyDirectory { entries: futures::stream::empty() })
        }
        async fn readlink(&self, req: Request, ino: u64) -> Result<ReplyData> { absent() }
        async fn removexattr(&self, req: Request, ino: u64, name: &OsStr) -> Result<()> { absent() }
        async fn rename(&self, req: Request, parent: u64, name: &OsStr, newparent: u64, newname: &OsStr) -> Result<()> { absent() }
        async fn rmdir(&self, req: Request, parent: u64, name: &OsStr) -> Result<()> { absent() }
        async fn setattr(&self, req: Request, ino: u64, fh: Option<u64>, attr: crate::SetAttr) -> Result<ReplyAttr> { absent() }
        async fn setxattr(&self, req: Request, ino: u64, name: &OsStr, value: &[u8], flags: u32, position: u32) -> Result<()> { absent() }
        async fn statfs(&self, req: Request, ino: u64) -> Result<ReplyStatFs> { absent() }
        async fn symlink(&self, req: Request, parent: u64, name: &OsStr, link: &OsStr) -> Result<ReplyEntry> { absent() }
        async fn unlink(&self, req: Request, parent: u64, name: &OsStr) -> Result<()> { absent() }
        #[allow(clippy::too_many_arguments)]
        async fn write(&self, req: Request, ino: u64, fh: u64, offset: u64, data: &[u8], write_flags: u32, flags: u32) -> Result<ReplyWrite> { absent() }
    }

    pub mod reply {
        use crate::{FileType, Timestamp};
        use bytes::Bytes;
        use std::{ffi::OsString, num::NonZeroU32, time::Duration};

        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct FileAttr {
            pub ino: u64, pub size: u64, pub blocks: u64,
            pub atime: Timestamp, pub mtime: Timestamp, pub ctime: Timestamp,
            pub kind: FileType, pub perm: u16, pub nlink: u32, pub uid: u32, pub gid: u32, pub rdev: u32, pub blksize: u32,
        }
        #[derive(Debug)] pub struct ReplyInit { pub max_write: NonZeroU32 }
        #[derive(Debug)] pub struct ReplyAttr { pub ttl: Duration, pub attr: FileAttr }
        #[derive(Debug)] pub struct ReplyEntry { pub ttl: Duration, pub attr: FileAttr, pub generation: u64 }
        #[derive(Debug)] pub struct ReplyCreated { pub ttl: Duration, pub attr: FileAttr, pub generation: u64, pub fh: u64, pub flags: u32 }
        #[derive(Debug)] pub struct ReplyData { pub data: Bytes }
        impl From<Bytes> for ReplyData { fn from(data: Bytes) -> Self { ReplyData { data } } }
        #[derive(Debug)] pub struct ReplyLSeek { pub offset: u64 }
        #[derive(Debug)] pub struct ReplyWrite { pub written: u32 }
        #[derive(Debug)] pub struct ReplyStatFs {
            pub blocks: u64, pub bfree: u64, pub bavail: u64, pub files: u64, pub ffree: u64,
            pub bsize: u32, pub namelen: u32, pub frsize: u32,
        }
        #[derive(Debug)] pub enum ReplyXAttr { Size(u32), Data(Bytes) }
        #[derive(Debug)] pub struct DirectoryEntry { pub inode: u64, pub kind: FileType, pub name: OsString, pub offset: i64 }
        pub struct ReplyDirectory<S> { pub entries: S }
    }
}
