//! The host's libc, plus the FreeBSD-only names bfffs uses.
#![allow(non_camel_case_types)]
pub use real::*;

// errnos that don't exist on Linux.  They need unique, positive values < 256
pub const EAUTH: c_int = 200;
pub const EBADRPC: c_int = 201;
pub const ECAPMODE: c_int = 202;
pub const EDOOFUS: c_int = 203;
pub const EFTYPE: c_int = 204;
pub const EINTEGRITY: c_int = 205;
pub const ENEEDAUTH: c_int = 206;
pub const ENOTCAPABLE: c_int = 207;
pub const EPROCLIM: c_int = 208;
pub const EPROCUNAVAIL: c_int = 209;
pub const EPROGMISMATCH: c_int = 210;
pub const EPROGUNAVAIL: c_int = 211;
pub const ERPCMISMATCH: c_int = 212;
pub const ENOATTR: c_int = 213;

pub const O_EXLOCK: c_int = 0;
/// The host's O_DIRECT may be refused by the scratch file system; no I/O is
/// ever done through the descriptor anyway.
pub const O_DIRECT: c_int = 0;

pub const EXTATTR_NAMESPACE_USER: c_int = 1;
pub const EXTATTR_NAMESPACE_SYSTEM: c_int = 2;

pub const S_IFMT: u16 = 0o170000;
pub const S_IFIFO: u16 = 0o010000;
pub const S_IFCHR: u16 = 0o020000;
pub const S_IFDIR: u16 = 0o040000;
pub const S_IFBLK: u16 = 0o060000;
pub const S_IFREG: u16 = 0o100000;
pub const S_IFLNK: u16 = 0o120000;
pub const S_IFSOCK: u16 = 0o140000;

/// FreeBSD's dirent
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct dirent {
    pub d_fileno: u64,
    pub d_off: i64,
    pub d_reclen: u16,
    pub d_type: u8,
    pub d_pad0: u8,
    pub d_namlen: u16,
    pub d_pad1: u16,
    pub d_name: [c_char; 256],
}

/// FreeBSD's statvfs
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct statvfs {
    pub f_bavail: u64,
    pub f_bfree: u64,
    pub f_blocks: u64,
    pub f_favail: u64,
    pub f_ffree: u64,
    pub f_files: u64,
    pub f_bsize: c_ulong,
    pub f_flag: c_ulong,
    pub f_frsize: c_ulong,
    pub f_fsid: c_ulong,
    pub f_namemax: c_ulong,
}
