//! The FreeBSD flavour of libc that bfffs sees
pub use libc::*;
