//! bfffsd's FUSE server, compiled from its own source
#[cfg(not(feature = "absent"))]
#[path = "/repo/bfffs/src/bin/bfffsd/fs.rs"]
pub mod fs;
pub use fuse3;

/// Lets the checks of everything else run when that doesn't compile
#[cfg(feature = "absent")]
pub mod fs {
    pub struct FuseFs;
    impl FuseFs { pub fn new(_: std::sync::Arc<bfffs_core::fs::Fs>) -> Self { FuseFs } }
    impl fuse3::raw::Filesystem for FuseFs {}
}
