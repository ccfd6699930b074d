//! The write credit of bfffs-core, compiled a second time with atomics and
//! locks that hand control to a scheduler before every step, so that threads
//! interleave in any order, repeatably.
#![allow(dead_code, unused_imports)]

pub mod th;

// Whatever else the file might come to name
pub use bfffs_core::*;

pub mod writeback {
    /// Stands in front of the real std
    mod std {
        pub use ::std::*;
        pub mod sync {
            pub use ::std::sync::*;
            #[cfg(not(feature = "plain"))]
            pub use crate::th::{Mutex, MutexGuard};
            pub mod atomic {
                pub use ::std::sync::atomic::*;
                #[cfg(not(feature = "plain"))]
                pub use crate::th::{AtomicBool, AtomicIsize, AtomicUsize};
            }
        }
    }
    include!("/repo/bfffs-core/src/writeback/writeback.rs");
}
