//! Stand-in for nonzero_ext.
use std::num::*;
pub trait NonZeroAble: Sized { type NonZero; fn nz(self) -> Option<Self::NonZero>; }
macro_rules! imp { ($($t:ty, $n:ty);*) => { $(impl NonZeroAble for $t { type NonZero = $n; fn nz(self) -> Option<$n> { <$n>::new(self) } })* } }
imp!(u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; usize, NonZeroUsize; i32, NonZeroI32; i64, NonZeroI64);
#[macro_export]
macro_rules! nonzero { ($e:expr) => { $crate::NonZeroAble::nz($e).expect("nonzero!(0)") } }
