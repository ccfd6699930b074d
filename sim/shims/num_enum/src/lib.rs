//! Stand-in for num_enum.
pub use num_enum_derive::{FromPrimitive, IntoPrimitive};
pub trait FromPrimitive: Sized { type Primitive: Copy; fn from_primitive(v: Self::Primitive) -> Self; }
