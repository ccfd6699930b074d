//! Stand-in for the bitfield crate: the forms bfffs uses.
pub trait Bits128: Copy { fn to_u128(self) -> u128; fn from_u128(v: u128) -> Self; }
macro_rules! imp { ($($t:ty)*) => { $(impl Bits128 for $t { fn to_u128(self) -> u128 { self as u128 } fn from_u128(v: u128) -> Self { v as $t } })* } }
imp!(u8 u16 u32 u64 u128 usize);
impl Bits128 for bool { fn to_u128(self) -> u128 { self as u128 } fn from_u128(v: u128) -> Self { v & 1 == 1 } }
pub fn get<T: Bits128, R: Bits128>(v: T, msb: usize, lsb: usize) -> R {
    let w = msb - lsb + 1;
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    R::from_u128((v.to_u128() >> lsb) & m)
}
pub fn set<T: Bits128, R: Bits128>(v: T, msb: usize, lsb: usize, x: R) -> T {
    let w = msb - lsb + 1;
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    T::from_u128((v.to_u128() & !(m << lsb)) | ((x.to_u128() & m) << lsb))
}
#[macro_export]
macro_rules! bitfield {
    ($(#[$a:meta])* $v:vis struct $n:ident($t:ty); impl Debug; $($rest:tt)*) => {
        $(#[$a])* $v struct $n($v $t);
        impl ::core::fmt::Debug for $n {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.debug_tuple(stringify!($n)).field(&self.0).finish() }
        }
        #[allow(dead_code)]
        impl $n { $crate::bitfield_fields!{ [$t] $t; $($rest)* } }
    };
    ($(#[$a:meta])* $v:vis struct $n:ident($t:ty); $($rest:tt)*) => {
        $(#[$a])* $v struct $n($v $t);
        #[allow(dead_code)]
        impl $n { $crate::bitfield_fields!{ [$t] $t; $($rest)* } }
    };
}
#[macro_export]
macro_rules! bitfield_fields {
    ([$t:ty] $d:ty;) => {};
    // optional leading comments/attributes
    ([$t:ty] $d:ty; $(#[$a:meta])* $v:vis $g:ident, _ : $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$a])* $v fn $g(&self) -> $d { $crate::get::<$t, $d>(self.0, $msb, $lsb) }
        $crate::bitfield_fields!{ [$t] $d; $($rest)* }
    };
    ([$t:ty] $d:ty; $(#[$a:meta])* $v:vis $g:ident, $s:ident : $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$a])* $v fn $g(&self) -> $d { $crate::get::<$t, $d>(self.0, $msb, $lsb) }
        $v fn $s(&mut self, x: $d) { self.0 = $crate::set::<$t, $d>(self.0, $msb, $lsb, x); }
        $crate::bitfield_fields!{ [$t] $d; $($rest)* }
    };
    ([$t:ty] $d:ty; u8; $($rest:tt)*) => { $crate::bitfield_fields!{ [$t] u8; @f $($rest)* } };
    ([$t:ty] $d:ty; u16; $($rest:tt)*) => { $crate::bitfield_fields!{ [$t] u16; @f $($rest)* } };
    ([$t:ty] $d:ty; u32; $($rest:tt)*) => { $crate::bitfield_fields!{ [$t] u32; @f $($rest)* } };
    ([$t:ty] $d:ty; u64; $($rest:tt)*) => { $crate::bitfield_fields!{ [$t] u64; @f $($rest)* } };
    ([$t:ty] $d:ty; @f $($rest:tt)*) => { $crate::bitfield_fields_typed!{ [$t] $d; $($rest)* } };
    // `u64; field, _: msb, lsb;` is seen as `$d; field`
    ([$t:ty] $d:ty; $nt:ty; $($rest:tt)*) => { $crate::bitfield_fields_typed!{ [$t] $nt; $($rest)* } };
}
#[macro_export]
macro_rules! bitfield_fields_typed {
    ([$t:ty] $d:ty; $(#[$a:meta])* $v:vis $g:ident, _ : $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$a])* $v fn $g(&self) -> $d { $crate::get::<$t, $d>(self.0, $msb, $lsb) }
        $crate::bitfield_fields!{ [$t] $d; $($rest)* }
    };
    ([$t:ty] $d:ty; $(#[$a:meta])* $v:vis $g:ident, $s:ident : $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$a])* $v fn $g(&self) -> $d { $crate::get::<$t, $d>(self.0, $msb, $lsb) }
        $v fn $s(&mut self, x: $d) { self.0 = $crate::set::<$t, $d>(self.0, $msb, $lsb, x); }
        $crate::bitfield_fields!{ [$t] $d; $($rest)* }
    };
}
