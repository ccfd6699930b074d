//! The little of bytes that bfffsd uses
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Bytes(Vec<u8>);
impl Bytes {
    pub fn copy_from_slice(s: &[u8]) -> Self { Bytes(s.to_vec()) }
    pub fn from_static(s: &'static [u8]) -> Self { Bytes(s.to_vec()) }
}
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl std::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] { &self.0 }
}
