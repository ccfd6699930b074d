//! Entropy comes from the simulator
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("getrandom") }
}
impl std::error::Error for Error {}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { simrt::fill_random(dest); Ok(()) }
