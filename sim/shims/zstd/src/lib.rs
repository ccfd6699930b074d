//! Stand-in for zstd's bulk API (avoids building the C library): an LZ4 block behind a magic and a length.
pub mod bulk {
    use std::io;
    pub fn compress(src: &[u8], _level: i32) -> io::Result<Vec<u8>> {
        let mut v = vec![0x28, 0xb5, 0x2f, 0xfd];
        v.extend_from_slice(&(src.len() as u32).to_le_bytes());
        v.extend(lz4_flex::block::compress(src));
        Ok(v)
    }
    pub fn decompress(src: &[u8], cap: usize) -> io::Result<Vec<u8>> {
        let bad = || io::Error::new(io::ErrorKind::InvalidData, "bad zstd stream");
        if src.len() < 8 || src[..4] != [0x28, 0xb5, 0x2f, 0xfd] { return Err(bad()); }
        let n = u32::from_le_bytes(src[4..8].try_into().unwrap()) as usize;
        if n > cap { return Err(bad()); }
        let v = lz4_flex::block::decompress(&src[8..], n).map_err(|_| bad())?;
        if v.len() != n { return Err(bad()); }
        Ok(v)
    }
}
