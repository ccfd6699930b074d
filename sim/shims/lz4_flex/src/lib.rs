//! Stand-in for lz4_flex's block API: a real (greedy) LZ4 block-format codec.
pub mod block {
    #[derive(Debug)]
    pub struct DecompressError;
    impl std::fmt::Display for DecompressError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("lz4 decompress error") } }
    impl std::error::Error for DecompressError {}

    fn put_len(out: &mut Vec<u8>, mut n: usize) { while n >= 255 { out.push(255); n -= 255; } out.push(n as u8); }

    fn seq(out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
        let ml = m.map(|(_, l)| l - 4).unwrap_or(0);
        out.push(((lit.len().min(15) as u8) << 4) | ml.min(15) as u8);
        if lit.len() >= 15 { put_len(out, lit.len() - 15); }
        out.extend_from_slice(lit);
        if let Some((off, _)) = m {
            out.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 { put_len(out, ml - 15); }
        }
    }

    pub fn compress(src: &[u8]) -> Vec<u8> {
        const HB: u32 = 12;
        let mut tbl = [u32::MAX; 1 << HB];
        let mut out = Vec::with_capacity(src.len() / 2 + 16);
        let (mut i, mut anchor) = (0usize, 0usize);
        let limit = src.len().saturating_sub(12);
        while i < limit {
            let v = u32::from_le_bytes(src[i..i + 4].try_into().unwrap());
            let h = (v.wrapping_mul(2654435761) >> (32 - HB)) as usize;
            let c = tbl[h] as usize;
            tbl[h] = i as u32;
            if c != u32::MAX as usize && i - c <= 65535 && src[c..c + 4] == src[i..i + 4] {
                let mut l = 4;
                let end = src.len() - 5;
                while i + l < end && src[c + l] == src[i + l] { l += 1; }
                seq(&mut out, &src[anchor..i], Some((i - c, l)));
                i += l;
                anchor = i;
            } else { i += 1; }
        }
        seq(&mut out, &src[anchor..], None);
        out
    }

    pub fn decompress(src: &[u8], size: usize) -> Result<Vec<u8>, DecompressError> {
        let mut out: Vec<u8> = Vec::with_capacity(size);
        let mut i = 0;
        let len = |i: &mut usize, base: usize| -> Result<usize, DecompressError> {
            let mut n = base;
            if base == 15 { loop { let b = *src.get(*i).ok_or(DecompressError)?; *i += 1; n += b as usize; if b != 255 { break; } } }
            Ok(n)
        };
        while i < src.len() {
            let t = src[i]; i += 1;
            let l = len(&mut i, (t >> 4) as usize)?;
            if i + l > src.len() || out.len() + l > size { return Err(DecompressError); }
            out.extend_from_slice(&src[i..i + l]);
            i += l;
            if i >= src.len() { break; }
            if i + 2 > src.len() { return Err(DecompressError); }
            let off = u16::from_le_bytes([src[i], src[i + 1]]) as usize; i += 2;
            let ml = len(&mut i, (t & 15) as usize)? + 4;
            if off == 0 || off > out.len() || out.len() + ml > size { return Err(DecompressError); }
            let s = out.len() - off;
            for k in 0..ml { let b = out[s + k]; out.push(b); }
        }
        Ok(out)
    }
}
