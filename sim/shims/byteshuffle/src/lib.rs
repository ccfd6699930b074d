//! Stand-in for byteshuffle (a byte transpose, as in Blosc).
pub fn shuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = vec![0u8; src.len()];
    for i in 0..n { for j in 0..typesize { out[j * n + i] = src[i * typesize + j]; } }
    out[n * typesize..].copy_from_slice(&src[n * typesize..]);
    out
}
pub fn unshuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = vec![0u8; src.len()];
    for i in 0..n { for j in 0..typesize { out[i * typesize + j] = src[j * n + i]; } }
    out[n * typesize..].copy_from_slice(&src[n * typesize..]);
    out
}
