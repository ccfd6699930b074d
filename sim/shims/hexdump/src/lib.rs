//! Stand-in for hexdump.
pub fn hexdump_iter(b: &[u8]) -> std::vec::IntoIter<Box<str>> {
    b.chunks(16).map(|c| c.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ").into_boxed_str())
        .collect::<Vec<_>>().into_iter()
}
