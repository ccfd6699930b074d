// Stands in for /repo/bfffs-core/build.rs: pretend to be FreeBSD 14
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo::rustc-check-cfg=cfg(have_fspacectl)");
    println!("cargo:rustc-cfg=have_fspacectl");
    println!("cargo::rustc-check-cfg=cfg(bfffs_dst)");
    println!("cargo:rustc-cfg=bfffs_dst");
}
