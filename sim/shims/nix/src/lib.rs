//! The real nix, except that the clock and hole-punching are simulated.
pub use real::*;

pub mod fcntl {
    pub use real::fcntl::*;
    pub fn fspacectl_all(fd: std::os::fd::RawFd, off: real::libc::off_t, len: real::libc::off_t)
        -> real::Result<()>
    {
        simrt::erase_sync(fd, off as u64, len as u64).map_err(real::errno::Errno::from_raw)
    }
}

pub mod time {
    pub use real::time::ClockId;
    pub fn clock_gettime(_: ClockId) -> real::Result<real::sys::time::TimeSpec> {
        let (s, ns) = simrt::realtime();
        Ok(real::sys::time::TimeSpec::new(s, ns))
    }
}

pub mod mount {
    //! There is nothing mounted in the simulation.
    pub use crate::stub_mount::*;
}

mod stub_mount {
    #[derive(Clone, Copy, Debug)]
    pub struct MntFlags;
    impl MntFlags {
        pub fn empty() -> Self { MntFlags }
        pub fn insert(&mut self, _: MntFlags) {}
        pub const MNT_FORCE: MntFlags = MntFlags;
    }
    pub fn unmount<P: ?Sized>(_: &P, _: MntFlags) -> real::Result<()> { Ok(()) }
}
